//! A receiver of damaged and forged records admits members only.
use crate::ctx::*;
use crate::ev;
use crate::hostile;
use crate::io::*;
use crate::model::*;
use simcalls as sut;
use simcalls::{Codec, Ty};

pub fn run(c: &mut Ctx) -> Res {
    let n = 4 + c.t.below(if c.thorough { 60 } else { 24 });
    let mut seen: Vec<(RVal, Vec<u64>)> = vec![];
    for k in 0..n {
        one(c, k, &mut seen)?;
    }
    c.add("records", n as u64);
    Ok(())
}
/// One record that arrives; `seen` holds what was accepted before.
pub fn one(c: &mut Ctx, k: usize, seen: &mut Vec<(RVal, Vec<u64>)>) -> Res {
    {
        let ty = sut::TYS[c.t.weighted(&[3, 4, 4, 2])];
        let (codec, b) = hostile::record(c, ty);
        // a receiver may also be asked to read a record as another type
        let as_ty = if c.t.chance(60) { c.t.pick(&sut::TYS) } else { ty };
        let plan = ragged_plan(&mut c.t);
        let mut r = SimReader::new(&b, plan);
        let v = match guard("decode", || sut::decode(codec, as_ty, &mut r))? {
            Err(e) => {
                c.hit("refused");
                ev!(c, "{} {:?} {:?} {} bytes: refused ({})", k, as_ty, codec, b.len(), e.chars().take(60).collect::<String>());
                return Ok(());
            }
            Ok(v) => v,
        };
        c.hit("accepted");
        let l = guard("encode", || sut::leaves(&v))?;
        let m = match RVal::from_leaves(as_ty, &l) {
            Ok(m) => m,
            Err(e) => return viol("not-reduced", format!("{:?} {:?} accepted from {:02x?}: {}", as_ty, codec, b, e)),
        };
        ev!(c, "{} {:?} {:?} {} bytes: accepted {}", k, as_ty, codec, b.len(), m.short());
        if !m.member() {
            return viol("non-member", format!("{:?} {:?} accepted from {:02x?}; coordinates {:x?} are not those of a member", as_ty, codec, b, l));
        }
        // the bytes must say what was accepted
        let said = if codec == Codec::Json { ref_decode(codec, as_ty, &b).ok() } else { b.get(..as_ty.nleaves() * 8).and_then(|b| ref_decode(codec, as_ty, b).ok()) };
        if let Some(s) = said {
            match RVal::from_leaves(as_ty, &s) {
                Err(e) => return viol("not-reduced", format!("{:?} {:?} accepted from {:02x?}: {}", as_ty, codec, b, e)),
                Ok(x) if x != m => return viol("other-element", format!("{:?} {:?}: {:02x?} accepted as {}", as_ty, codec, b, m.short())),
                Ok(_) => (),
            }
        } else if codec != Codec::Json || integers(&b) < as_ty.nleaves() {
            return viol("short-record", format!("{:?} {:?} accepted from {} bytes ({} numbers)", as_ty, codec, b.len(), integers(&b)));
        }
        if as_ty == Ty::Fr || as_ty == Ty::Gt {
            for (x, xl) in seen.iter() {
                if *x == m && *xl != l {
                    return viol("two-encodings", format!("{} accepted from two encodings {:x?} and {:x?}", m.short(), xl, l));
                }
            }
            seen.push((m, l));
        }
    }
    Ok(())
}
/// Numbers written in a text record, outside strings.
fn integers(b: &[u8]) -> usize {
    let (mut n, mut quoted, mut escaped, mut digits) = (0, false, false, false);
    for x in b {
        let d = !quoted && x.is_ascii_digit();
        if d && !digits {
            n += 1;
        }
        digits = d;
        if quoted && *x == b'\\' && !escaped {
            escaped = true;
            continue;
        }
        if *x == b'"' && !escaped {
            quoted = !quoted;
        }
        escaped = false;
    }
    n
}
