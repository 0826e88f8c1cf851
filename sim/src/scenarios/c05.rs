//! A node that works on whatever arrives: nothing it accepts may stop it.
use crate::ctx::*;
use crate::ev;
use crate::hostile;
use crate::io::*;
use crate::model::*;
use crate::rt;
use simcalls as sut;
use simcalls::{Codec, Ty, Val};

/// Compiled-in points (edges) one operation may execute, and bytes it may allocate in total.
const WORK: u64 = 200_000_000;
const MEMORY: u64 = 4 << 20;

fn work<T>(c: &mut Ctx, op: &'static str, f: impl FnOnce() -> T) -> Res<T> {
    rt::set_op(op);
    let a = rt::allocated();
    let (r, used) = rt::budgeted(WORK, || guard(op, f));
    let mem = rt::allocated() - a;
    let w = c.stats.entry("max_edges_of_one_operation").or_insert(0);
    *w = (*w).max(used);
    let w = c.stats.entry("max_bytes_of_one_operation").or_insert(0);
    *w = (*w).max(mem);
    if mem > MEMORY {
        return viol("memory", format!("{} allocated {} bytes", op, mem));
    }
    c.hit("operations");
    r
}
fn text_input(c: &mut Ctx) -> String {
    let s = c.t.open();
    let n = [0, 1, 5, 77, 78, 200, 3000][c.t.below(7)];
    let kind = c.t.below(5);
    let mut o = String::new();
    for _ in 0..n {
        let x = c.t.draw(10) as u8;
        o.push(match kind {
            0 => (b'0' + x) as char,
            1 => '0',
            2 => '9',
            3 => ['+', '-', ' ', '_', '.', 'x', 'a', '\u{0}', '\u{663}', '\u{1d7d8}'][x as usize],
            _ => {
                if x == 0 {
                    'e'
                } else {
                    (b'0' + x) as char
                }
            }
        });
    }
    c.t.close(s);
    o
}
fn entry(c: &mut Ctx, ty: Ty) -> Res<Option<Val>> {
    if ty == Ty::Fr && c.t.chance(300) {
        let s = c.t.open();
        let v = match c.t.below(4) {
            0 => {
                let t = text_input(c);
                let r = work(c, "from_str", || sut::fr_from_str(&t))?;
                r
            }
            1 => {
                let n = [0, 31, 32, 32, 32, 33, 64, 1000][c.t.below(8)];
                let f = c.t.below(3);
                let b: Vec<u8> = (0..n).map(|_| [0xff, 0, c.t.bits() as u8][f]).collect();
                work(c, "from_slice", || sut::fr_from_slice(&b))?
            }
            2 => {
                let mut b = [0u8; 64];
                let f = c.t.below(3);
                for x in b.iter_mut() {
                    *x = [0xff, 0, c.t.bits() as u8][f];
                }
                Some(work(c, "interpret", || sut::fr_interpret(&b))?)
            }
            _ => {
                let l = [c.t.bits(), c.t.bits(), c.t.bits(), [0, u64::MAX, c.t.bits()][c.t.below(3)]];
                Some(work(c, "from integer", || sut::fr_from_u256(l))?)
            }
        };
        c.t.close(s);
        return Ok(v.map(Val::Fr));
    }
    let (codec, b) = hostile::record(c, ty);
    let plan = ragged_plan(&mut c.t);
    let mut r = SimReader::new(&b, plan);
    let v = work(c, "decode", || sut::decode(codec, ty, &mut r).ok())?;
    if v.is_some() {
        c.hit("accepted");
    } else {
        c.hit("refused");
    }
    Ok(v)
}

pub fn run(c: &mut Ctx) -> Res {
    let mut bank: Vec<Val> = vec![];
    for t in sut::TYS {
        if t != Ty::Gt {
            bank.push(work(c, "one", || sut::base(t))?);
        }
        bank.push(work(c, "zero", || sut::zero(t))?);
    }
    let n = 4 + c.t.below(if c.thorough { 60 } else { 26 });
    let mut budget: i64 = if c.thorough { 800_000 } else { 250_000 };
    let of = |bank: &Vec<Val>, c: &mut Ctx, ty: Ty| -> Val {
        let v: Vec<&Val> = bank.iter().filter(|x| x.ty() == ty).collect();
        // newest first
        *v[v.len() - 1 - c.t.below(v.len())]
    };
    for k in 0..n {
        if budget < 0 {
            break;
        }
        let s = c.t.open();
        let ty = sut::TYS[c.t.weighted(&[4, 4, 3, 2])];
        if c.t.chance(450) {
            let v = entry(c, ty)?;
            ev!(c, "{} receive {:?}: {}", k, ty, if v.is_some() { "accepted" } else { "refused" });
            budget -= [100, 1000, 5000, 8000][ty as usize];
            if let Some(v) = v {
                bank.push(v);
            }
            c.t.close(s);
            continue;
        }
        let a = of(&bank, c, ty);
        let b = of(&bank, c, ty);
        let op = c.t.below(14);
        let name;
        let mut out: Option<Val> = None;
        match op {
            0 => {
                name = "add";
                out = Some(work(c, "add", || sut::add(&a, &b))?);
            }
            1 => {
                name = "sub";
                out = Some(work(c, "sub", || sut::sub(&a, &b))?);
            }
            2 => {
                name = "neg";
                out = Some(work(c, "neg", || sut::neg(&a))?);
            }
            3 => {
                name = "mul";
                budget -= [0, 1000, 4000, 20000][ty as usize];
                if let Val::Fr(f) = of(&bank, c, Ty::Fr) {
                    out = Some(work(c, "mul", || sut::act(&a, f))?);
                }
            }
            4 => {
                name = "inverse";
                if let Val::Fr(f) = of(&bank, c, Ty::Fr) {
                    out = work(c, "inverse", || sut::fr_inv(f))?.map(Val::Fr);
                }
            }
            5 => {
                name = "pow";
                if let (Val::Fr(f), Val::Fr(g)) = (of(&bank, c, Ty::Fr), of(&bank, c, Ty::Fr)) {
                    out = Some(Val::Fr(work(c, "pow", || sut::fr_pow(f, g))?));
                }
            }
            6 | 7 => {
                name = "pairing";
                budget -= 12000;
                if let (Val::G1(p), Val::G2(q)) = (of(&bank, c, Ty::G1), of(&bank, c, Ty::G2)) {
                    out = Some(Val::Gt(work(c, "pairing", || sut::pairing(p, q))?));
                }
            }
            8 => {
                name = "compare";
                work(c, "compare", || (sut::eq(&a, &b), sut::ne(&a, &b), sut::is_zero(&a)))?;
            }
            9 => {
                name = "normalize";
                let mut v = a;
                work(c, "normalize", || sut::normalize(&mut v))?;
                out = Some(v);
            }
            10 => {
                name = "export";
                work(c, "export", || (sut::into_bytes(&a), sut::vec_from(&a)))?;
            }
            11 => {
                name = "print";
                work(c, "print", || {
                    let mut s = String::new();
                    let _ = sut::display(&a, &mut s);
                    let _ = sut::debug(&a, &mut s);
                    let _ = sut::debug_alt(&a, &mut s);
                    s.len()
                })?;
            }
            12 => {
                name = "encode and decode";
                let k = c.t.pick(sut::CODECS);
                let e = work(c, "encode", || sut::enc(k, &a))?;
                let plan = ragged_plan(&mut c.t);
                let mut r = SimReader::new(&e, plan);
                out = work(c, "decode", || sut::decode(k, ty, &mut r).ok())?;
            }
            _ => {
                name = "self operation";
                out = Some(work(c, "sub", || sut::sub(&a, &a))?);
            }
        }
        ev!(c, "{} {} {:?}", k, name, ty);
        c.t.close(s);
        if let Some(v) = out {
            bank.push(v);
        }
    }
    let _ = (Codec::Json, RVal::zero(Ty::Fr));
    Ok(())
}
