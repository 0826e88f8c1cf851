//! A long past: before the scenario begins, the process has made the same call, or calls of one kind, many times.
//! Whatever counts, remembers or fills up in the library does so here.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::*;
use crate::rng::*;
use crate::rt;
use crate::tape::mix;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Sampler, Ty, Val};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Copy, Clone, Debug)]
enum Call {
    Encode(Codec),
    Decode(Codec),
    Refuse(Codec),
    Display,
    Debug,
    Export,
    Eq,
    IsZero,
    Add,
    Sub,
    Neg,
    Normalize,
    Act,
    Inverse,
    FrPow,
    Pairing,
    Sample,
    Slice,
    Wide,
    Text,
    FailSink,
    FailPrint,
    FailSource,
    FailRead(Codec),
}
use Call::*;
/// Microseconds, roughly; they only bound how often a call is repeated.
fn cost(k: Call, t: Ty) -> u64 {
    let w = [1, 3, 6, 12][t as usize];
    match k {
        Encode(_) => 5 * w,
        Decode(_) => [6, 25, 2500, 12000][t as usize],
        FailRead(_) => 10 * w,
        Refuse(_) => 15 * w,
        Display | Debug | Export => 20 * w,
        Eq | IsZero | Neg | Add | Sub => [1, 15, 40, 60][t as usize],
        Normalize => [1, 60, 80, 1][t as usize],
        Act => [2, 1500, 4500, 12000][t as usize],
        Inverse => 40,
        FrPow => 60,
        Pairing => 4500,
        Sample | FailSource => [15, 1000, 3500, 14000][t as usize],
        Slice | Wide | Text => 10,
        FailSink | FailPrint => 15 * w,
    }
}
struct Job {
    k: Call,
    a: Tv,
    b: Tv,
    s: Tv,
    p: Tv,
    q: Tv,
    good: Vec<u8>,
    bad: Vec<u8>,
    seed: u64,
}
fn once(j: &Job) -> Vec<u64> {
    let (a, b) = (&j.a.v, &j.b.v);
    let bytes = |x: Vec<u8>| x.into_iter().map(|x| x as u64).collect::<Vec<u64>>();
    match j.k {
        Encode(c) => bytes(sut::enc(c, a)),
        Decode(c) => sut::leaves(&sut::dec(c, a.ty(), &j.good).unwrap_or(Val::Fr(j.s.fr()))),
        Refuse(c) => vec![sut::dec(c, a.ty(), &j.bad).is_ok() as u64],
        Display => bytes(sut::text(a).into_bytes()),
        Debug => {
            let mut s = String::new();
            let ok = sut::debug(a, &mut s).is_ok();
            s.push(if ok { '1' } else { '0' });
            bytes(s.into_bytes())
        }
        Export => bytes(sut::into_bytes(a)),
        Eq => vec![sut::eq(a, b) as u64, sut::ne(a, b) as u64, sut::eq(b, a) as u64],
        IsZero => vec![sut::is_zero(a) as u64],
        Add => sut::leaves(&sut::add(a, b)),
        Sub => sut::leaves(&sut::sub(a, b)),
        Neg => sut::leaves(&sut::neg(a)),
        Normalize => {
            let mut v = *a;
            sut::normalize(&mut v);
            sut::leaves(&v)
        }
        Act => sut::leaves(&sut::act(a, j.s.fr())),
        Inverse => sut::fr_inv(j.s.fr()).map(|x| sut::leaves(&Val::Fr(x))).unwrap_or_default(),
        FrPow => sut::leaves(&Val::Fr(sut::fr_pow(j.s.fr(), j.s.fr()))),
        Pairing => match (j.p.v, j.q.v) {
            (Val::G1(p), Val::G2(q)) => sut::leaves(&Val::Gt(sut::pairing(p, q))),
            _ => vec![],
        },
        Sample => sut::sample(Sampler::Std(a.ty()), &mut SimRng::new(Source::Good(j.seed))).key(),
        Slice => {
            let mut x = [0u8; 32];
            for (i, y) in x.iter_mut().enumerate() {
                *y = (mix(j.seed ^ i as u64) & 31) as u8;
            }
            sut::fr_from_slice(&x).map(|x| sut::leaves(&Val::Fr(x))).unwrap_or_default()
        }
        Wide => {
            let mut x = [0u8; 64];
            for (i, y) in x.iter_mut().enumerate() {
                *y = mix(j.seed ^ i as u64) as u8;
            }
            sut::leaves(&Val::Fr(sut::fr_interpret(&x)))
        }
        Text => sut::fr_from_str(&j.seed.to_string()).map(|x| sut::leaves(&Val::Fr(x))).unwrap_or_default(),
        FailSink => {
            let mut w = SimWriter::new(vec![Step::Full, Step::Fail(std::io::ErrorKind::Other)]);
            vec![sut::encode(sut::BINARY, a, &mut w).is_ok() as u64]
        }
        FailRead(c) => {
            let mut r = SimReader::new(&j.good, vec![]);
            r.fault_at = Some(((j.seed % 16) as usize, Step::Fail(std::io::ErrorKind::Other)));
            vec![sut::decode(c, a.ty(), &mut r).is_ok() as u64]
        }
        FailPrint => {
            let mut w = SimFmt::new(Some((j.seed % 20) as usize));
            vec![sut::display(a, &mut w).is_ok() as u64]
        }
        FailSource => {
            let mut r = SimRng::new(Source::Good(j.seed));
            r.panic_at = Some((j.seed % 8) as usize);
            vec![catch_unwind(AssertUnwindSafe(|| sut::sample(Sampler::Std(a.ty()), &mut r))).is_ok() as u64]
        }
    }
}
fn many(j: &Job, n: u64, vary: bool, work: u64) -> Result<(), String> {
    let mut same = vec![];
    let mut x = Job { good: j.good.clone(), bad: j.bad.clone(), ..*j };
    let w = rt::work_done();
    for i in 0..n {
        if rt::work_done() - w > work {
            break;
        }
        if vary {
            // a walk through values of the type; what it reaches is checked by what must hold of it
            x.seed = mix(j.seed ^ i);
            if i > 0 {
                x.s.v = sut::add(&x.s.v, &j.b_scalar());
                if !matches!(j.k, Decode(_) | Refuse(_) | FailRead(_)) {
                    x.a.v = sut::add(&x.a.v, &j.b.v);
                }
                if let Pairing = j.k {
                    x.q.v = sut::add(&x.q.v, &j.q.v);
                }
            }
            let o = once(&x);
            let again = once(&x);
            if o != again && !also(j, &o, &again) {
                return Err(format!("{:?} gave {:x?} and then {:x?} with the same arguments (call {})", j.k, o, again, 2 * i));
            }
            let bad = match j.k {
                Add => !sut::eq(&sut::sub(&back(j, &o)?, &x.b.v), &x.a.v),
                Sub => !sut::eq(&sut::add(&back(j, &o)?, &x.b.v), &x.a.v),
                Neg => !sut::is_zero(&sut::add(&back(j, &o)?, &x.a.v)),
                Normalize => !sut::eq(&back(j, &o)?, &x.a.v),
                Encode(c) => match sut::dec(c, x.a.ty(), &o.iter().map(|x| *x as u8).collect::<Vec<u8>>()) {
                    Ok(v) => !sut::eq(&v, &x.a.v),
                    Err(_) => true,
                },
                Inverse => match sut::from_leaves(Ty::Fr, &o) {
                    Ok(Val::Fr(y)) => !sut::eq(&sut::act(&x.s.v, y), &sut::base(Ty::Fr)),
                    _ => !sut::is_zero(&x.s.v),
                },
                _ => false,
            };
            if bad {
                return Err(format!("call {} of {:?} gives {:x?}, which contradicts the library's other answers", i, j.k, o));
            }
        } else {
            let o = once(j);
            if i == 0 {
                same = o;
            } else if o != same && !also(j, &o, &same) {
                return Err(format!("{:?} gave {:x?} at first and {:x?} at call {} with the same arguments", j.k, same, o, i));
            }
        }
    }
    Ok(())
}
/// Points may come in another representation.
fn also(j: &Job, o: &[u64], same: &[u64]) -> bool {
    match (j.k, j.a.ty()) {
        (Add | Sub | Neg | Act | Sample, Ty::G1 | Ty::G2) => matches!((back(j, o), back(j, same)), (Ok(x), Ok(y)) if sut::eq(&x, &y)),
        _ => false,
    }
}
fn back(j: &Job, l: &[u64]) -> Result<Val, String> {
    sut::from_leaves(j.a.ty(), l)
}
impl Job {
    fn b_scalar(&self) -> Val {
        sut::base(Ty::Fr)
    }
}
/// Compiled-in points that a past may take.
const WORK: u64 = 200_000_000;
/// Enough for 350 pairings.
const FULL_WORK: u64 = 1_000_000_000;
/// How often (in a thousand executions), and which calls are the property's own.
static FOCUS: std::sync::Mutex<(u64, &[usize])> = std::sync::Mutex::new((15, &[]));
pub fn focus(prop: &str) {
    // positions in `ks` below
    *FOCUS.lock().unwrap() = match prop {
        "C01" => (60, &[5, 8, 12, 12, 14, 15, 15]),
        "C02" => (15, &[6, 8, 8, 9, 10, 12]),
        "C03" => (15, &[0, 1, 20, 23]),
        "C04" => (15, &[1, 2]),
        "C06" => (60, &[16, 16, 16, 22]),
        "C07" => (60, &[]),
        "C08" => (80, &[6, 8, 12, 15, 15, 15]),
        "C09" => (40, &[8, 9, 12, 13, 13]),
        "C10" => (15, &[0, 3, 4, 20, 21, 23]),
        "C11" => (15, &[0, 1, 3, 5]),
        "C12" => (60, &[6, 7, 8, 9, 10, 12, 13, 14, 15]),
        "C13" => (15, &[0, 1, 3, 16, 20, 21, 22, 22, 23, 23]),
        "C18" => (30, &[17, 18, 19]),
        "C20" => (0, &[]), // every replica has a past of its own
        "C21" => (60, &[8, 9, 10, 12, 12, 13, 15, 15, 15]),
        "C14" => (15, &[5, 8, 9, 11, 11, 11]),
        _ => (15, &[]),
    };
}
pub fn live(c: &mut Ctx) -> Res {
    let (chance, own) = *FOCUS.lock().unwrap();
    if !c.t.chance(chance) {
        return Ok(());
    }
    calls(c, own, if chance > 50 { 3_000_000 } else { 500_000 }, 500_000)
}
/// Calls of one kind; how many is bounded by an estimate in microseconds (of its own kinds, of others).
pub fn calls(c: &mut Ctx, own: &[usize], long: u64, short: u64) -> Res {
    let sp = c.t.open();
    let ty = [Ty::Fr, Ty::G1, Ty::G2, Ty::Gt][c.t.weighted(&[4, 3, 2, 2])];
    let codec = c.t.pick(sut::CODECS);
    let ks = [
        Encode(codec), Decode(codec), Refuse(codec), Display, Debug, Export, Eq, IsZero, Add, Sub, Neg, Normalize, Act, Inverse, FrPow, Pairing, Sample, Slice,
        Wide, Text, FailSink, FailPrint, FailSource, FailRead(codec),
    ];
    let of_its_own = !own.is_empty() && c.t.chance(500);
    let k = if of_its_own { ks[c.t.pick(own)] } else { c.t.pick(&ks) };
    let a = fresh(c, ty)?;
    let b = fresh(c, ty)?;
    let s = fresh(c, Ty::Fr)?;
    let (p, q) = match k {
        Pairing => (fresh(c, Ty::G1)?, fresh(c, Ty::G2)?),
        _ => (a, a),
    };
    let most = (if of_its_own { long } else { short } / cost(k, ty).max(2)).max(if short < 20_000 { 2 } else { 20 });
    let top = 64 - most.leading_zeros() as u64;
    let e = c.t.draw(top + 1);
    let full = of_its_own && c.t.chance(250);
    let n = if full { most } else { ((1u64 << e) + c.t.draw(1 << e)).min(most) };
    let work = if full { FULL_WORK } else { WORK };
    let vary = c.t.chance(400);
    let how = c.t.weighted(&[6, 1, 1]);
    let seed = c.t.bits();
    let (good, bad) = match k {
        Decode(x) | Refuse(x) | FailRead(x) => {
            let mut l = a.m.leaves();
            let good = ref_encode(x, ty, &l);
            let mut bad = good.clone();
            if seed & 1 == 1 {
                bad.truncate(good.len() / 2);
            } else {
                l[3] = !0;
                bad = ref_encode(x, ty, &l);
            }
            (good, bad)
        }
        _ => (vec![], vec![]),
    };
    let j = Job { k, a, b, s, p, q, good, bad, seed };
    ev!(c, "a past of {} calls {:?} of {:?}{}{}", n, k, ty, if vary { ", varied" } else { "" }, ["", " on a thread", " on as many threads"][how]);
    c.hit("long pasts");
    c.add("calls in long pasts", n);
    let r = match how {
        0 => rt::apart(|| guard("past", || many(&j, n, vary, work)))?,
        1 => std::thread::scope(|s| s.spawn(|| guard("past", || many(&j, n, vary, work))).join().unwrap_or_else(|_| viol("harness-thread", "join")))?,
        _ => {
            let mut r = Ok(());
            for i in 0..n.min(300) {
                let mut ji = Job { seed: mix(seed ^ i), good: j.good.clone(), bad: j.bad.clone(), ..j };
                if !vary {
                    ji.seed = seed;
                }
                r = std::thread::scope(|s| s.spawn(|| guard("past", || many(&ji, 1, vary, work))).join().unwrap_or_else(|_| viol("harness-thread", "join")))?;
                if r.is_err() {
                    break;
                }
            }
            r
        }
    };
    c.t.close(sp);
    match r {
        Ok(()) => Ok(()),
        Err(m) => viol("not-repeatable", m),
    }
}
