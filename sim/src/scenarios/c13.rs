//! Calls torn down in the middle by a callback that fails or panics, between ordinary work on any thread.
use super::c10::print;
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::*;
use crate::rng::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Sampled, Sampler, Ty, Val};
use std::panic::{catch_unwind, AssertUnwindSafe};

const SAMPLERS: [Sampler; 9] = [
    Sampler::Std(Ty::Fr), Sampler::Std(Ty::G1), Sampler::GroupRandomG1, Sampler::Std(Ty::G2), Sampler::GroupRandomG2, Sampler::Std(Ty::Gt),
    Sampler::U256ModR, Sampler::U256ModQ, Sampler::U512,
];
/// On this thread or on one of its own: what is left behind may be per thread or shared.
fn on<T: Send>(other: bool, f: impl FnOnce() -> T + Send) -> T {
    if other {
        std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
    } else {
        f()
    }
}
fn sample(s: Sampler, src: &Source) -> Vec<u64> {
    sut::sample(s, &mut SimRng::new(src.clone())).key()
}
struct Torn {
    what: String,
    retry: Retry,
}
enum Retry {
    Sample(Sampler, Source, Option<Vec<u64>>),
    Encode(usize, Tv, Vec<u8>),
    Decode(usize, Tv, Vec<u8>),
    Print(usize, Tv, String),
}
/// One interrupted call.
fn tear(c: &mut Ctx, a: &Tv, kind: usize) -> Res<Torn> {
    let other = c.t.chance(300);
    let panics = c.t.chance(650);
    let ck = c.t.below(sut::CODECS.len());
    let codec = sut::CODECS[ck];
    let t = match kind {
        0 => {
            let sp = SAMPLERS[c.t.weighted(&[10, 5, 4, 2, 2, 1, 2, 2, 2])];
            let src = any_source(&mut c.t);
            // sometimes the normal result is known from before
            let want = if c.t.chance(500) { Some(guard("sample", || sample(sp, &src))?) } else { None };
            let at = c.t.below(match sp {
                Sampler::Std(Ty::Fr) => 66,
                Sampler::Std(Ty::Gt) => 18,
                _ => 9,
            });
            let s2 = src.clone();
            let times = 1 + c.t.below(9);
            let fired = on(other, move || {
                let mut r = SimRng::new(s2);
                if panics {
                    r.panic_at = Some(at);
                } else {
                    r.fail_at = Some((at, times));
                }
                let _ = catch_unwind(AssertUnwindSafe(|| sut::sample(sp, &mut r)));
                r.fired
            });
            if fired {
                c.fault(if panics { "panics in the random source" } else { "errors in the random source" });
            }
            Torn { what: format!("{:?} at draw {}", sp, at), retry: Retry::Sample(sp, src, want) }
        }
        1 => {
            let whole = guard("encode", || sut::enc(codec, &a.v))?;
            let at = c.t.below(whole.len() + 1);
            let plan = ragged_plan(&mut c.t);
            let step = if panics { Step::Panic } else { Step::Fail(any_kind(&mut c.t)) };
            let v = a.v;
            let (r, fired) = on(other, move || {
                let mut w = SimWriter::new(plan);
                w.fault_at = Some((at, step));
                let r = catch_unwind(AssertUnwindSafe(|| sut::encode(codec, &v, &mut w)));
                (matches!(r, Ok(Ok(()))), w.fired)
            });
            if fired {
                c.fault(if panics { "panics in the writer" } else { "errors in the writer" });
            }
            if r && fired {
                return viol("error-swallowed", format!("encoding {} succeeds though the writer failed", a.m.short()));
            }
            Torn { what: format!("encode {:?} at byte {}", codec, at), retry: Retry::Encode(ck, *a, whole) }
        }
        2 => {
            let whole = guard("encode", || sut::enc(codec, &a.v))?;
            let at = c.t.below(whole.len());
            let plan = ragged_plan(&mut c.t);
            let step = if panics { Step::Panic } else { Step::Fail(any_kind(&mut c.t)) };
            let ty = a.ty();
            let b = whole.clone();
            let (r, fired) = on(other, move || {
                let mut rd = SimReader::new(&b, plan);
                rd.fault_at = Some((at, step));
                let r = catch_unwind(AssertUnwindSafe(|| sut::decode(codec, ty, &mut rd).is_ok()));
                (matches!(r, Ok(true)), rd.fired)
            });
            if fired {
                c.fault(if panics { "panics in the reader" } else { "errors in the reader" });
            }
            if r {
                return viol("error-swallowed", format!("decoding {} succeeds though the reader failed at {}", a.m.short(), at));
            }
            Torn { what: format!("decode {:?} at byte {}", codec, at), retry: Retry::Decode(ck, *a, whole) }
        }
        _ => {
            let kind = c.t.below(3);
            let mut w = SimFmt::new(None);
            let _ = guard("print", || print(kind, a, &mut w))?;
            let whole = w.got;
            let at = c.t.below(whole.len());
            let x = *a;
            let (r, fired) = on(other, move || {
                let mut w = SimFmt::new(Some(at));
                w.panics = panics;
                let r = catch_unwind(AssertUnwindSafe(|| print(kind, &x, &mut w).is_ok()));
                (matches!(r, Ok(true)), w.fired)
            });
            if fired {
                c.fault(if panics { "panics in the formatter" } else { "errors in the formatter" });
            }
            if r && fired {
                return viol("error-swallowed", format!("printing {} succeeds though the sink failed", a.m.short()));
            }
            Torn { what: format!("print {} at byte {}", kind, at), retry: Retry::Print(kind, *a, whole) }
        }
    };
    Ok(t)
}
fn again(c: &mut Ctx, t: &Torn) -> Res {
    c.hit("retries");
    let other = c.t.chance(300);
    match &t.retry {
        Retry::Sample(sp, src, want) => {
            let (s, sp) = (src.clone(), *sp);
            let x = guard("sample", || on(other, || sample(sp, &s)))?;
            let y = guard("sample", || on(!other, || sample(sp, src)))?;
            let z = want.as_ref().unwrap_or(&x);
            if x != y || x != *z {
                return viol("retry", format!("{:?} from {:?} after an interruption ({}): {:x?} / {:x?} / before {:x?}", sp, src, t.what, x, y, want));
            }
            if let Sampler::Std(ty) = sp {
                if let Ok(m) = RVal::from_leaves(ty, &x) {
                    if m.member() {
                        return Ok(());
                    }
                }
                return viol("retry", format!("{:?} from {:?} after an interruption is not a member", sp, src));
            }
        }
        Retry::Encode(ck, a, whole) => {
            let (k, v) = (sut::CODECS[*ck], a.v);
            let b = guard("encode", || on(other, || sut::enc(k, &v)))?;
            if b != *whole {
                return viol("retry", format!("{:?} encoding of {} after an interruption ({}): {:02x?}, before {:02x?}", k, a.m.short(), t.what, b, whole));
            }
        }
        Retry::Decode(ck, a, whole) => {
            let k = sut::CODECS[*ck];
            match guard("decode", || on(other, || sut::dec(k, a.ty(), whole)))? {
                Ok(v) => {
                    check("value decoded after an interruption", Tv { v, ..*a })?;
                }
                Err(e) => return viol("retry", format!("{:?} decoding of {} after an interruption ({}) fails: {}", k, a.m.short(), t.what, e)),
            }
        }
        Retry::Print(kind, a, whole) => {
            let x = *a;
            let s = guard("print", || on(other, || {
                let mut w = SimFmt::new(None);
                let _ = print(*kind, &x, &mut w);
                w.got
            }))?;
            if s != *whole {
                return viol("retry", format!("printing {} after an interruption ({}): {:?}, before {:?}", a.m.short(), t.what, s, whole));
            }
        }
    }
    Ok(())
}
/// Ordinary work whose results the model knows.
fn ordinary(c: &mut Ctx, bank: &mut Vec<Tv>, budget: &mut i64) -> Res {
    c.hit("ordinary calls");
    let a = bank[c.t.below(bank.len())];
    let ty = a.ty();
    *budget -= [20, 900, 4000, 6000][ty as usize];
    match c.t.below(10) {
        8 | 9 => {
            // what is not a member is still refused
            *budget -= 1000;
            super::c04::one(c, 0, &mut vec![])?;
        }
        0 => {
            let s = scalar_of(c)?;
            if ty != Ty::Gt || *budget > 20_000 {
                bank.push(act(&a, &s)?);
            }
        }
        1 => {
            equal("values", &a, &bank[c.t.below(bank.len())].clone().of(ty).unwrap_or(a))?;
            zero_answer(&a)?;
        }
        2 => {
            let v = a.v;
            let b = guard("export", || on(true, || sut::into_bytes(&v)))?;
            let l = guard("encode", || sut::leaves(&v))?;
            if b != ref_export(&l) {
                return viol("exports", format!("{} exports {:02x?}", a.m.short(), b));
            }
        }
        3 => {
            let s = scalar_of(c)?;
            let t = s.sc().to_dec();
            match guard("from_str", || sut::fr_from_str(&t))? {
                Some(f) => expect_val("wrong-value", "parsed scalar", &Val::Fr(f), &s.m)?,
                None => return viol("wrong-value", format!("{} refused", t)),
            }
        }
        4 => {
            let src = any_source(&mut c.t);
            let v = guard("sample", || sut::sample(Sampler::Std(Ty::Fr), &mut SimRng::new(src)))?;
            if let Sampled::V(v) = v {
                observe(&v)?;
            }
        }
        5 if ty == Ty::G1 && *budget > 30_000 => {
            *budget -= 15_000;
            let q = base(Ty::G2)?;
            pair(&a, &q)?;
        }
        _ => {
            let x = step(c, &a)?;
            bank.push(x);
        }
    }
    Ok(())
}
trait Of: Sized {
    fn of(self, t: Ty) -> Option<Self>;
}
impl Of for Tv {
    fn of(self, t: Ty) -> Option<Tv> {
        if self.ty() == t {
            Some(self)
        } else {
            None
        }
    }
}
fn scalar_of(c: &mut Ctx) -> Res<Tv> {
    let s = gen_sc(&mut c.t);
    scalar(c, &s)
}

pub fn run(c: &mut Ctx) -> Res {
    let mut bank: Vec<Tv> = vec![];
    let nb = 2 + c.t.below(4);
    let heavy = c.t.chance(200);
    for _ in 0..nb {
        let ty = sut::TYS[c.t.weighted(&[5, 4, if heavy { 2 } else { 0 }, if heavy { 2 } else { 0 }])];
        bank.push(fresh(c, ty)?);
    }
    let n = 3 + c.t.below(if c.thorough { 60 } else { 20 });
    let mut budget: i64 = if c.thorough { 300_000 } else { 60_000 };
    let mut torn: Vec<Torn> = vec![];
    for k in 0..n {
        if budget < 0 {
            break;
        }
        let s = c.t.open();
        match c.t.weighted(&[4, 3, 3]) {
            0 => {
                let a = bank[c.t.below(bank.len())];
                let (before, m) = (guard("encode", || sut::leaves(&a.v))?, a.m);
                let kind = c.t.below(4);
                // the same kind of call may fail many times in a row
                let times = if c.t.chance(80) { 2 + c.t.below(60) } else { 1 };
                let mut t = tear(c, &a, kind)?;
                for _ in 1..times {
                    if budget > 0 {
                        t = tear(c, &a, kind)?;
                        budget -= [300, 300, 1000, 300][kind];
                    }
                }
                ev!(c, "{} interrupted {} times, last: {}", k, times, t.what);
                budget -= 1500;
                if guard("encode", || sut::leaves(&a.v))? != before {
                    return viol("value-changed", format!("{} is different after an interrupted call", m.short()));
                }
                torn.push(t);
            }
            1 => {
                ordinary(c, &mut bank, &mut budget)?;
                ev!(c, "{} ordinary call", k);
            }
            _ => {
                if !torn.is_empty() {
                    let j = torn.len() - 1 - c.t.below(torn.len());
                    budget -= 2000;
                    again(c, &torn[j])?;
                    ev!(c, "{} retried: {}", k, torn[j].what);
                }
            }
        }
        c.t.close(s);
        c.now += 10;
    }
    // whatever was interrupted, everything known still holds
    for t in &torn {
        if budget > -40_000 {
            budget -= 2000;
            again(c, t)?;
        }
    }
    for a in &bank {
        check("value at the end", *a)?;
    }
    Ok(())
}
