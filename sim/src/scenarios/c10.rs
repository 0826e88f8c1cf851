//! Sinks and sources that fail at a chosen byte: the failure must be reported and nothing else may change.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Ty};

pub fn print(kind: usize, v: &Tv, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    match kind {
        0 => sut::display(&v.v, w),
        1 => sut::debug(&v.v, w),
        _ => sut::debug_alt(&v.v, w),
    }
}
fn fault_step(c: &mut Ctx) -> Step {
    match c.t.weighted(&[6, 2]) {
        0 => Step::Fail(any_kind(&mut c.t)),
        _ => Step::Zero,
    }
}
/// Where to fail: a few positions of each kind, or every one.
fn positions(c: &mut Ctx, len: usize) -> Vec<usize> {
    let s = c.t.open();
    let p = match c.t.below(4) {
        0 => vec![c.t.below(len + 1)],
        1 => vec![0, len - 1],
        2 => (0..8).map(|_| c.t.below(len + 2)).collect(),
        _ => {
            // a run of neighbours
            let a = c.t.below(len);
            (a..(a + 12).min(len + 1)).collect()
        }
    };
    c.t.close(s);
    p
}
fn write_faults(c: &mut Ctx, codec: Codec, v: &Tv, whole: &[u8]) -> Res {
    for at in positions(c, whole.len()) {
        let mut w = SimWriter::new(ragged_plan(&mut c.t));
        let step = fault_step(c);
        w.fault_at = Some((at, step));
        w.once = c.t.chance(400);
        let r = guard("encode", || sut::encode(codec, &v.v, &mut w))?;
        judge_write(c, "encode", r.is_ok(), w.fired, &w.got, whole, at, v)?;
    }
    Ok(())
}
fn judge_write(c: &mut Ctx, what: &str, ok: bool, fired: bool, got: &[u8], whole: &[u8], at: usize, v: &Tv) -> Res {
    if fired {
        c.fault("failing sinks");
    }
    if ok && fired {
        return viol("error-swallowed", format!("{} of {} reports success though the sink failed at byte {}", what, v.m.short(), at));
    }
    if ok && got != whole {
        return viol("incomplete", format!("{} of {} reports success; the sink has {} of {} bytes: {:02x?}", what, v.m.short(), got.len(), whole.len(), got));
    }
    if !ok && !fired {
        return viol("spurious-error", format!("{} of {} fails on a sink that did not (fault was due at byte {})", what, v.m.short(), at));
    }
    if !ok && !whole.starts_with(got) {
        return viol("not-a-prefix", format!("{} of {} failed at byte {}; the sink received {:02x?}, not a prefix of {:02x?}", what, v.m.short(), at, got, whole));
    }
    Ok(())
}
fn read_faults(c: &mut Ctx, codec: Codec, v: &Tv, whole: &[u8]) -> Res {
    for at in positions(c, whole.len()) {
        let mut r = SimReader::new(whole, ragged_plan(&mut c.t));
        let step = fault_step(c);
        r.fault_at = Some((at, step));
        let x = guard("decode", || sut::decode(codec, v.ty(), &mut r))?;
        if r.fired {
            c.fault("failing sources");
        }
        // text is complete only at the end of the source; binary encodings end by themselves
        match x {
            Ok(y) => {
                if at < whole.len() {
                    return viol("error-swallowed", format!("decoding {} reports success though the source failed at byte {} of {}", v.m.short(), at, whole.len()));
                }
                if r.fired && matches!(step, Step::Fail(_)) {
                    return viol("error-swallowed", format!("decoding {} reports success though the source failed at its end", v.m.short()));
                }
                check("decoded value", Tv { v: y, ..*v })?;
            }
            Err(e) => {
                if !r.fired {
                    return viol("spurious-error", format!("decoding {} fails on a healthy source: {}", v.m.short(), e));
                }
                if at >= whole.len() && step == Step::Zero {
                    return viol("spurious-error", format!("decoding {} fails at the regular end of the source: {}", v.m.short(), e));
                }
            }
        }
    }
    Ok(())
}
fn print_faults(c: &mut Ctx, v: &Tv) -> Res {
    let kind = c.t.below(3);
    let mut whole = SimFmt::new(None);
    if guard("print", || print(kind, v, &mut whole))?.is_err() {
        return viol("spurious-error", format!("printing {} into memory fails", v.m.short()));
    }
    let whole = whole.got;
    for at in positions(c, whole.len()) {
        let mut w = SimFmt::new(Some(at));
        w.once = c.t.chance(400);
        let r = guard("print", || print(kind, v, &mut w))?;
        judge_write(c, "print", r.is_ok(), w.fired, w.got.as_bytes(), whole.as_bytes(), at, v)?;
    }
    if kind == 0 {
        // through an io sink
        for at in positions(c, whole.len()) {
            let mut w = SimWriter::new(ragged_plan(&mut c.t));
            w.fault_at = Some((at, fault_step(c)));
            w.once = c.t.chance(400);
            let r = guard("print", || sut::display_io(&v.v, &mut w))?;
            judge_write(c, "print to a stream", r.is_ok(), w.fired, &w.got, whole.as_bytes(), at, v)?;
        }
    }
    Ok(())
}
/// The public integer types print too.
fn print_integers(c: &mut Ctx) -> Res {
    let l: Vec<u64> = (0..8).map(|_| c.t.bits() >> c.t.below(64)).collect();
    let wide = c.t.chance(500);
    let p = |w: &mut dyn std::fmt::Write| {
        if wide {
            sut::u512_display([l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]], w)
        } else {
            sut::u256_display([l[0], l[1], l[2], l[3]], w)
        }
    };
    let mut whole = SimFmt::new(None);
    if guard("print", || p(&mut whole))?.is_err() {
        return viol("spurious-error", "printing an integer into memory fails");
    }
    // every word, lowest first
    let want: String = format!("{:?}", l[..if wide { 8 } else { 4 }].iter().map(|x| format!("{:#X}", x)).collect::<String>());
    if whole.got != want {
        return viol("incomplete-print", format!("{:x?} prints as {}", l, whole.got));
    }
    let dummy = Tv { v: sut::zero(Ty::Fr), m: RVal::zero(Ty::Fr), k: None };
    for at in positions(c, whole.got.len()) {
        let mut w = SimFmt::new(Some(at));
        w.once = c.t.chance(400);
        let r = guard("print", || p(&mut w))?;
        judge_write(c, "print of an integer", r.is_ok(), w.fired, w.got.as_bytes(), whole.got.as_bytes(), at, &dummy)?;
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 2 + c.t.below(if c.thorough { 40 } else { 12 });
    for k in 0..n {
        let s = c.t.open();
        let ty = sut::TYS[c.t.weighted(&[5, 5, 2, 2])];
        let v = if ty == Ty::Fr || ty == Ty::G1 { lived(c, ty)? } else { fresh(c, ty)? };
        let codec = c.t.pick(sut::CODECS);
        let whole = guard("encode", || sut::enc(codec, &v.v))?;
        let before = exported(&v.v)?;
        let what = c.t.weighted(&[5, 4, 5, 1]);
        ev!(c, "{} {} {:?}", k, ["write", "read", "print", "print integers"][what], v.m.short());
        match what {
            0 => write_faults(c, codec, &v, &whole)?,
            1 => read_faults(c, codec, &v, &whole)?,
            2 => print_faults(c, &v)?,
            _ => print_integers(c)?,
        }
        // the value is unchanged and can be written again
        if exported(&v.v)? != before {
            return viol("value-changed", format!("{} exports differently after a failed call", v.m.short()));
        }
        let mut w = SimWriter::new(ragged_plan(&mut c.t));
        match guard("encode", || sut::encode(codec, &v.v, &mut w))? {
            Ok(()) if w.got == whole => (),
            Ok(()) => return viol("incomplete", format!("writing {} again gives {:02x?} instead of {:02x?}", v.m.short(), w.got, whole)),
            Err(e) => return viol("spurious-error", format!("writing {} again fails: {}", v.m.short(), e)),
        }
        c.t.close(s);
        c.now += 10;
    }
    Ok(())
}
