//! Twin values: a library value together with its model, and the operations on both.
use crate::ctx::*;
use crate::io::*;
use crate::model::*;
use crate::refmath::*;
use simcalls as sut;
use simcalls::{Codec, Ty, Val};

#[derive(Copy, Clone)]
pub struct Tv {
    pub v: Val,
    pub m: RVal,
    /// Discrete logarithm to the base of the type, where it is known (saves model pairings).
    pub k: Option<Sc>,
}
impl Tv {
    pub fn ty(&self) -> Ty {
        self.m.ty()
    }
    pub fn fr(&self) -> rabe_bn::Fr {
        match self.v {
            Val::Fr(x) => x,
            _ => panic!("harness: not a scalar"),
        }
    }
    pub fn sc(&self) -> Sc {
        match self.m {
            RVal::Fr(x) => x,
            _ => panic!("harness: not a scalar"),
        }
    }
}
pub fn k2(a: &Tv, b: &Tv, f: impl Fn(&Sc, &Sc) -> Sc) -> Option<Sc> {
    match (&a.k, &b.k) {
        (Some(x), Some(y)) => Some(f(x, y)),
        _ => None,
    }
}
/// The library's value must be the model's.
pub fn check(what: &str, t: Tv) -> Res<Tv> {
    expect_val("wrong-value", what, &t.v, &t.m)?;
    Ok(t)
}
pub fn zero(ty: Ty) -> Res<Tv> {
    check("identity", Tv { v: guard("zero", || sut::zero(ty))?, m: RVal::zero(ty), k: Some(Sc::zero()) })
}
pub fn base(ty: Ty) -> Res<Tv> {
    check("base", Tv { v: guard("one", || sut::base(ty))?, m: RVal::base(ty), k: Some(Sc::one()) })
}
pub fn scalar(c: &mut Ctx, s: &Sc) -> Res<Tv> {
    let f = make_fr(c, s)?;
    Ok(Tv { v: Val::Fr(f), m: RVal::Fr(*s), k: Some(*s) })
}
pub fn import(c: &mut Ctx, m: RVal, k: Option<Sc>) -> Res<Tv> {
    Ok(Tv { v: make_val(c, &m)?, m, k })
}
/// Model element with known logarithm where there is one.
pub fn gen_model(c: &mut Ctx, ty: Ty) -> (RVal, Option<Sc>) {
    let s = c.t.open();
    let foreign = match ty {
        Ty::G1 => c.t.chance(300),
        Ty::G2 => c.t.chance(120),
        _ => false,
    };
    let r = if foreign {
        match ty {
            Ty::G1 => (RVal::G1(foreign_g1(&mut c.t)), None),
            _ => (RVal::G2(foreign_g2(&mut c.t, true)), None),
        }
    } else {
        let k = gen_sc(&mut c.t);
        (RVal::base(ty).act(&k), Some(k))
    };
    c.t.close(s);
    r
}
pub fn fresh(c: &mut Ctx, ty: Ty) -> Res<Tv> {
    if ty == Ty::Fr {
        let s = gen_sc(&mut c.t);
        return scalar(c, &s);
    }
    let (m, k) = gen_model(c, ty);
    import(c, m, k)
}
pub fn add(a: &Tv, b: &Tv) -> Res<Tv> {
    check("sum", Tv { v: guard("add", || sut::add(&a.v, &b.v))?, m: a.m.add(&b.m), k: k2(a, b, |x, y| x.add(y)) })
}
pub fn sub(a: &Tv, b: &Tv) -> Res<Tv> {
    check("difference", Tv { v: guard("sub", || sut::sub(&a.v, &b.v))?, m: a.m.sub(&b.m), k: k2(a, b, |x, y| x.sub(y)) })
}
pub fn neg(a: &Tv) -> Res<Tv> {
    check("negation", Tv { v: guard("neg", || sut::neg(&a.v))?, m: a.m.neg(), k: a.k.map(|x| x.neg()) })
}
pub fn act(a: &Tv, s: &Tv) -> Res<Tv> {
    let k = s.sc();
    check("scalar action", Tv { v: guard("mul", || sut::act(&a.v, s.fr()))?, m: a.m.act(&k), k: a.k.map(|x| x.mul(&k)) })
}
pub fn pair(a: &Tv, b: &Tv) -> Res<Tv> {
    let (p, q, x, y) = match (a.v, b.v, a.m, b.m) {
        (Val::G1(p), Val::G2(q), RVal::G1(x), RVal::G2(y)) => (p, q, x, y),
        _ => panic!("harness: pairing of wrong types"),
    };
    let k = k2(a, b, |x, y| x.mul(y));
    let m = match &k {
        Some(k) => e_gen().pow_sc(k),
        None => pairing(&x, &y),
    };
    check("pairing", Tv { v: Val::Gt(guard("pairing", || sut::pairing(p, q))?), m: RVal::Gt(m), k })
}
pub fn normal(a: &Tv) -> Res<Tv> {
    let mut v = a.v;
    guard("normalize", || sut::normalize(&mut v))?;
    check("normalised value", Tv { v, ..*a })
}
/// Through an encoding and back, on ragged streams.
pub fn recode(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    let codec = c.t.pick(sut::CODECS);
    let mut w = SimWriter::new(ragged_plan(&mut c.t));
    if let Err(e) = guard("encode", || sut::encode(codec, &a.v, &mut w))? {
        return viol("encode-failed", format!("{:?} encoding of {} failed on a healthy writer: {}", codec, a.m.short(), e));
    }
    let b = w.got;
    let mut r = SimReader::new(&b, ragged_plan(&mut c.t));
    match guard("decode", || sut::decode(codec, a.ty(), &mut r))? {
        Ok(v) => check("decoded value", Tv { v, ..*a }),
        Err(e) => viol("decode-failed", format!("{:?} decoding of {} failed: {}", codec, a.m.short(), e)),
    }
}
/// The same element in another representation, as another implementation would hand it over.
pub fn rescale(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    let v = make_val(c, &a.m)?;
    check("rescaled value", Tv { v, ..*a })
}
/// A value in some relation to `a`: what random values practically never are.
pub fn related(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    let kind = c.t.below(8);
    related_by(c, a, kind)
}
pub fn related_by(c: &mut Ctx, a: &Tv, kind: usize) -> Res<Tv> {
    if kind > 5 {
        if a.ty() == Ty::G1 || a.ty() == Ty::G2 {
            return shared_coords(c, a);
        }
        return related_by(c, a, 1);
    }
    let (m, k) = match kind {
        0 => (a.m, a.k),
        1 => (a.m.neg(), a.k.map(|x| x.neg())),
        2 => (a.m.add(&a.m), a.k.map(|x| x.add(&x))),
        3 => (a.m.add(&RVal::base(a.ty())), a.k.map(|x| x.add(&Sc::one()))),
        4 => (a.m.add(&a.m).neg(), a.k.map(|x| x.add(&x).neg())),
        _ => match a.m {
            RVal::Fr(s) => {
                let i = s.inv().unwrap_or(s);
                (RVal::Fr(i), Some(i))
            }
            RVal::G1(p) => match p.affine() {
                // same x up to a cube root of unity: endomorphism image (shares y)
                Some((x, y)) => (RVal::G1(Pt(x.mul(&cube_root()), y, Fq::one())), None),
                None => (a.m, a.k),
            },
            _ => (RVal::base(a.ty()).neg(), Some(Sc::one().neg())),
        },
    };
    if a.ty() == Ty::Fr {
        let s = match m {
            RVal::Fr(s) => s,
            _ => unreachable!(),
        };
        return scalar(c, &s);
    }
    import(c, m, k)
}
/// Another point (or the same one), given by the same coordinates but for one or two of them.
pub fn shared_coords(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    let ty = a.ty();
    let mut l = guard("encode", || sut::leaves(&a.v))?;
    let w = l.len() / 3;
    let times = |l: &mut Vec<u64>, coord: usize, f: Fq| {
        for i in (coord * w..(coord + 1) * w).step_by(4) {
            let x = Fq::from_mont(&[l[i], l[i + 1], l[i + 2], l[i + 3]]).unwrap_or(Fq::zero());
            l[i..i + 4].copy_from_slice(&x.mul(&f).to_mont());
        }
    };
    let minus = Fq::one().neg();
    let k = match c.t.below(6) {
        0 | 1 => {
            times(&mut l, 2, minus);
            a.k.map(|x| x.neg())
        }
        2 => {
            times(&mut l, 1, minus);
            a.k.map(|x| x.neg())
        }
        3 => {
            times(&mut l, 1, minus);
            times(&mut l, 2, minus);
            a.k
        }
        4 => {
            times(&mut l, 0, cube_root());
            None
        }
        _ => {
            times(&mut l, 2, cube_root());
            None
        }
    };
    c.hit("shared coordinates");
    let m = match RVal::from_leaves(ty, &l) {
        Ok(m) => m,
        Err(e) => return viol("harness-coordinates", e),
    };
    let codec = c.t.pick(sut::CODECS);
    match guard("decode", || sut::dec(codec, ty, &ref_encode(codec, ty, &l)))? {
        Ok(v) => check("point with shared coordinates", Tv { v, m, k: if m.is_zero() { Some(Sc::zero()) } else { k } }),
        Err(e) => viol("valid-encoding-refused", format!("{:?} {:?} refused: {} ({:x?})", codec, m.short(), e, l)),
    }
}
fn cube_root() -> Fq {
    // (-1 + sqrt(-3)) / 2
    let s = Fq::from_u64(3).neg().sqrt().expect("sqrt(-3)");
    s.sub(&Fq::one()).mul(&Fq::from_u64(2).inv().unwrap())
}
/// A value with a short history: how it came about must not matter.
pub fn lived(c: &mut Ctx, ty: Ty) -> Res<Tv> {
    let s = c.t.open();
    let mut a = match c.t.weighted(&[3, 1, 8]) {
        0 => base(ty)?,
        1 => zero(ty)?,
        _ => fresh(c, ty)?,
    };
    let n = c.t.below(5);
    for _ in 0..n {
        a = step(c, &a)?;
    }
    c.t.close(s);
    Ok(a)
}
pub fn step(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    let copy = check("copy", Tv { v: guard("clone", || sut::cloned(&a.v))?, ..*a })?;
    let a = &copy;
    let ty = a.ty();
    let w = match ty {
        Ty::Gt => c.t.weighted(&[4, 2, 2, 2, 0, 2, 1, 2, 2]),
        Ty::Fr => c.t.weighted(&[4, 2, 2, 1, 3, 0, 0, 2, 3]),
        _ => c.t.weighted(&[4, 2, 2, 2, 1, 3, 2, 2, 3]),
    };
    Ok(match w {
        0 => {
            let b = fresh(c, ty)?;
            add(a, &b)?
        }
        1 => neg(a)?,
        2 => add(a, a)?,
        3 => recode(c, a)?,
        4 => {
            let s = gen_sc(&mut c.t);
            let s = scalar(c, &s)?;
            act(a, &s)?
        }
        5 => normal(a)?,
        6 => rescale(c, a)?,
        7 => {
            let n = neg(a)?;
            let r = recode(c, &n)?;
            add(a, &r)? // the identity, reached by arithmetic
        }
        _ => {
            let r = related(c, a)?;
            if c.t.chance(500) {
                add(a, &r)?
            } else {
                sub(a, &r)?
            }
        }
    })
}
pub fn equal(what: &str, a: &Tv, b: &Tv) -> Res {
    let want = a.m == b.m;
    let e = guard("eq", || (sut::eq(&a.v, &b.v), sut::eq(&b.v, &a.v), sut::ne(&a.v, &b.v)))?;
    if e != (want, want, !want) {
        return viol("equality", format!("{}: {} and {} compare ==:{}, reversed ==:{}, !=:{}; they are {}", what, a.m.short(), b.m.short(), e.0, e.1, e.2, if want { "equal" } else { "different" }));
    }
    Ok(())
}
pub fn zero_answer(a: &Tv) -> Res {
    let z = guard("is_zero", || sut::is_zero(&a.v))?;
    if z != a.m.is_zero() {
        return viol("is-zero", format!("is_zero({}) = {}", a.m.short(), z));
    }
    Ok(())
}
/// Encodings of two values known to be the same representation-free element (Fr, Gt) or normalised points.
pub fn exported(a: &Val) -> Res<(Vec<u8>, Vec<u8>, String)> {
    guard("export", || (sut::enc(sut::BINARY, a), sut::into_bytes(a), sut::text(a)))
}

/// For the wire: encoded by the library, now and then through an irregular stream.
pub fn pack(c: &mut Ctx, t: &Tv) -> Res<(Codec, Vec<u8>)> {
    let codec = c.t.pick(sut::CODECS);
    let mut w = SimWriter::new(if c.t.chance(100) { ragged_plan(&mut c.t) } else { vec![] });
    match guard("encode", || sut::encode(codec, &t.v, &mut w))? {
        Ok(()) => Ok((codec, w.got)),
        Err(e) => viol("encode-failed", format!("{} on a healthy sink: {}", t.m.short(), e)),
    }
}
/// From the wire: must be what was sent.
pub fn unpack(c: &mut Ctx, codec: Codec, b: &[u8], like: &RVal) -> Res<Val> {
    let mut r = SimReader::new(b, if c.t.chance(100) { ragged_plan(&mut c.t) } else { vec![] });
    match guard("decode", || sut::decode(codec, like.ty(), &mut r))? {
        Ok(v) => {
            expect_val("decoded-value", "received", &v, like)?;
            Ok(v)
        }
        Err(e) => viol("decode-failed", format!("{} refused: {}", like.short(), e)),
    }
}
