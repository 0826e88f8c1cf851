//! Every call the harness makes into rabe-bn, instantiated with concrete types, so that the crate's generic
//! code is compiled (and instrumented) here and nowhere else.
extern crate rabe_bn;
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing as pair, Fr, Group, Gt, G1, G2};
use rand::distributions::{Distribution, Standard};
use rand::RngCore;
use std::fmt;
use std::io::{Read, Write};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Fr,
    G1,
    G2,
    Gt,
}
pub const TYS: [Ty; 4] = [Ty::Fr, Ty::G1, Ty::G2, Ty::Gt];
impl Ty {
    pub fn nleaves(self) -> usize {
        match self {
            Ty::Fr => 4,
            Ty::G1 => 12,
            Ty::G2 => 24,
            Ty::Gt => 48,
        }
    }
}

#[derive(Copy, Clone)]
pub enum Val {
    Fr(Fr),
    G1(G1),
    G2(G2),
    Gt(Gt),
}
impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::Fr(_) => Ty::Fr,
            Val::G1(_) => Ty::G1,
            Val::G2(_) => Ty::G2,
            Val::Gt(_) => Ty::Gt,
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Codec {
    Json,
    Bin,
    Borsh,
}
#[cfg(feature = "serde")]
pub const CODECS: &[Codec] = &[Codec::Bin, Codec::Json];
#[cfg(feature = "borsh")]
pub const CODECS: &[Codec] = &[Codec::Borsh];
pub const BINARY: Codec = CODECS[0];
pub const BUILD: &str = if cfg!(feature = "borsh") { "borsh" } else { "serde" };

#[cfg(feature = "serde")]
#[inline(never)]
pub fn encode(c: Codec, v: &Val, w: &mut dyn Write) -> Result<(), String> {
    fn go<T: serde::Serialize>(c: Codec, v: &T, w: &mut dyn Write) -> Result<(), String> {
        match c {
            Codec::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
            _ => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        }
    }
    match v {
        Val::Fr(x) => go(c, x, w),
        Val::G1(x) => go(c, x, w),
        Val::G2(x) => go(c, x, w),
        Val::Gt(x) => go(c, x, w),
    }
}
#[cfg(feature = "serde")]
#[inline(never)]
pub fn decode(c: Codec, t: Ty, r: &mut dyn Read) -> Result<Val, String> {
    fn go<T: serde::de::DeserializeOwned>(c: Codec, r: &mut dyn Read) -> Result<T, String> {
        match c {
            Codec::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
            _ => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        }
    }
    Ok(match t {
        Ty::Fr => Val::Fr(go(c, r)?),
        Ty::G1 => Val::G1(go(c, r)?),
        Ty::G2 => Val::G2(go(c, r)?),
        Ty::Gt => Val::Gt(go(c, r)?),
    })
}
#[cfg(feature = "borsh")]
#[inline(never)]
pub fn encode(_c: Codec, v: &Val, w: &mut dyn Write) -> Result<(), String> {
    use borsh::BorshSerialize;
    fn go<T: BorshSerialize>(v: &T, mut w: &mut dyn Write) -> Result<(), String> {
        v.serialize(&mut w).map_err(|e| e.to_string())
    }
    match v {
        Val::Fr(x) => go(x, w),
        Val::G1(x) => go(x, w),
        Val::G2(x) => go(x, w),
        Val::Gt(x) => go(x, w),
    }
}
#[cfg(feature = "borsh")]
#[inline(never)]
pub fn decode(_c: Codec, t: Ty, r: &mut dyn Read) -> Result<Val, String> {
    use borsh::BorshDeserialize;
    fn go<T: BorshDeserialize>(mut r: &mut dyn Read) -> Result<T, String> {
        T::deserialize_reader(&mut r).map_err(|e| e.to_string())
    }
    Ok(match t {
        Ty::Fr => Val::Fr(go(r)?),
        Ty::G1 => Val::G1(go(r)?),
        Ty::G2 => Val::G2(go(r)?),
        Ty::Gt => Val::Gt(go(r)?),
    })
}

pub fn enc(c: Codec, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    encode(c, v, &mut o).expect("encoding into memory failed");
    o
}
pub fn dec(c: Codec, t: Ty, b: &[u8]) -> Result<Val, String> {
    let mut r = b;
    decode(c, t, &mut r)
}
/// The coordinates as encoded: little-endian 64-bit limbs of every base-field element in order.
pub fn leaves(v: &Val) -> Vec<u64> {
    enc(BINARY, v).chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or([0; 8]))).collect()
}
pub fn from_leaves(t: Ty, l: &[u64]) -> Result<Val, String> {
    let b: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
    dec(BINARY, t, &b)
}

pub fn zero(t: Ty) -> Val {
    match t {
        Ty::Fr => Val::Fr(Fr::zero()),
        Ty::G1 => Val::G1(G1::zero()),
        Ty::G2 => Val::G2(G2::zero()),
        Ty::Gt => Val::Gt(Gt::one()),
    }
}
/// Generator (for Gt: the pairing of the generators).
pub fn base(t: Ty) -> Val {
    match t {
        Ty::Fr => Val::Fr(Fr::one()),
        Ty::G1 => Val::G1(G1::one()),
        Ty::G2 => Val::G2(G2::one()),
        Ty::Gt => Val::Gt(pair(G1::one(), G2::one())),
    }
}
/// Group operation (multiplication in Gt).
#[inline(never)]
pub fn add(a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Fr(x), Val::Fr(y)) => Val::Fr(*x + *y),
        (Val::G1(x), Val::G1(y)) => Val::G1(*x + *y),
        (Val::G2(x), Val::G2(y)) => Val::G2(*x + *y),
        (Val::Gt(x), Val::Gt(y)) => Val::Gt(*x * *y),
        _ => panic!("harness: type mismatch"),
    }
}
#[inline(never)]
pub fn sub(a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Fr(x), Val::Fr(y)) => Val::Fr(*x - *y),
        (Val::G1(x), Val::G1(y)) => Val::G1(*x - *y),
        (Val::G2(x), Val::G2(y)) => Val::G2(*x - *y),
        (Val::Gt(x), Val::Gt(y)) => Val::Gt(*x * y.inverse()),
        _ => panic!("harness: type mismatch"),
    }
}
#[inline(never)]
pub fn neg(a: &Val) -> Val {
    match a {
        Val::Fr(x) => Val::Fr(-*x),
        Val::G1(x) => Val::G1(-*x),
        Val::G2(x) => Val::G2(-*x),
        Val::Gt(x) => Val::Gt(x.inverse()),
    }
}
/// Scalar action (multiplication in Fr, exponentiation in Gt).
#[inline(never)]
pub fn act(a: &Val, k: Fr) -> Val {
    match a {
        Val::Fr(x) => Val::Fr(*x * k),
        Val::G1(x) => Val::G1(*x * k),
        Val::G2(x) => Val::G2(*x * k),
        Val::Gt(x) => Val::Gt(x.pow(k)),
    }
}
#[inline(never)]
pub fn fr_pow(a: Fr, k: Fr) -> Fr {
    a.pow(k)
}
#[inline(never)]
pub fn fr_inv(a: Fr) -> Option<Fr> {
    a.inverse()
}
#[inline(never)]
pub fn pairing(a: G1, b: G2) -> Gt {
    pair(a, b)
}
#[inline(never)]
pub fn eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Fr(x), Val::Fr(y)) => x == y,
        (Val::G1(x), Val::G1(y)) => x == y,
        (Val::G2(x), Val::G2(y)) => x == y,
        (Val::Gt(x), Val::Gt(y)) => x == y,
        _ => panic!("harness: type mismatch"),
    }
}
#[inline(never)]
pub fn ne(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Fr(x), Val::Fr(y)) => x != y,
        (Val::G1(x), Val::G1(y)) => x != y,
        (Val::G2(x), Val::G2(y)) => x != y,
        (Val::Gt(x), Val::Gt(y)) => x != y,
        _ => panic!("harness: type mismatch"),
    }
}
#[inline(never)]
pub fn is_zero(a: &Val) -> bool {
    match a {
        Val::Fr(x) => x.is_zero(),
        Val::G1(x) => x.is_zero(),
        Val::G2(x) => x.is_zero(),
        Val::Gt(x) => *x == Gt::one(),
    }
}
/// In place; only points have a normal form of their own.
#[inline(never)]
pub fn normalize(a: &mut Val) {
    match a {
        Val::G1(x) => x.normalize(),
        Val::G2(x) => x.normalize(),
        _ => (),
    }
}
#[inline(never)]
/// Through the types' own Clone, which a Copy type's Clone need not agree with.
#[allow(clippy::clone_on_copy)]
pub fn cloned(a: &Val) -> Val {
    match a {
        Val::Fr(x) => Val::Fr(x.clone()),
        Val::G1(x) => Val::G1(x.clone()),
        Val::G2(x) => Val::G2(x.clone()),
        Val::Gt(x) => Val::Gt(x.clone()),
    }
}
pub fn into_bytes(a: &Val) -> Vec<u8> {
    match a {
        Val::Fr(x) => x.into_bytes(),
        Val::G1(x) => x.into_bytes(),
        Val::G2(x) => x.into_bytes(),
        Val::Gt(x) => x.into_bytes(),
    }
}
/// Vec::from where it exists (not for G2).
pub fn vec_from(a: &Val) -> Vec<u8> {
    match a {
        Val::Fr(x) => Vec::from(*x),
        Val::G1(x) => Vec::from(*x),
        Val::G2(x) => x.into_bytes(),
        Val::Gt(x) => Vec::from(*x),
    }
}
/// Display where it exists (G2: Debug).
#[inline(never)]
pub fn display(a: &Val, w: &mut dyn fmt::Write) -> fmt::Result {
    match a {
        Val::Fr(x) => write!(w, "{}", x),
        Val::G1(x) => write!(w, "{}", x),
        Val::G2(x) => write!(w, "{:?}", x),
        Val::Gt(x) => write!(w, "{}", x),
    }
}
#[inline(never)]
pub fn debug(a: &Val, w: &mut dyn fmt::Write) -> fmt::Result {
    match a {
        Val::Fr(x) => write!(w, "{:?}", x),
        Val::G1(x) => write!(w, "{:?}", x),
        Val::G2(x) => write!(w, "{:?}", x),
        Val::Gt(x) => write!(w, "{:?}", x),
    }
}
#[inline(never)]
pub fn debug_alt(a: &Val, w: &mut dyn fmt::Write) -> fmt::Result {
    match a {
        Val::Fr(x) => write!(w, "{:#?}", x),
        Val::G1(x) => write!(w, "{:#?}", x),
        Val::G2(x) => write!(w, "{:#?}", x),
        Val::Gt(x) => write!(w, "{:#?}", x),
    }
}
/// Through the io side of formatting.
#[inline(never)]
pub fn display_io(a: &Val, w: &mut dyn Write) -> std::io::Result<()> {
    match a {
        Val::Fr(x) => write!(w, "{}", x),
        Val::G1(x) => write!(w, "{}", x),
        Val::G2(x) => write!(w, "{:?}", x),
        Val::Gt(x) => write!(w, "{}", x),
    }
}
pub fn u256_display(l: [u64; 4], w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{}", U256(l))
}
pub fn u512_display(l: [u64; 8], w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{}", U512(l))
}

pub fn text(a: &Val) -> String {
    let mut s = String::new();
    display(a, &mut s).expect("formatting into memory failed");
    s
}

#[inline(never)]
pub fn fr_interpret(b: &[u8; 64]) -> Fr {
    Fr::interpret(b)
}
#[inline(never)]
pub fn fr_from_slice(b: &[u8]) -> Option<Fr> {
    Fr::from_slice(b).ok()
}
#[inline(never)]
pub fn fr_from_str(s: &str) -> Option<Fr> {
    Fr::from_str(s)
}
pub fn fr_from_u256(l: [u64; 4]) -> Fr {
    Fr::new_mul_factor(U256(l))
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Sampler {
    Std(Ty),
    GroupRandomG1,
    GroupRandomG2,
    U256ModR,
    U256ModQ,
    U512,
}
pub const R_LIMBS: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub const Q_LIMBS: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
#[derive(Clone)]
pub enum Sampled {
    V(Val),
    L(Vec<u64>),
}
impl Sampled {
    pub fn key(&self) -> Vec<u64> {
        match self {
            Sampled::V(v) => leaves(v),
            Sampled::L(l) => l.clone(),
        }
    }
}
#[inline(never)]
pub fn sample(s: Sampler, mut rng: &mut dyn RngCore) -> Sampled {
    match s {
        Sampler::Std(Ty::Fr) => Sampled::V(Val::Fr(Standard.sample(&mut rng))),
        Sampler::Std(Ty::G1) => Sampled::V(Val::G1(Standard.sample(&mut rng))),
        Sampler::Std(Ty::G2) => Sampled::V(Val::G2(Standard.sample(&mut rng))),
        Sampler::Std(Ty::Gt) => Sampled::V(Val::Gt(Standard.sample(&mut rng))),
        Sampler::GroupRandomG1 => Sampled::V(Val::G1(G1::random(&mut rng))),
        Sampler::GroupRandomG2 => Sampled::V(Val::G2(G2::random(&mut rng))),
        Sampler::U256ModR => Sampled::L(U256::random(&mut rng, &U256(R_LIMBS)).0.to_vec()),
        Sampler::U256ModQ => Sampled::L(U256::random(&mut rng, &U256(Q_LIMBS)).0.to_vec()),
        Sampler::U512 => Sampled::L(U512::random(&mut rng).0.to_vec()),
    }
}
/// What the library makes of a source that is broken may not depend on unwinding support in callers.
pub fn assert_send_sync() {
    fn f<T: Send + Sync + Copy + 'static>() {}
    f::<Fr>();
    f::<G1>();
    f::<G2>();
    f::<Gt>();
}

// ---- wide integers (the public `arith` module) ----------------------------------------------------------------
pub type A4 = [u64; 4];
pub type A8 = [u64; 8];
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Wide {
    A(A4),
    B(A8),
}
#[cfg(feature = "serde")]
#[inline(never)]
pub fn wide_encode(c: Codec, v: &Wide, w: &mut dyn Write) -> Result<(), String> {
    fn go<T: serde::Serialize>(c: Codec, v: &T, w: &mut dyn Write) -> Result<(), String> {
        match c {
            Codec::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
            _ => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        }
    }
    match v {
        Wide::A(x) => go(c, &U256(*x), w),
        Wide::B(x) => go(c, &U512(*x), w),
    }
}
#[cfg(feature = "serde")]
#[inline(never)]
pub fn wide_decode(c: Codec, big: bool, r: &mut dyn Read) -> Result<Wide, String> {
    fn go<T: serde::de::DeserializeOwned>(c: Codec, r: &mut dyn Read) -> Result<T, String> {
        match c {
            Codec::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
            _ => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        }
    }
    Ok(if big { Wide::B(go::<U512>(c, r)?.0) } else { Wide::A(go::<U256>(c, r)?.0) })
}
#[cfg(feature = "borsh")]
#[inline(never)]
pub fn wide_encode(_c: Codec, v: &Wide, mut w: &mut dyn Write) -> Result<(), String> {
    use borsh::BorshSerialize;
    match v {
        Wide::A(x) => U256(*x).serialize(&mut w).map_err(|e| e.to_string()),
        Wide::B(x) => U512(*x).serialize(&mut w).map_err(|e| e.to_string()),
    }
}
#[cfg(feature = "borsh")]
#[inline(never)]
pub fn wide_decode(_c: Codec, big: bool, mut r: &mut dyn Read) -> Result<Wide, String> {
    use borsh::BorshDeserialize;
    Ok(if big {
        Wide::B(U512::deserialize_reader(&mut r).map_err(|e| e.to_string())?.0)
    } else {
        Wide::A(U256::deserialize_reader(&mut r).map_err(|e| e.to_string())?.0)
    })
}
pub fn wide_debug(v: &Wide) -> String {
    match v {
        Wide::A(x) => format!("{:?}", U256(*x)),
        Wide::B(x) => format!("{:?}", U512(*x)),
    }
}
pub fn wide_eq(a: &Wide, b: &Wide) -> bool {
    match (a, b) {
        (Wide::A(x), Wide::A(y)) => U256(*x) == U256(*y),
        (Wide::B(x), Wide::B(y)) => U512(*x) == U512(*y),
        _ => false,
    }
}
#[inline(never)]
pub fn wide_add(mut a: U256, b: U256, m: U256) -> A4 {
    a.add(&b, &m);
    a.0
}
#[inline(never)]
pub fn wide_sub(mut a: U256, b: U256, m: U256) -> A4 {
    a.sub(&b, &m);
    a.0
}
#[inline(never)]
pub fn wide_neg(mut a: U256, m: U256) -> A4 {
    a.neg(&m);
    a.0
}
#[inline(never)]
pub fn wide_mul(mut a: U256, b: U256, m: U256, inv: u64) -> A4 {
    a.mul(&b, &m, inv);
    a.0
}
#[inline(never)]
pub fn wide_invert(mut a: U256, m: U256) -> A4 {
    a.invert(&m);
    a.0
}
#[inline(never)]
pub fn wide_set_bit(mut a: U256, n: usize, to: bool) -> (A4, bool) {
    let ok = a.set_bit(n, to);
    (a.0, ok)
}
#[inline(never)]
pub fn wide_bits(a: U256) -> Vec<bool> {
    a.bits().collect()
}
#[inline(never)]
pub fn wide_cmp(a: U256, b: U256) -> (std::cmp::Ordering, Option<std::cmp::Ordering>) {
    (a.cmp(&b), a.partial_cmp(&b))
}
#[inline(never)]
pub fn wide_random(m: U256, mut rng: &mut dyn RngCore) -> A4 {
    U256::random(&mut rng, &m).0
}
#[inline(never)]
pub fn wide_random_big(mut rng: &mut dyn RngCore) -> A8 {
    U512::random(&mut rng).0
}
#[inline(never)]
pub fn wide_divrem(a: A8, m: U256) -> (Option<A4>, A4) {
    let (q, r) = U512(a).divrem(&m);
    (q.map(|x| x.0), r.0)
}
#[inline(never)]
pub fn wide_compose(hi: U256, lo: U256, m: U256) -> A8 {
    U512::from(&hi, &lo, &m).0
}
#[inline(never)]
pub fn wide_interpret(b: &[u8; 64]) -> A8 {
    U512::interpret(b).0
}
#[inline(never)]
pub fn wide_collect(w: Vec<u64>) -> A8 {
    w.into_iter().collect::<U512>().0
}
#[inline(never)]
pub fn wide_from_slice(b: &[u8]) -> Option<A4> {
    U256::from_slice(b).ok().map(|x| x.0)
}
pub use rabe_bn::arith::{U256 as W256, U512 as W512};
