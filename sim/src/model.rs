//! Model values, their encodings, and generators of values with a known model.
use crate::ctx::*;
use crate::refmath::*;
use crate::tape::Tape;
use simcalls as sut;
use simcalls::{Codec, Ty, Val};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum RVal {
    Fr(Sc),
    G1(P1),
    G2(P2),
    Gt(F12),
}
fn l4(l: &[u64]) -> L4 {
    [l[0], l[1], l[2], l[3]]
}
fn fq(l: &[u64]) -> Result<Fq, String> {
    Fq::from_mont(&l4(l)).ok_or_else(|| "coordinate not below the field modulus".to_string())
}
fn fq2(l: &[u64]) -> Result<Fq2, String> {
    Ok(Fq2(fq(&l[0..4])?, fq(&l[4..8])?))
}
impl RVal {
    pub fn ty(&self) -> Ty {
        match self {
            RVal::Fr(_) => Ty::Fr,
            RVal::G1(_) => Ty::G1,
            RVal::G2(_) => Ty::G2,
            RVal::Gt(_) => Ty::Gt,
        }
    }
    pub fn zero(t: Ty) -> RVal {
        match t {
            Ty::Fr => RVal::Fr(Sc::zero()),
            Ty::G1 => RVal::G1(P1::zero()),
            Ty::G2 => RVal::G2(P2::zero()),
            Ty::Gt => RVal::Gt(F12::one()),
        }
    }
    pub fn base(t: Ty) -> RVal {
        match t {
            Ty::Fr => RVal::Fr(Sc::one()),
            Ty::G1 => RVal::G1(P1::gen()),
            Ty::G2 => RVal::G2(P2::gen()),
            Ty::Gt => RVal::Gt(e_gen()),
        }
    }
    pub fn add(&self, o: &RVal) -> RVal {
        match (self, o) {
            (RVal::Fr(a), RVal::Fr(b)) => RVal::Fr(a.add(b)),
            (RVal::G1(a), RVal::G1(b)) => RVal::G1(a.add(b)),
            (RVal::G2(a), RVal::G2(b)) => RVal::G2(a.add(b)),
            (RVal::Gt(a), RVal::Gt(b)) => RVal::Gt(a.mul(b)),
            _ => panic!("harness: model type mismatch"),
        }
    }
    pub fn neg(&self) -> RVal {
        match self {
            RVal::Fr(a) => RVal::Fr(a.neg()),
            RVal::G1(a) => RVal::G1(a.neg()),
            RVal::G2(a) => RVal::G2(a.neg()),
            RVal::Gt(a) => RVal::Gt(a.inv().expect("harness: inverse of a non-member")),
        }
    }
    pub fn sub(&self, o: &RVal) -> RVal {
        self.add(&o.neg())
    }
    pub fn act(&self, k: &Sc) -> RVal {
        match self {
            RVal::Fr(a) => RVal::Fr(a.mul(k)),
            RVal::G1(a) => RVal::G1(a.mul(k)),
            RVal::G2(a) => RVal::G2(a.mul(k)),
            RVal::Gt(a) => RVal::Gt(a.pow_sc(k)),
        }
    }
    pub fn is_zero(&self) -> bool {
        *self == RVal::zero(self.ty())
    }
    /// Reads encoded coordinates; refuses coordinates out of range, nothing else.
    pub fn from_leaves(t: Ty, l: &[u64]) -> Result<RVal, String> {
        if l.len() != t.nleaves() {
            return Err(format!("{:?} has {} limbs", t, l.len()));
        }
        Ok(match t {
            Ty::Fr => RVal::Fr(Sc::from_mont(&l4(l)).ok_or_else(|| "scalar not below the group order".to_string())?),
            Ty::G1 => RVal::G1(P1::from_jac(fq(&l[0..4])?, fq(&l[4..8])?, fq(&l[8..12])?)),
            Ty::G2 => RVal::G2(P2::from_jac(fq2(&l[0..8])?, fq2(&l[8..16])?, fq2(&l[16..24])?)),
            Ty::Gt => {
                // tower order: (c0: w^0 w^2 w^4) (c1: w^1 w^3 w^5)
                let mut c = [Fq2::zero(); 6];
                for (i, p) in [0usize, 2, 4, 1, 3, 5].iter().enumerate() {
                    c[*p] = fq2(&l[i * 8..i * 8 + 8])?;
                }
                RVal::Gt(F12(c))
            }
        })
    }
    pub fn member(&self) -> bool {
        match self {
            RVal::Fr(_) => true,
            RVal::G1(p) => p.on_curve(), // cofactor 1
            RVal::G2(p) => p.in_group(),
            RVal::Gt(x) => x.in_group(),
        }
    }
    /// The identity a point leaves when coordinates say z = 0 is accepted with any x, y.
    pub fn leaves_with(&self, z: Z) -> Vec<u64> {
        fn q(x: &Fq, o: &mut Vec<u64>) {
            o.extend_from_slice(&x.to_mont());
        }
        fn q2(x: &Fq2, o: &mut Vec<u64>) {
            q(&x.0, o);
            q(&x.1, o);
        }
        let mut o = Vec::new();
        match self {
            RVal::Fr(a) => o.extend_from_slice(&a.to_mont()),
            RVal::G1(p) => {
                let (x, y, zz) = p.to_jac(z.0 .0);
                q(&x, &mut o);
                q(&y, &mut o);
                q(&zz, &mut o);
            }
            RVal::G2(p) => {
                let (x, y, zz) = p.to_jac(z.0);
                q2(&x, &mut o);
                q2(&y, &mut o);
                q2(&zz, &mut o);
            }
            RVal::Gt(x) => {
                for i in [0usize, 2, 4, 1, 3, 5] {
                    q2(&x.0[i], &mut o);
                }
            }
        }
        o
    }
    pub fn leaves(&self) -> Vec<u64> {
        self.leaves_with(Z::one())
    }
    pub fn short(&self) -> String {
        match self {
            RVal::Fr(a) => format!("Fr:{}", a.to_dec()),
            _ => format!("{:?}:{:016x}", self.ty(), hash_leaves(&self.leaves())),
        }
    }
}
pub fn hash_leaves(l: &[u64]) -> u64 {
    let b: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
    hash_bytes(&b)
}

/// z coordinate of a representation (nonzero; G1 uses the first part, which is then nonzero too).
#[derive(Copy, Clone, Debug)]
pub struct Z(pub Fq2);
impl Z {
    pub fn one() -> Z {
        Z(Fq2::one())
    }
}

// ---- the independent codec -------------------------------------------------------------------------

/// Encodes limbs as the crate's published formats do.
pub fn ref_encode(c: Codec, t: Ty, l: &[u64]) -> Vec<u8> {
    match c {
        Codec::Bin | Codec::Borsh => l.iter().flat_map(|x| x.to_le_bytes()).collect(),
        Codec::Json => {
            fn a(l: &[u64]) -> String {
                format!("[{},{},{},{}]", l[0], l[1], l[2], l[3])
            }
            fn a2(l: &[u64]) -> String {
                format!("{{\"c0\":{},\"c1\":{}}}", a(&l[0..4]), a(&l[4..8]))
            }
            fn a6(l: &[u64]) -> String {
                format!("{{\"c0\":{},\"c1\":{},\"c2\":{}}}", a2(&l[0..8]), a2(&l[8..16]), a2(&l[16..24]))
            }
            match t {
                Ty::Fr => a(l),
                Ty::G1 => format!("{{\"x\":{},\"y\":{},\"z\":{}}}", a(&l[0..4]), a(&l[4..8]), a(&l[8..12])),
                Ty::G2 => format!("{{\"x\":{},\"y\":{},\"z\":{}}}", a2(&l[0..8]), a2(&l[8..16]), a2(&l[16..24])),
                Ty::Gt => format!("{{\"c0\":{},\"c1\":{}}}", a6(&l[0..24]), a6(&l[24..48])),
            }
            .into_bytes()
        }
    }
}
/// Strict reader of the same formats: limbs in order, nothing missing, nothing extra.
pub fn ref_decode(c: Codec, t: Ty, b: &[u8]) -> Result<Vec<u64>, String> {
    match c {
        Codec::Bin | Codec::Borsh => {
            if b.len() != t.nleaves() * 8 {
                return Err(format!("{} bytes for {:?}", b.len(), t));
            }
            Ok(b.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect())
        }
        Codec::Json => {
            use serde_json::Value;
            let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            fn num(v: &Value, o: &mut Vec<u64>) -> Result<(), String> {
                let a = v.as_array().ok_or("array expected")?;
                if a.len() != 4 {
                    return Err("4 limbs expected".into());
                }
                for x in a {
                    o.push(x.as_u64().ok_or("u64 expected")?);
                }
                Ok(())
            }
            fn obj(v: &Value, ks: &[&str], o: &mut Vec<u64>, f: &dyn Fn(&Value, &mut Vec<u64>) -> Result<(), String>) -> Result<(), String> {
                let m = v.as_object().ok_or("object expected")?;
                if m.len() != ks.len() {
                    return Err("wrong number of fields".into());
                }
                for k in ks {
                    f(m.get(*k).ok_or_else(|| format!("field {} missing", k))?, o)?;
                }
                Ok(())
            }
            fn q2(v: &Value, o: &mut Vec<u64>) -> Result<(), String> {
                obj(v, &["c0", "c1"], o, &num)
            }
            fn q6(v: &Value, o: &mut Vec<u64>) -> Result<(), String> {
                obj(v, &["c0", "c1", "c2"], o, &q2)
            }
            let mut o = Vec::new();
            match t {
                Ty::Fr => num(&v, &mut o)?,
                Ty::G1 => obj(&v, &["x", "y", "z"], &mut o, &num)?,
                Ty::G2 => obj(&v, &["x", "y", "z"], &mut o, &q2)?,
                Ty::Gt => obj(&v, &["c0", "c1"], &mut o, &q6)?,
            }
            Ok(o)
        }
    }
}
/// Model of Vec::from / into_bytes: limbs in order, each big-endian.
pub fn ref_export(l: &[u64]) -> Vec<u8> {
    l.iter().flat_map(|x| x.to_be_bytes()).collect()
}
/// Model of Display (the text callers hash): limbs in hexadecimal, quoted per field element.
pub fn ref_text(t: Ty, l: &[u64]) -> String {
    fn a(l: &[u64]) -> String {
        let mut s = String::from("\"");
        for x in &l[0..4] {
            s.push_str(&format!("0x{:X}", x));
        }
        s.push('"');
        s
    }
    fn a2(l: &[u64]) -> String {
        format!("[{},{}]", a(&l[0..4]), a(&l[4..8]))
    }
    fn a6(l: &[u64]) -> String {
        format!("({},{},{})", a2(&l[0..8]), a2(&l[8..16]), a2(&l[16..24]))
    }
    match t {
        Ty::Fr => a(l),
        Ty::G1 => format!("{} {} {}", a(&l[0..4]), a(&l[4..8]), a(&l[8..12])),
        Ty::G2 => format!("{} {} {}", a2(&l[0..8]), a2(&l[8..16]), a2(&l[16..24])),
        Ty::Gt => format!("{{{},{}}}", a6(&l[0..24]), a6(&l[24..48])),
    }
}

/// The numbers in a Debug text, however it is laid out (digits inside names do not count).
pub fn debug_numbers(s: &str) -> Vec<u64> {
    let b = s.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let from = i;
        while i < b.len() && word(b[i]) {
            i += 1;
        }
        if i == from {
            i += 1;
        } else if b[from..i].iter().all(|c| c.is_ascii_digit()) {
            v.push(s[from..i].parse().unwrap_or(u64::MAX));
        }
    }
    v
}

// ---- observation of library values --------------------------------------------------------------------

/// What the library value is, read from its encoding. Not a member => violation `not-a-member`.
pub fn observe(v: &Val) -> Res<RVal> {
    let t = v.ty();
    let l = guard("encode", || sut::leaves(v))?;
    match RVal::from_leaves(t, &l) {
        Ok(r) => Ok(r),
        Err(e) => viol("malformed-value", format!("{:?} value has bad coordinates: {} (limbs {:x?})", t, e, l)),
    }
}
pub fn expect_val(class: &str, what: &str, v: &Val, want: &RVal) -> Res {
    let got = observe(v)?;
    if got != *want {
        return viol(class, format!("{}: library has {}, model has {}", what, got.short(), want.short()));
    }
    Ok(())
}

// ---- generators ------------------------------------------------------------------------------------------

fn limb(t: &mut Tape) -> u64 {
    match t.below(12) {
        9 => [0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 0x3333_3333_3333_3333, 0x8000_0000_0000_0000][t.draw(4) as usize],
        10 => {
            // a fraction of the word: k, 2k, 3k .. just touch a power of two
            let d = 3 + t.draw(13);
            (u64::MAX / d).wrapping_mul(1 + t.draw(d)).wrapping_add(t.draw(3)).wrapping_sub(1)
        }
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - t.draw(3),
        4 => 0xffff_ffff,
        5 => 0x1_0000_0000,
        6 => 0xffff_ffff_0000_0000,
        7 => 1u64 << t.draw(64),
        8 => (1u64 << t.draw(64)).wrapping_sub(1),
        _ => t.bits(),
    }
}
/// Reduced limbs with structure.
fn pattern<M: Modulus>(t: &mut Tape) -> L4 {
    let mut l = if t.chance(300) {
        // every limb of one family: where k, 2k, 3k .. carry or just do not
        let d = [3, 5, 2, 7, 9, 15, 17, 4, 6, 8][t.below(10)];
        let b = u64::MAX / d;
        let mut w = |t: &mut Tape| match t.below(8) {
            0 => b,
            1 => b + 1,
            2 => b.wrapping_mul(1 + t.draw(d)),
            3 => b.wrapping_mul(1 + t.draw(d)).wrapping_add(1),
            4 => b.wrapping_mul(1 + t.draw(d)).wrapping_sub(1),
            5 => u64::MAX,
            6 => t.draw(2),
            _ => t.bits(),
        };
        [w(t), w(t), w(t), w(t)]
    } else {
        [limb(t), limb(t), limb(t), limb(t)]
    };
    if t.chance(300) {
        // close to the modulus
        let near = t.below(3);
        l[3] = M::P[3];
        if near >= 1 {
            l[2] = M::P[2];
        }
        if near >= 2 {
            l[1] = M::P[1];
        }
    }
    while cmp4(&l, &M::P).is_ge() {
        l[3] >>= 1;
    }
    l
}
pub fn gen_f<M: Modulus>(t: &mut Tape) -> F<M> {
    match t.weighted(&[6, 2, 4, 3, 5, 5, 8, 1]) {
        0 => F::<M>::from_u64(2 + t.draw(14)),
        1 => F::<M>::from_u64(t.draw(2)),
        2 => F::<M>::from_u64(1 + t.draw(6)).neg(),
        3 => {
            let k = t.draw(254) as usize;
            let mut l = [0u64; 4];
            l[k / 64] = 1 << (k % 64);
            let x = F::<M>::from_l4(&l);
            match t.below(3) {
                0 => x,
                1 => x.sub(&F::one()),
                _ => x.neg(),
            }
        }
        4 => F::<M>::raw(pattern::<M>(t)).unwrap(),
        5 => F::<M>::from_mont(&pattern::<M>(t)).unwrap(),
        7 => {
            // next to zero as the library stores it
            let x = F::<M>::from_mont(&[t.draw(4), 0, 0, 0]).unwrap();
            if t.chance(500) {
                x
            } else {
                x.neg()
            }
        }
        _ => F::<M>::from_wide(&[t.bits(), t.bits(), t.bits(), t.bits(), t.bits(), t.bits(), t.bits(), t.bits()]),
    }
}
pub fn gen_sc(t: &mut Tape) -> Sc {
    gen_f::<MR>(t)
}
pub fn gen_sc_nz(t: &mut Tape) -> Sc {
    let s = gen_sc(t);
    if s.is_zero() {
        Sc::from_u64(3)
    } else {
        s
    }
}
/// Representation: mostly z = 1, else a structured or random nonzero z.
pub fn gen_z(t: &mut Tape) -> Z {
    match t.weighted(&[4, 2, 2, 2, 2, 2]) {
        0 => Z::one(),
        1 => Z(Fq2(Fq::one().neg(), Fq::zero())),
        2 => Z(Fq2(Fq::one(), nz(gen_f::<MQ>(t)))),
        3 => Z(Fq2(nz(gen_f::<MQ>(t)), Fq::zero())),
        4 => Z(Fq2(nz(gen_f::<MQ>(t)), gen_f::<MQ>(t))),
        _ => Z(Fq2(Fq::from_mont(&[1 + t.draw(3), 0, 0, 0]).unwrap(), Fq::one())),
    }
}
/// For G2 also z with vanishing real part.
pub fn gen_z_for(t: &mut Tape, ty: Ty) -> Z {
    let z = gen_z(t);
    if ty == Ty::G2 && t.chance(150) {
        return Z(Fq2(Fq::zero(), nz(z.0 .1)));
    }
    z
}
/// A representation for this element; now and then one whose coordinates are themselves remarkable.
pub fn gen_z_of(t: &mut Tape, m: &RVal) -> Z {
    let z = if t.chance(200) { chosen(t, m) } else { None };
    let z = z.unwrap_or_else(|| gen_z_for(t, m.ty()));
    // a G1 point takes the real part only
    if m.ty() == Ty::G1 && z.0 .0.is_zero() {
        Z::one()
    } else {
        z
    }
}
/// z such that one of X, Y, Z is what we like, or two of them agree.
fn chosen(t: &mut Tape, m: &RVal) -> Option<Z> {
    let kind = t.below(8);
    let v = nz(gen_f::<MQ>(t));
    match m {
        RVal::G1(p) => {
            let (x, y) = p.affine()?;
            let one = Fq::one();
            let z = match kind {
                0 => x.inv()?,              // X = Z
                1 => x.mul(&y.inv()?),      // X = Y
                2 => y.inv()?.sqrt()?,      // Y = Z
                3 => x.inv()?.sqrt()?,      // X = 1
                4 => x.neg().inv()?,        // X = -Z
                _ => {
                    // X = v, or the next value that can be had
                    let i = x.inv()?;
                    (0..8).scan(v, |w, _| { let r = *w; *w = w.add(&one); Some(r) }).find_map(|w| w.mul(&i).sqrt())?
                }
            };
            if z.is_zero() { None } else { Some(Z(Fq2(z, Fq::zero()))) }
        }
        RVal::G2(p) => {
            let (x, y) = p.affine()?;
            let (o, l) = (Fq::zero(), Fq::one());
            let z = match kind {
                0 => x.inv()?,
                1 => x.mul(&y.inv()?),
                2 => y.inv()?.sqrt()?,
                3 | 4 => {
                    // Y real, or imaginary: cubing is a bijection up to real factors
                    const THIRD: [u64; 4] = [0x69602eb24829a9c3, 0xdd2b2385cd7b4384, 0xe81ac1e7808072c9, 0x10216f7ba065e00d];
                    let z = y.inv()?.pow(&THIRD).mul(&Fq2(v, o));
                    if kind == 3 { z } else { z.mul(&Fq2(o, l)) }
                }
                _ => {
                    let i = x.inv()?;
                    let w = match t.below(4) {
                        0 => Fq2(v, o), // X real
                        1 => Fq2(o, v), // X imaginary
                        2 => Fq2(v, v),
                        _ => Fq2(v, gen_f::<MQ>(t)),
                    };
                    [Fq2(l, o), Fq2(l.neg(), o), Fq2(Fq::from_u64(2), o), Fq2(Fq::from_u64(3), o)].iter().find_map(|f| w.mul(f).mul(&i).sqrt())?
                }
            };
            if z.is_zero() { None } else { Some(Z(z)) }
        }
        _ => None,
    }
}
fn nz(x: Fq) -> Fq {
    if x.is_zero() {
        Fq::one()
    } else {
        x
    }
}

/// Library scalar for a model scalar, by one of the ways callers obtain one.
pub fn make_fr(c: &mut Ctx, s: &Sc) -> Res<rabe::Fr> {
    let way = c.t.weighted(&[5, 2, 2, 2, 2]);
    let v = guard("scalar-input", || match way {
        0 => sut::fr_from_slice(&s.to_be()),
        1 => sut::fr_from_str(&s.to_dec()),
        2 => {
            let mut b = [0u8; 64];
            b[32..].copy_from_slice(&s.to_be());
            Some(sut::fr_interpret(&b))
        }
        3 => Some(sut::fr_from_u256(s.0)),
        _ => match sut::from_leaves(Ty::Fr, &RVal::Fr(*s).leaves()) {
            Ok(Val::Fr(f)) => Some(f),
            _ => None,
        },
    })?;
    match v {
        Some(f) => {
            expect_val("scalar-input", &format!("scalar {} read by way {}", s.to_dec(), way), &Val::Fr(f), &RVal::Fr(*s))?;
            Ok(f)
        }
        None => viol("scalar-input", format!("scalar {} refused by way {}", s.to_dec(), way)),
    }
}
pub mod rabe {
    pub use rabe_bn::Fr;
}

/// A G1 point with structured affine x, not a known multiple of the generator.
pub fn foreign_g1(t: &mut Tape) -> P1 {
    let mut x = gen_f::<MQ>(t);
    let flip = t.draw(2) == 1;
    for _ in 0..64 {
        let y2 = x.mul(&x).mul(&x).add(&Fq::from_u64(3));
        if let Some(y) = y2.sqrt() {
            if !y.is_zero() {
                return Pt(x, if flip { y.neg() } else { y }, Fq::one());
            }
        }
        x = x.add(&Fq::one());
    }
    P1::gen()
}
/// A point of the twist, in the prime-order subgroup iff `clear`.
pub fn foreign_g2(t: &mut Tape, clear: bool) -> P2 {
    let mut x = Fq2(gen_f::<MQ>(t), gen_f::<MQ>(t));
    for _ in 0..64 {
        let y2 = x.mul(&x).mul(&x).add(&<Fq2 as Curve>::b());
        if let Some(y) = y2.sqrt() {
            let p = Pt(x, y, Fq2::one());
            if !clear {
                return p;
            }
            let q = p.mul_l(&[0x345f2299c0f9fa8d, 0x6ceecda572a2489, 0xb85045b68181585e, 0x30644e72e131a029]);
            if !q.is_zero() {
                return q;
            }
        }
        x = x.add(&Fq2::one());
    }
    P2::gen()
}
/// A model element of the given type.
pub fn gen_rval(c: &mut Ctx, ty: Ty) -> RVal {
    let s = c.t.open();
    let r = match ty {
        Ty::Fr => RVal::Fr(gen_sc(&mut c.t)),
        Ty::G1 => match c.t.weighted(&[8, 1, 6]) {
            0 => RVal::G1(P1::gen().mul(&gen_sc(&mut c.t))),
            1 => RVal::G1(P1::zero()),
            _ => RVal::G1(foreign_g1(&mut c.t)),
        },
        Ty::G2 => match c.t.weighted(&[10, 1, 3]) {
            0 => RVal::G2(P2::gen().mul(&gen_sc(&mut c.t))),
            1 => RVal::G2(P2::zero()),
            _ => RVal::G2(foreign_g2(&mut c.t, true)),
        },
        Ty::Gt => RVal::Gt(e_gen().pow_sc(&gen_sc(&mut c.t))),
    };
    c.t.close(s);
    r
}
/// Identity in another representation: z = 0 with other x, y.
pub fn odd_identity(c: &mut Ctx, ty: Ty) -> Vec<u64> {
    let n = ty.nleaves();
    if c.t.chance(250) {
        return vec![0; n];
    }
    let t = nz(gen_f::<MQ>(&mut c.t));
    // (t^2, t^3, 0) lies on the curve equation at infinity
    let (x, y) = (t.mul(&t).to_mont(), t.mul(&t).mul(&t).to_mont());
    let mut l = vec![0u64; n];
    l[0..4].copy_from_slice(&x);
    l[n / 3..n / 3 + 4].copy_from_slice(&y);
    l
}
/// Library value for a model element in some representation.
pub fn make_val(c: &mut Ctx, r: &RVal) -> Res<Val> {
    let ty = r.ty();
    let l = match ty {
        Ty::G1 | Ty::G2 => {
            if r.is_zero() && c.t.chance(500) {
                odd_identity(c, ty)
            } else {
                let z = gen_z_of(&mut c.t, r);
                if !z.0 .1.is_zero() || z.0 .0 != Fq::one() {
                    c.hit("projective representations");
                }
                r.leaves_with(z)
            }
        }
        _ => r.leaves(),
    };
    let codec = c.t.pick(sut::CODECS);
    let b = ref_encode(codec, ty, &l);
    match guard("decode", || sut::dec(codec, ty, &b))? {
        Ok(v) => Ok(v),
        Err(e) => viol("valid-encoding-refused", format!("{:?} {:?} refused: {} ({:x?})", codec, r.short(), e, l)),
    }
}
