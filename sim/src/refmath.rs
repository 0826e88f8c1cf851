//! Reference model: an independent implementation of the arithmetic behind rabe-bn's public API.
//! Plain residues with Barrett reduction (the library: Montgomery), complete projective addition
//! (the library: Jacobian with special cases), a flat sextic extension of Fq2 (the library: a 2-3 tower),
//! a textbook affine ate pairing (the library: precomputed flipped Miller loop).
use std::sync::OnceLock;

pub type L4 = [u64; 4];

pub fn cmp4(a: &L4, b: &L4) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn add4(a: &L4, b: &L4) -> (L4, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn sub4(a: &L4, b: &L4) -> (L4, bool) {
    let mut r = [0u64; 4];
    let mut bw = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bw as u64);
        r[i] = y;
        bw = b1 || b2;
    }
    (r, bw)
}
pub fn mul_wide(a: &[u64], b: &[u64], out: &mut [u64]) {
    for o in out.iter_mut() {
        *o = 0;
    }
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            if i + j >= out.len() {
                break;
            }
            c += out[i + j] as u128 + (a[i] as u128) * (b[j] as u128);
            out[i + j] = c as u64;
            c >>= 64;
        }
        let mut k = i + b.len();
        while c != 0 && k < out.len() {
            c += out[k] as u128;
            out[k] = c as u64;
            c >>= 64;
            k += 1;
        }
    }
}

pub trait Modulus: Copy + Clone + PartialEq + Eq + std::fmt::Debug + 'static {
    const P: L4;
    const MU: [u64; 5];
    const R: L4; // 2^256 mod P
    const RINV: L4; // 2^-256 mod P
    const PM2: L4; // P - 2
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct MQ;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct MR;
impl Modulus for MQ {
    const P: L4 = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    const MU: [u64; 5] = [0xf3aed8a19bf90e51, 0xe965e1767cd4c086, 0xb074a5868073013a, 0x4a47462623a04a7a, 0x5];
    const R: L4 = [0xd35d438dc58f0d9d, 0xa78eb28f5c70b3d, 0x666ea36f7879462c, 0xe0a77c19a07df2f];
    const RINV: L4 = [0xed84884a014afa37, 0xeb2022850278edf8, 0xcf63e9cfb74492d9, 0x2e67157159e5c639];
    const PM2: L4 = [0x3c208c16d87cfd45, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
}
impl Modulus for MR {
    const P: L4 = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
    const MU: [u64; 5] = [0x20703a6be1de9259, 0x144852009e880ae6, 0xb074a58680730147, 0x4a47462623a04a7a, 0x5];
    const R: L4 = [0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0xe0a77c19a07df2f];
    const RINV: L4 = [0xdc5ba0056db1194e, 0x90ef5a9e111ec87, 0xc8260de4aeb85d5d, 0x15ebf95182c5551c];
    const PM2: L4 = [0x43e1f593efffffff, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
}

/// Residue modulo M::P, always canonical.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F<M: Modulus>(pub L4, std::marker::PhantomData<M>);
pub type Fq = F<MQ>;
pub type Sc = F<MR>;

pub trait Ring: Copy + Clone + PartialEq + Eq + std::fmt::Debug {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn neg(&self) -> Self {
        Self::zero().sub(self)
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    fn pow(&self, e: &[u64]) -> Self {
        let mut r = Self::one();
        for i in (0..e.len() * 64).rev() {
            r = r.mul(&r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
}

impl<M: Modulus> F<M> {
    pub fn raw(l: L4) -> Option<Self> {
        if cmp4(&l, &M::P).is_lt() {
            Some(F(l, std::marker::PhantomData))
        } else {
            None
        }
    }
    pub fn from_wide(x: &[u64; 8]) -> Self {
        // Barrett reduction (HAC 14.42)
        let mut q2 = [0u64; 10];
        mul_wide(&x[3..8], &M::MU, &mut q2);
        let mut r2 = [0u64; 5];
        mul_wide(&q2[5..10], &M::P, &mut r2);
        let mut r = [0u64; 5];
        let mut bw = false;
        for i in 0..5 {
            let (a, b1) = x[i].overflowing_sub(r2[i]);
            let (b, b2) = a.overflowing_sub(bw as u64);
            r[i] = b;
            bw = b1 || b2;
        }
        loop {
            let lo = [r[0], r[1], r[2], r[3]];
            if r[4] == 0 && cmp4(&lo, &M::P).is_lt() {
                return F(lo, std::marker::PhantomData);
            }
            let (d, b) = sub4(&lo, &M::P);
            r = [d[0], d[1], d[2], d[3], r[4] - b as u64];
        }
    }
    pub fn from_l4(x: &L4) -> Self {
        Self::from_wide(&[x[0], x[1], x[2], x[3], 0, 0, 0, 0])
    }
    pub fn from_u64(x: u64) -> Self {
        Self::from_l4(&[x, 0, 0, 0])
    }
    pub fn from_be64(b: &[u8; 64]) -> Self {
        let mut w = [0u64; 8];
        for i in 0..8 {
            w[7 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        Self::from_wide(&w)
    }
    /// Value whose Montgomery limbs are `l` (None when `l` is not reduced).
    pub fn from_mont(l: &L4) -> Option<Self> {
        Self::raw(*l).map(|x| x.mul(&F(M::RINV, std::marker::PhantomData)))
    }
    pub fn to_mont(&self) -> L4 {
        self.mul(&F(M::R, std::marker::PhantomData)).0
    }
    pub fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            Some(self.pow(&M::PM2))
        }
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    pub fn to_dec(&self) -> String {
        let mut w = self.0;
        let mut d = Vec::new();
        loop {
            let mut rem = 0u128;
            for i in (0..4).rev() {
                let c = (rem << 64) | w[i] as u128;
                w[i] = (c / 10) as u64;
                rem = c % 10;
            }
            d.push(b'0' + rem as u8);
            if w == [0; 4] {
                break;
            }
        }
        d.reverse();
        String::from_utf8(d).unwrap()
    }
}
impl<M: Modulus> Ring for F<M> {
    fn zero() -> Self {
        F([0; 4], std::marker::PhantomData)
    }
    fn one() -> Self {
        F([1, 0, 0, 0], std::marker::PhantomData)
    }
    fn add(&self, o: &Self) -> Self {
        let (s, _) = add4(&self.0, &o.0);
        if cmp4(&s, &M::P).is_lt() {
            F(s, self.1)
        } else {
            F(sub4(&s, &M::P).0, self.1)
        }
    }
    fn sub(&self, o: &Self) -> Self {
        let (d, b) = sub4(&self.0, &o.0);
        if b {
            F(add4(&d, &M::P).0, self.1)
        } else {
            F(d, self.1)
        }
    }
    fn mul(&self, o: &Self) -> Self {
        let mut w = [0u64; 8];
        mul_wide(&self.0, &o.0, &mut w);
        Self::from_wide(&w)
    }
}
impl Fq {
    pub fn sqrt(&self) -> Option<Fq> {
        let s = self.pow(&[0x4f082305b61f3f52, 0x65e05aa45a1c72a3, 0x6e14116da0605617, 0xc19139cb84c680a]);
        if s.mul(&s) == *self {
            Some(s)
        } else {
            None
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Fq2(pub Fq, pub Fq);
impl Ring for Fq2 {
    fn zero() -> Self {
        Fq2(Fq::zero(), Fq::zero())
    }
    fn one() -> Self {
        Fq2(Fq::one(), Fq::zero())
    }
    fn add(&self, o: &Self) -> Self {
        Fq2(self.0.add(&o.0), self.1.add(&o.1))
    }
    fn sub(&self, o: &Self) -> Self {
        Fq2(self.0.sub(&o.0), self.1.sub(&o.1))
    }
    fn mul(&self, o: &Self) -> Self {
        // schoolbook, u^2 = -1
        Fq2(
            self.0.mul(&o.0).sub(&self.1.mul(&o.1)),
            self.0.mul(&o.1).add(&self.1.mul(&o.0)),
        )
    }
}
impl Fq2 {
    pub fn conj(&self) -> Self {
        Fq2(self.0, self.1.neg())
    }
    pub fn inv(&self) -> Option<Self> {
        let n = self.0.mul(&self.0).add(&self.1.mul(&self.1));
        n.inv().map(|i| Fq2(self.0.mul(&i), self.1.neg().mul(&i)))
    }
    pub fn sqrt(&self) -> Option<Fq2> {
        if self.is_zero() {
            return Some(*self);
        }
        // complex method: norm must be a square
        let n = self.0.mul(&self.0).add(&self.1.mul(&self.1)).sqrt()?;
        let half = Fq::from_u64(2).inv().unwrap();
        for s in [n, n.neg()] {
            let a = self.0.add(&s).mul(&half);
            if let Some(x) = a.sqrt() {
                let y = if x.is_zero() {
                    match self.0.neg().sqrt() {
                        Some(y) => y,
                        None => continue,
                    }
                } else {
                    self.1.mul(&half).mul(&x.inv().unwrap())
                };
                let c = Fq2(x, y);
                if c.mul(&c) == *self {
                    return Some(c);
                }
            }
        }
        None
    }
    pub fn scale(&self, k: &Fq) -> Self {
        Fq2(self.0.mul(k), self.1.mul(k))
    }
    pub fn xi() -> Fq2 {
        Fq2(Fq::from_u64(9), Fq::one())
    }
}

/// Curve coefficient and generator of a base field.
pub trait Curve: Ring {
    fn b() -> Self;
    fn b3() -> Self;
    fn gen() -> (Self, Self);
    fn inverse(&self) -> Option<Self>;
}
impl Curve for Fq {
    fn b() -> Self {
        Fq::from_u64(3)
    }
    fn b3() -> Self {
        Fq::from_u64(9)
    }
    fn gen() -> (Self, Self) {
        (Fq::from_u64(1), Fq::from_u64(2))
    }
    fn inverse(&self) -> Option<Self> {
        self.inv()
    }
}
fn dec(s: &str) -> Fq {
    let mut r = Fq::zero();
    for c in s.bytes() {
        r = r.mul(&Fq::from_u64(10)).add(&Fq::from_u64((c - b'0') as u64));
    }
    r
}
struct Consts {
    b2: Fq2,
    b2_3: Fq2,
    gen2: (Fq2, Fq2),
    frob1: [Fq2; 6],  // xi^{i(q-1)/6}
    frob2: [Fq2; 6],  // xi^{i(q^2-1)/6}
}
static CONSTS: OnceLock<Consts> = OnceLock::new();
fn consts() -> &'static Consts {
    CONSTS.get_or_init(|| {
        let b2 = Fq2(Fq::from_u64(3), Fq::zero()).mul(&Fq2::xi().inv().unwrap());
        let g = Fq2::xi().pow(&[0x34b017592414d4e1, 0xee9591c2e6bda1c2, 0xf40d60f3c0403964, 0x810b7bdd032f006]);
        let mut frob1 = [Fq2::one(); 6];
        for i in 1..6 {
            frob1[i] = frob1[i - 1].mul(&g);
        }
        // xi^{(q^2-1)/6} = (xi^{(q-1)/6})^{q+1} = g * conj(g)
        let g2 = g.mul(&g.conj());
        let mut frob2 = [Fq2::one(); 6];
        for i in 1..6 {
            frob2[i] = frob2[i - 1].mul(&g2);
        }
        Consts {
            b2,
            b2_3: b2.add(&b2).add(&b2),
            gen2: (
                Fq2(
                    dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                    dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
                ),
                Fq2(
                    dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                    dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
                ),
            ),
            frob1,
            frob2,
        }
    })
}
impl Curve for Fq2 {
    fn b() -> Self {
        consts().b2
    }
    fn b3() -> Self {
        consts().b2_3
    }
    fn gen() -> (Self, Self) {
        consts().gen2
    }
    fn inverse(&self) -> Option<Self> {
        self.inv()
    }
}

/// Homogeneous projective point (X : Y : Z), identity (0 : 1 : 0).
#[derive(Copy, Clone, Debug)]
pub struct Pt<C: Curve>(pub C, pub C, pub C);
pub type P1 = Pt<Fq>;
pub type P2 = Pt<Fq2>;
impl<C: Curve> PartialEq for Pt<C> {
    fn eq(&self, o: &Self) -> bool {
        let (z1, z2) = (self.2.is_zero(), o.2.is_zero());
        if z1 || z2 {
            return z1 && z2;
        }
        self.0.mul(&o.2) == o.0.mul(&self.2) && self.1.mul(&o.2) == o.1.mul(&self.2)
    }
}
impl<C: Curve> Pt<C> {
    pub fn zero() -> Self {
        Pt(C::zero(), C::one(), C::zero())
    }
    pub fn gen() -> Self {
        let (x, y) = C::gen();
        Pt(x, y, C::one())
    }
    pub fn is_zero(&self) -> bool {
        self.2.is_zero()
    }
    /// From Jacobian coordinates as the library writes them.
    pub fn from_jac(x: C, y: C, z: C) -> Self {
        if z.is_zero() {
            return Self::zero();
        }
        Pt(x.mul(&z), y, z.mul(&z).mul(&z))
    }
    pub fn affine(&self) -> Option<(C, C)> {
        self.2.inverse().map(|i| (self.0.mul(&i), self.1.mul(&i)))
    }
    /// Jacobian coordinates with the given z (identity: (0, 1, 0)).
    pub fn to_jac(&self, z: C) -> (C, C, C) {
        match self.affine() {
            None => (C::zero(), C::one(), C::zero()),
            Some((x, y)) => {
                let z2 = z.mul(&z);
                (x.mul(&z2), y.mul(&z2).mul(&z), z)
            }
        }
    }
    pub fn on_curve(&self) -> bool {
        if self.is_zero() {
            return true;
        }
        let (x, y, z) = (self.0, self.1, self.2);
        // Y^2 Z = X^3 + b Z^3
        y.mul(&y).mul(&z) == x.mul(&x).mul(&x).add(&C::b().mul(&z.mul(&z).mul(&z)))
    }
    pub fn neg(&self) -> Self {
        Pt(self.0, self.1.neg(), self.2)
    }
    /// Complete addition for a = 0 (Renes, Costello, Batina, algorithm 7).
    pub fn add(&self, o: &Self) -> Self {
        let (x1, y1, z1) = (self.0, self.1, self.2);
        let (x2, y2, z2) = (o.0, o.1, o.2);
        let b3 = C::b3();
        let t0 = x1.mul(&x2);
        let t1 = y1.mul(&y2);
        let t2 = z1.mul(&z2);
        let t3 = x1.add(&y1).mul(&x2.add(&y2)).sub(&t0.add(&t1));
        let t4 = y1.add(&z1).mul(&y2.add(&z2)).sub(&t1.add(&t2));
        let y3 = x1.add(&z1).mul(&x2.add(&z2)).sub(&t0.add(&t2));
        let t0 = t0.add(&t0).add(&t0);
        let t2 = b3.mul(&t2);
        let z3 = t1.add(&t2);
        let t1 = t1.sub(&t2);
        let y3 = b3.mul(&y3);
        let x3 = t3.mul(&t1).sub(&t4.mul(&y3));
        let yy = y3.mul(&t0).add(&t1.mul(&z3));
        let zz = z3.mul(&t4).add(&t0.mul(&t3));
        Pt(x3, yy, zz)
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    pub fn mul_l(&self, k: &[u64]) -> Self {
        let mut r = Self::zero();
        let mut started = false;
        for i in (0..k.len() * 64).rev() {
            if started {
                r = r.add(&r);
            }
            if k[i / 64] >> (i % 64) & 1 == 1 {
                r = r.add(self);
                started = true;
            }
        }
        r
    }
    pub fn mul(&self, k: &Sc) -> Self {
        self.mul_l(&k.0)
    }
    pub fn in_group(&self) -> bool {
        self.on_curve() && self.mul_l(&MR::P).is_zero()
    }
}

/// Fq2[w]/(w^6 - xi)
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F12(pub [Fq2; 6]);
impl Ring for F12 {
    fn zero() -> Self {
        F12([Fq2::zero(); 6])
    }
    fn one() -> Self {
        let mut a = [Fq2::zero(); 6];
        a[0] = Fq2::one();
        F12(a)
    }
    fn add(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] = r.0[i].add(&o.0[i]);
        }
        r
    }
    fn sub(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] = r.0[i].sub(&o.0[i]);
        }
        r
    }
    fn mul(&self, o: &Self) -> Self {
        let mut t = [Fq2::zero(); 11];
        for i in 0..6 {
            if self.0[i].is_zero() {
                continue;
            }
            for j in 0..6 {
                if o.0[j].is_zero() {
                    continue;
                }
                t[i + j] = t[i + j].add(&self.0[i].mul(&o.0[j]));
            }
        }
        let xi = Fq2::xi();
        let mut r = [Fq2::zero(); 6];
        for i in 0..6 {
            r[i] = if i < 5 { t[i].add(&t[i + 6].mul(&xi)) } else { t[i] };
        }
        F12(r)
    }
}
impl F12 {
    pub fn conj(&self) -> Self {
        let mut r = *self;
        for i in [1, 3, 5] {
            r.0[i] = r.0[i].neg();
        }
        r
    }
    pub fn frob2(&self) -> Self {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] = r.0[i].mul(&consts().frob2[i]);
        }
        r
    }
    pub fn inv(&self) -> Option<Self> {
        let c = self.conj();
        let n = self.mul(&c); // in Fq6: even powers only
        let a = n.frob2();
        let b = a.frob2();
        let ab = a.mul(&b);
        let norm = n.mul(&ab).0[0]; // in Fq2
        let i = norm.inv()?;
        let mut r = c.mul(&ab);
        for k in 0..6 {
            r.0[k] = r.0[k].mul(&i);
        }
        Some(r)
    }
    pub fn in_group(&self) -> bool {
        !self.is_zero() && self.pow(&MR::P) == F12::one()
    }
    pub fn pow_sc(&self, k: &Sc) -> Self {
        self.pow(&k.0)
    }
}

const HARD: [u64; 15] = [
    0xcaa4152366144ab4, 0x114dc0ec2cab7ffd, 0xcf0888c7a0ff6cf, 0x65c5644e949b6a90, 0x1be2458885117085,
    0x5b35eb719e58db4b, 0x2566c550aeb7e0e2, 0xc974024a316619f, 0xd147cb7d3a5203dc, 0x621d9bfed77c2ad0,
    0x26473fbcd1c3ec1e, 0xe86518527b5e4036, 0x29259e9712ca7b71, 0x1891045f68d15763, 0x679dd974c68787,
];

pub fn pairing(p: &P1, q: &P2) -> F12 {
    let ((px, py), (qx, qy)) = match (p.affine(), q.affine()) {
        (Some(a), Some(b)) => (a, b),
        _ => return F12::one(),
    };
    // untwisted point: (x w^2, y w^3); line through T with twist slope s at P:
    //   yP - s xP w + (s x_T - y_T) w^3
    let line = |s: &Fq2, xt: &Fq2, yt: &Fq2| {
        let mut l = F12::zero();
        l.0[0] = Fq2(py, Fq::zero());
        l.0[1] = s.scale(&px).neg();
        l.0[3] = s.mul(xt).sub(yt);
        l
    };
    let (mut tx, mut ty) = (qx, qy);
    let mut f = F12::one();
    let double = |tx: &mut Fq2, ty: &mut Fq2, f: &mut F12| {
        let x2 = tx.mul(tx);
        let s = x2.add(&x2).add(&x2).mul(&ty.add(ty).inv().expect("2-torsion"));
        *f = f.mul(&line(&s, tx, ty));
        let x3 = s.mul(&s).sub(tx).sub(tx);
        let y3 = s.mul(&tx.sub(&x3)).sub(ty);
        *tx = x3;
        *ty = y3;
    };
    let add = |tx: &mut Fq2, ty: &mut Fq2, ax: &Fq2, ay: &Fq2, f: &mut F12| {
        let d = ax.sub(tx);
        match d.inv() {
            None => (), // vertical line: killed by the final exponentiation (only at the very end)
            Some(i) => {
                let s = ay.sub(ty).mul(&i);
                *f = f.mul(&line(&s, tx, ty));
                let x3 = s.mul(&s).sub(tx).sub(ax);
                let y3 = s.mul(&tx.sub(&x3)).sub(ty);
                *tx = x3;
                *ty = y3;
            }
        }
    };
    let count: u128 = 0x19d797039be763ba8;
    for i in (0..64).rev() {
        f = f.mul(&f);
        double(&mut tx, &mut ty, &mut f);
        if count >> i & 1 == 1 {
            add(&mut tx, &mut ty, &qx, &qy, &mut f);
        }
    }
    let fr = |x: &Fq2, y: &Fq2| (x.conj().mul(&consts().frob1[2]), y.conj().mul(&consts().frob1[3]));
    let (q1x, q1y) = fr(&qx, &qy);
    let (q2x, q2y) = fr(&q1x, &q1y);
    add(&mut tx, &mut ty, &q1x, &q1y, &mut f);
    add(&mut tx, &mut ty, &q2x, &q2y.neg(), &mut f);
    // final exponentiation: (q^6-1)(q^2+1), then the hard part times the fixed cofactor
    let a = f.conj().mul(&f.inv().unwrap());
    let b = a.frob2().mul(&a);
    b.pow(&HARD)
}

/// e(G1 generator, G2 generator)
pub fn e_gen() -> F12 {
    static E: OnceLock<F12> = OnceLock::new();
    *E.get_or_init(|| pairing(&P1::gen(), &P2::gen()))
}

pub fn warm_up() {
    consts();
    e_gen();
}
