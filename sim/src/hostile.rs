//! Damage and forgery of encoded records.
use crate::ctx::*;
use crate::model::*;
use crate::refmath::*;
use crate::tape::Tape;
use simcalls as sut;
use simcalls::{Codec, Ty};

const Q: [u64; 4] = sut::Q_LIMBS;
const R: [u64; 4] = sut::R_LIMBS;

fn add_l4(a: &[u64], b: &[u64; 4], k: u64) -> [u64; 4] {
    let mut o = [a[0], a[1], a[2], a[3]];
    for _ in 0..k {
        let mut cy = 0u128;
        for i in 0..4 {
            let s = o[i] as u128 + b[i] as u128 + cy;
            o[i] = s as u64;
            cy = s >> 64;
        }
    }
    o
}
/// 32 bytes a broken or malicious peer might send for one coordinate.
fn bad_coord(t: &mut Tape, old: &[u64], m: &[u64; 4]) -> [u64; 4] {
    match t.below(10) {
        0 => *m,
        1 => add_l4(old, m, 1 + t.draw(4)), // same residue, not reduced
        2 => add_l4(m, &[1, 0, 0, 0], 1 + t.draw(2)),
        3 => [u64::MAX; 4],
        4 => [0; 4],
        5 => [m[0], m[1], m[2], m[3] - 1 + t.draw(3)],
        6 => {
            let mut x = *m;
            let i = t.below(4);
            x[i] = x[i].wrapping_add(1 + t.draw(2)).wrapping_sub(2 * t.draw(2));
            x
        }
        7 => [0, 0, 0, 1 << t.draw(64)],
        8 => [t.bits(), t.bits(), t.bits(), t.bits()],
        _ => {
            let mut x = [old[0], old[1], old[2], old[3]];
            x[t.below(4)] ^= 1 << t.draw(64);
            x
        }
    }
}
fn fq2_rand(t: &mut Tape) -> Fq2 {
    Fq2(gen_f::<MQ>(t), gen_f::<MQ>(t))
}
/// Limbs of something that is not what it should be (or, sometimes, is).
pub fn forge(c: &mut Ctx, ty: Ty) -> Vec<u64> {
    if c.t.chance(250) {
        let v: Vec<usize> = (0..c.seen.len()).filter(|i| c.seen[*i].0 == ty).collect();
        if !v.is_empty() {
            // mostly the latest
            let i = v[v.len() - 1 - if c.t.chance(600) { 0 } else { c.t.below(v.len()) }];
            let l = c.seen[i].1.clone();
            return borrow(c, ty, l);
        }
    }
    let t = &mut c.t;
    let jac2 = |p: P2, z: Fq2| -> Vec<u64> { RVal::G2(p).leaves_with(Z(if z.is_zero() { Fq2::one() } else { z })) };
    match ty {
        Ty::Fr => {
            let old = gen_sc(t).to_mont();
            bad_coord(t, &old, &R).to_vec()
        }
        Ty::G1 => match t.below(4) {
            // any x and y: a point of some other curve
            0 => {
                let (x, y) = (gen_f::<MQ>(t), gen_f::<MQ>(t));
                let mut z = gen_f::<MQ>(t);
                if z.is_zero() {
                    z = Fq::one();
                }
                RVal::G1(Pt(x, y, Fq::one())).leaves_with(Z(Fq2(z, Fq::zero())))
            }
            // right x, wrong y
            1 => {
                let p = foreign_g1(t);
                RVal::G1(Pt(p.0, p.1.add(&Fq::one()), Fq::one())).leaves()
            }
            // affine coordinates with an unrelated z
            2 => {
                let p = RVal::G1(foreign_g1(t)).leaves();
                let mut l = p;
                l[8..12].copy_from_slice(&gen_f::<MQ>(t).to_mont());
                l
            }
            // identity with any x, y
            _ => {
                let mut l = gen_f::<MQ>(t).to_mont().to_vec();
                l.extend_from_slice(&gen_f::<MQ>(t).to_mont());
                l.extend_from_slice(&[0; 4]);
                l
            }
        },
        Ty::G2 => match t.below(7) {
            // on the twist, outside the subgroup
            0 => {
                let p = foreign_g2(t, false);
                let z = fq2_rand(t);
                jac2(p, z)
            }
            // only the cofactor part
            1 => {
                let p = foreign_g2(t, false).mul_l(&R);
                let z = fq2_rand(t);
                jac2(p, z)
            }
            // member plus cofactor part
            2 => {
                let p = foreign_g2(t, false).mul_l(&R).add(&P2::gen().mul(&gen_sc(t)));
                jac2(p, Fq2::one())
            }
            // small-order point (the cofactor is divisible by 10069)
            3 => {
                let p = foreign_g2(t, false).mul_l(&R).mul_l(&COFACTOR_OVER_10069);
                jac2(p, Fq2::one())
            }
            4 => {
                let (x, y) = (fq2_rand(t), fq2_rand(t));
                RVal::G2(Pt(x, y, Fq2::one())).leaves()
            }
            // coordinates of a G1 point: on y^2 = x^3 + 3, not on the twist
            5 => {
                let p = foreign_g1(t);
                RVal::G2(Pt(Fq2(p.0, Fq::zero()), Fq2(p.1, Fq::zero()), Fq2::one())).leaves()
            }
            _ => {
                let mut l = Vec::new();
                for _ in 0..4 {
                    l.extend_from_slice(&gen_f::<MQ>(t).to_mont());
                }
                l.extend_from_slice(&[0; 8]);
                l
            }
        },
        Ty::Gt => {
            let mut x = F12::one();
            match t.below(8) {
                0 => x = F12::zero(),
                1 => {
                    for i in 0..6 {
                        x.0[i] = fq2_rand(t);
                    }
                }
                2 => x.0[0] = Fq2(Fq::one().neg(), Fq::zero()),
                // unitary: conj(f)/f
                3 => {
                    for i in 0..6 {
                        x.0[i] = fq2_rand(t);
                    }
                    if let Some(i) = x.inv() {
                        x = x.conj().mul(&i);
                    }
                }
                // cyclotomic, not of order r
                4 => {
                    for i in 0..6 {
                        x.0[i] = fq2_rand(t);
                    }
                    if let Some(i) = x.inv() {
                        x = x.conj().mul(&i);
                        x = x.frob2().mul(&x);
                    }
                }
                // subfields
                5 => x.0[0] = fq2_rand(t),
                6 => {
                    for i in [0, 2, 4] {
                        x.0[i] = fq2_rand(t);
                    }
                }
                // member times something small
                _ => {
                    x = e_gen().pow_sc(&gen_sc(t));
                    let k = Fq2(gen_f::<MQ>(t), Fq::zero());
                    for i in 0..6 {
                        x.0[i] = x.0[i].mul(&k);
                    }
                }
            }
            RVal::Gt(x).leaves()
        }
    }
}
/// Shares some of the coordinates of a genuine record.
fn borrow(c: &mut Ctx, ty: Ty, l: Vec<u64>) -> Vec<u64> {
    c.fault("borrowed coordinates");
    let t = &mut c.t;
    let f = |l: &[u64]| Fq::from_mont(&[l[0], l[1], l[2], l[3]]).unwrap_or(Fq::one());
    let n = l.len();
    let mut o = l.clone();
    match ty {
        Ty::Fr => (),
        Ty::G1 | Ty::G2 => {
            let w = n / 3;
            match t.below(4) {
                0 if ty == Ty::G2 => {
                    // same x, other y and z, on the curve
                    let x = Fq2(f(&l[0..4]), f(&l[4..8]));
                    let x3 = x.mul(&x).mul(&x);
                    let mut z = fq2_rand(t);
                    for _ in 0..64 {
                        let z3 = z.mul(&z).mul(&z);
                        if let Some(y) = x3.add(&<Fq2 as Curve>::b().mul(&z3).mul(&z3)).sqrt() {
                            if !z.is_zero() {
                                for (k, q) in [y.0, y.1, z.0, z.1].iter().enumerate() {
                                    o[8 + 4 * k..12 + 4 * k].copy_from_slice(&q.to_mont());
                                }
                                break;
                            }
                        }
                        z = z.add(&Fq2::one());
                    }
                }
                k => {
                    // one coordinate replaced
                    let k = k.min(2);
                    for q in 0..w / 4 {
                        let x = gen_f::<MQ>(t);
                        o[k * w + 4 * q..k * w + 4 * q + 4].copy_from_slice(&x.to_mont());
                    }
                }
            }
        }
        Ty::Gt => {
            // halves, thirds or single coefficients replaced or exchanged
            let w = [24, 8, 4][t.below(3)];
            let (i, j) = (t.below(n / w) * w, t.below(n / w) * w);
            if i != j && t.chance(500) {
                for q in 0..w {
                    o.swap(i + q, j + q);
                }
            } else {
                for q in 0..w / 4 {
                    let x = gen_f::<MQ>(t);
                    o[i + 4 * q..i + 4 * q + 4].copy_from_slice(&x.to_mont());
                }
            }
        }
    }
    o
}
const COFACTOR_OVER_10069: [u64; 4] = include!("cofactor.in");

/// A record as it may arrive: encoding of a member, then damaged; or forged.
pub fn record(c: &mut Ctx, ty: Ty) -> (Codec, Vec<u8>) {
    let s = c.t.open();
    let codec = c.t.pick(sut::CODECS);
    let forged = c.t.chance(450);
    let mut l = if forged {
        c.fault("forged coordinates");
        forge(c, ty)
    } else {
        let r = gen_rval(c, ty);
        if ty == Ty::G1 || ty == Ty::G2 {
            r.leaves_with(gen_z_of(&mut c.t, &r))
        } else {
            r.leaves()
        }
    };
    if !forged {
        c.seen.push((ty, l.clone()));
    }
    let m = if ty == Ty::Fr { R } else { Q };
    let nf = l.len() / 4;
    let k = c.t.below(4);
    for _ in 0..k {
        let w = c.t.below(8);
        match w {
            0 | 1 => {
                let i = c.t.below(nf);
                let b = bad_coord(&mut c.t, &l[i * 4..i * 4 + 4].to_vec(), &m);
                l[i * 4..i * 4 + 4].copy_from_slice(&b);
                c.fault("overwritten coordinates");
            }
            2 => {
                for _ in 0..1 + c.t.below(3) {
                    let i = c.t.below(l.len());
                    l[i] ^= 1 << c.t.draw(64);
                }
                c.fault("bit flips");
            }
            3 => {
                let (i, j) = (c.t.below(nf), c.t.below(nf));
                for q in 0..4 {
                    l.swap(i * 4 + q, j * 4 + q);
                }
                c.fault("swapped sectors");
            }
            4 => {
                let i = c.t.below(nf);
                l[i * 4..i * 4 + 4].iter_mut().for_each(|x| *x = 0);
                c.fault("zeroed sectors");
            }
            5 => {
                // tail of another record of the same type
                let o = gen_rval(c, ty).leaves();
                let i = c.t.below(nf) * 4;
                l[i..].copy_from_slice(&o[i..]);
                c.fault("spliced records");
            }
            6 => {
                let (i, j) = (c.t.below(l.len()), c.t.below(l.len()));
                l.swap(i, j);
                c.fault("swapped words");
            }
            _ => {
                let i = c.t.below(l.len());
                l[i] = l[i].swap_bytes();
                c.fault("byte order");
            }
        }
    }
    let mut b = ref_encode(codec, ty, &l);
    let k = [0, 0, 0, 1, 2, 3][c.t.below(6)];
    for _ in 0..k {
        if b.is_empty() {
            break;
        }
        match c.t.below(7) {
            0 => {
                let i = c.t.below(b.len());
                b[i] ^= 1 << c.t.draw(8);
                c.fault("byte damage");
            }
            1 => {
                let i = c.t.below(b.len());
                b[i] = c.t.bits() as u8;
                c.fault("byte damage");
            }
            2 => {
                let n = c.t.below(b.len());
                b.truncate(n);
                c.fault("truncated records");
            }
            3 => {
                let n = 1 + c.t.below(20);
                for _ in 0..n {
                    let x = c.t.bits() as u8;
                    b.push(x);
                }
                c.fault("extended records");
            }
            4 => {
                let i = c.t.below(b.len());
                b.remove(i);
                c.fault("lost bytes");
            }
            5 => {
                let i = c.t.below(b.len());
                let x = [b'0', b'9', b'[', b']', b'-', b'.', b'"', b',', 0, 0xff][c.t.below(10)];
                b.insert(i, x);
                c.fault("inserted bytes");
            }
            _ => {
                // shifted copy
                let i = c.t.below(b.len());
                let tail = b[i..].to_vec();
                b.extend_from_slice(&tail);
                c.fault("duplicated tails");
            }
        }
    }
    if codec == Codec::Json && c.t.chance(200) {
        b = json_mischief(c, b, ty);
    }
    c.t.close(s);
    (codec, b)
}
fn json_mischief(c: &mut Ctx, b: Vec<u8>, ty: Ty) -> Vec<u8> {
    c.fault("json mischief");
    let s = String::from_utf8_lossy(&b).to_string();
    let r = match c.t.below(12) {
        0 => s.replacen(",", ",0,", 1),
        1 => s.replacen("[", "[18446744073709551616,", 1),
        2 => s.replacen("[", "[-1,", 1),
        3 => s.replacen("[", "[1.0,", 1),
        4 => s.replacen("\"c1\"", "\"c0\"", 1).replacen("\"z\"", "\"x\"", 1),
        5 => s.replacen("{", "{\"w\":1,", 1),
        6 => format!("{}{}", "[".repeat(60), s),
        7 => "[".repeat(300),
        8 | 9 | 10 => {
            // a number, or the numbers to the end of one array, are lost
            let ends: Vec<usize> = s.char_indices().filter(|(_, x)| *x == ',' || *x == ']').map(|(i, _)| i).collect();
            if ends.is_empty() {
                return b;
            }
            let k = c.t.below(ends.len());
            let to = ends[k];
            let whole = c.t.chance(300);
            let from = s[..to].rfind(|x| x == '[' || (x == ',' && !whole)).unwrap_or(0);
            if s[from..].starts_with('[') && s[to..].starts_with(',') {
                format!("{}{}", &s[..from + 1], &s[to + 1..])
            } else if s[from..].starts_with('[') {
                format!("{}{}", &s[..from + 1], &s[to..])
            } else {
                format!("{}{}", &s[..from], &s[to..])
            }
        }
        _ => {
            // structs as arrays
            let _ = ty;
            let mut o = String::new();
            let mut skip = false;
            for ch in s.chars() {
                match ch {
                    '{' => o.push('['),
                    '}' => o.push(']'),
                    '"' => skip = !skip,
                    ':' => (),
                    ch if !skip => o.push(ch),
                    _ => (),
                }
            }
            o
        }
    };
    r.into_bytes()
}
