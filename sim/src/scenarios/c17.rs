//! Registers of wide integers with checkpoints, killed and resumed at arbitrary points.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::debug_numbers;
use crate::refmath::{cmp4, mul_wide, sub4};
use crate::rng::*;
use simcalls as sut;
use simcalls::{Wide, A4, A8, W256};
use std::cmp::Ordering;

const PRIMES: [A4; 6] = [
    sut::R_LIMBS,
    sut::Q_LIMBS,
    [0xffff_ffff_ffff_fff7, u64::MAX, u64::MAX, 0x07ff_ffff_ffff_ffff], // 2^251 - 9
    [u64::MAX, 0x7fff_ffff_ffff_ffff, 0, 0],                            // 2^127 - 1
    [0x1fff_ffff_ffff_ffff, 0, 0, 0],                                   // 2^61 - 1
    [65537, 0, 0, 0],
];
/// Remainder, bit by bit.
fn rem(a: &[u64], m: &A4) -> A4 {
    let mut r = [0u64; 4];
    for i in (0..a.len() * 64).rev() {
        // r < m < 2^254
        for k in (1..4).rev() {
            r[k] = r[k] << 1 | r[k - 1] >> 63;
        }
        r[0] = r[0] << 1 | (a[i / 64] >> (i % 64) & 1);
        if cmp4(&r, m) != Ordering::Less {
            r = sub4(&r, m).0;
        }
    }
    r
}
fn add_wide(a: &[u64], b: &[u64]) -> A8 {
    let mut o = [0u64; 8];
    let mut c = 0u128;
    for i in 0..8 {
        c += a.get(i).copied().unwrap_or(0) as u128 + b.get(i).copied().unwrap_or(0) as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    o
}
fn times(a: &A4, b: &A4) -> A8 {
    let mut o = [0u64; 8];
    mul_wide(a, b, &mut o);
    o
}
fn limb(c: &mut Ctx) -> u64 {
    match c.t.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << c.t.draw(64),
        4 => (1u64 << c.t.draw(64)) - 1,
        5 => [0xffff_ffff, 0x1_0000_0000, 0xffff_ffff_0000_0000, 1 << 63][c.t.below(4)],
        _ => c.t.bits(),
    }
}
/// A residue; often just below the modulus or small.
fn residue(c: &mut Ctx, m: &A4) -> A4 {
    let s = c.t.open();
    let small = c.t.draw(4);
    let l = match c.t.below(5) {
        0 => [small, 0, 0, 0],
        1 => sub4(m, &[1 + small, 0, 0, 0]).0,
        2 => {
            // near half, a third .. of the modulus
            let mut l = *m;
            for _ in 0..=small {
                for k in 0..4 {
                    l[k] = l[k] >> 1 | if k < 3 { l[k + 1] << 63 } else { 0 };
                }
            }
            l
        }
        _ => [limb(c), limb(c), limb(c), limb(c)],
    };
    c.t.close(s);
    rem(&l, m)
}
fn wide8(c: &mut Ctx, m: &A4) -> A8 {
    let s = c.t.open();
    let r = match c.t.below(4) {
        0 | 1 => {
            let mut o = [0u64; 8];
            for x in o.iter_mut() {
                *x = limb(c);
            }
            o
        }
        2 => {
            // about m^2: where the quotient stops being below the modulus
            let mut o = times(m, m);
            let d = [c.t.draw(3), 0, 0, 0];
            if c.t.chance(500) {
                o = add_wide(&o, &d);
            } else {
                let mut b = 0u64;
                for k in 0..8 {
                    let (x, b1) = o[k].overflowing_sub(*d.get(k).unwrap_or(&0));
                    let (x, b2) = x.overflowing_sub(b);
                    o[k] = x;
                    b = (b1 || b2) as u64;
                }
            }
            o
        }
        _ => {
            let (x, y) = (residue(c, m), residue(c, m));
            times(&x, &y)
        }
    };
    c.t.close(s);
    r
}

#[derive(Clone, Debug)]
enum Op {
    Load(usize, A4, bool),
    LoadBig(usize, A8, usize),
    Random(usize, u64),
    RandomBig(usize, u64),
    Add(usize, usize, usize),
    Sub(usize, usize, usize),
    Neg(usize, usize),
    Mul(usize, usize, usize),
    MulLow(usize, usize, usize), // an operand that is not reduced
    Invert(usize, usize),
    SetBit(usize, usize, bool),
    GetBit(usize, usize),
    GetBitBig(usize, usize),
    Bits(usize),
    Compare(usize, usize),
    Compose(usize, usize, usize),
    DivRem(usize, usize, usize),
    Export(usize, bool),
    Recode(usize, bool),
    BadSlice(usize),
}
const NA: usize = 4;
const NB: usize = 3;
#[derive(Clone, PartialEq, Debug)]
struct Machine {
    a: [A4; NA],
    b: [A8; NB],
}
struct World {
    m: A4,
    inv: u64,
    r_mod: A4, // 2^256 mod m
    prime: bool,
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got != want {
        return viol("wrong-integer", format!("{} gives {:x?}, it is {:x?}", what, got, want));
    }
    Ok(())
}
fn encode(c: &mut Ctx, v: &Wide) -> Res<(sut::Codec, Vec<u8>)> {
    let codec = c.t.pick(sut::CODECS);
    let mut w = SimWriter::new(ragged_plan(&mut c.t));
    match guard("encode", || sut::wide_encode(codec, v, &mut w))? {
        Ok(()) => Ok((codec, w.got)),
        Err(e) => viol("encode-failed", format!("{:x?}: {}", v, e)),
    }
}
fn decode(c: &mut Ctx, codec: sut::Codec, b: &[u8], like: &Wide) -> Res<Wide> {
    let mut r = SimReader::new(b, ragged_plan(&mut c.t));
    match guard("decode", || sut::wide_decode(codec, matches!(like, Wide::B(_)), &mut r))? {
        Ok(v) => {
            same("a decoded integer", v, *like)?;
            Ok(v)
        }
        Err(e) => viol("decode-failed", format!("{:x?}: {}", like, e)),
    }
}
fn exec(c: &mut Ctx, w: &World, x: &mut Machine, op: &Op) -> Res {
    let m = W256(w.m);
    match op.clone() {
        Op::Load(d, l, slice) => {
            if slice {
                let b: Vec<u8> = l.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
                same("from_slice", guard("from_slice", || sut::wide_from_slice(&b))?, Some(l))?;
            } else {
                same("from", guard("from", || W256::from(l).0)?, l)?;
            }
            x.a[d] = l;
        }
        Op::LoadBig(d, l, way) => {
            match way {
                0 => (),
                1 => {
                    let mut b = [0u8; 64];
                    for i in 0..8 {
                        b[i * 8..i * 8 + 8].copy_from_slice(&l[7 - i].to_be_bytes());
                    }
                    same("interpret", guard("interpret", || sut::wide_interpret(&b))?, l)?;
                }
                _ => {
                    // words, each little-endian, together a big-endian integer; missing ones are zero, surplus is ignored
                    let n = [8, 8, 7, 1, 0, 9][way - 2];
                    let mut ws: Vec<u64> = (0..8).map(|i| l[7 - i].swap_bytes()).collect();
                    ws.resize(n, 0x1122_3344_5566_7788);
                    let mut want = l;
                    for i in n..8 {
                        want[7 - i] = 0;
                    }
                    same("collect", guard("collect", || sut::wide_collect(ws))?, want)?;
                }
            }
            x.b[d] = l;
        }
        Op::Random(d, seed) => {
            let f = || sut::wide_random(m, &mut SimRng::new(Source::Good(seed)));
            let l = guard("random", f)?;
            if cmp4(&l, &w.m) != Ordering::Less {
                return viol("not-reduced", format!("random below {:x?} gives {:x?}", w.m, l));
            }
            same("random from the same source", guard("random", f)?, l)?;
            x.a[d] = l;
        }
        Op::RandomBig(d, seed) => {
            let f = || sut::wide_random_big(&mut SimRng::new(Source::Good(seed)));
            let l = guard("random", f)?;
            same("random from the same source", guard("random", f)?, l)?;
            x.b[d] = l;
        }
        Op::Add(d, a, b) => {
            let got = guard("add", || sut::wide_add(W256(x.a[a]), W256(x.a[b]), m))?;
            same("add", got, rem(&add_wide(&x.a[a], &x.a[b]), &w.m))?;
            x.a[d] = got;
        }
        Op::Sub(d, a, b) => {
            let got = guard("sub", || sut::wide_sub(W256(x.a[a]), W256(x.a[b]), m))?;
            same("sub", got, rem(&add_wide(&x.a[a], &sub4(&w.m, &x.a[b]).0), &w.m))?;
            x.a[d] = got;
        }
        Op::Neg(d, a) => {
            let got = guard("neg", || sut::wide_neg(W256(x.a[a]), m))?;
            same("neg", got, rem(&sub4(&w.m, &x.a[a]).0, &w.m))?;
            x.a[d] = got;
        }
        Op::Mul(..) | Op::MulLow(..) => {
            let (d, l, b) = match *op {
                Op::Mul(d, a, b) => (d, x.a[a], b),
                Op::MulLow(d, a, b) => (d, [x.b[a][0], x.b[a][1], x.b[a][2], x.b[a][3]], b),
                _ => unreachable!(),
            };
            let got = guard("mul", || sut::wide_mul(W256(l), W256(x.a[b]), m, w.inv))?;
            if cmp4(&got, &w.m) != Ordering::Less {
                return viol("not-reduced", format!("mul of {:x?} and {:x?} modulo {:x?} gives {:x?}", l, x.a[b], w.m, got));
            }
            // got * 2^256 = l * b
            same("mul, times 2^256,", rem(&times(&got, &w.r_mod), &w.m), rem(&times(&l, &x.a[b]), &w.m))?;
            x.a[d] = got;
        }
        Op::Invert(d, a) => {
            if w.prime && x.a[a] != [0; 4] {
                let got = guard("invert", || sut::wide_invert(W256(x.a[a]), m))?;
                if cmp4(&got, &w.m) != Ordering::Less {
                    return viol("not-reduced", format!("inverse of {:x?} modulo {:x?} is {:x?}", x.a[a], w.m, got));
                }
                same("invert, times the number,", rem(&times(&got, &x.a[a]), &w.m), [1, 0, 0, 0])?;
                x.a[d] = got;
            }
        }
        Op::SetBit(d, n, to) => {
            let mut want = x.a[d];
            if n < 256 {
                want[n / 64] = want[n / 64] & !(1 << (n % 64)) | (to as u64) << (n % 64);
            }
            same("set_bit", guard("set_bit", || sut::wide_set_bit(W256(x.a[d]), n, to))?, (want, n < 256))?;
            // reduce it again
            let big = [want[0], want[1], want[2], want[3], 0, 0, 0, 0];
            let got = guard("divrem", || sut::wide_divrem(big, m))?.1;
            same("divrem, remainder,", got, rem(&want, &w.m))?;
            x.a[d] = got;
        }
        Op::GetBit(a, n) => {
            let want = if n < 256 { Some(x.a[a][n / 64] >> (n % 64) & 1 == 1) } else { None };
            same("get_bit", guard("get_bit", || W256(x.a[a]).get_bit(n))?, want)?;
        }
        Op::GetBitBig(a, n) => {
            let want = if n < 512 { Some(x.b[a][n / 64] >> (n % 64) & 1 == 1) } else { None };
            same("get_bit", guard("get_bit", || sut::W512(x.b[a]).get_bit(n))?, want)?;
        }
        Op::Bits(a) => {
            let l = x.a[a];
            let want: Vec<bool> = (0..256).rev().map(|i| l[i / 64] >> (i % 64) & 1 == 1).collect();
            same("bits", guard("bits", || sut::wide_bits(W256(l)))?, want)?;
            same("is_even", W256(l).is_even(), l[0] % 2 == 0)?;
            same("is_zero", W256(l).is_zero(), l == [0; 4])?;
            same("zero", W256::zero().0, [0; 4])?;
            same("one", W256::one().0, [1, 0, 0, 0])?;
        }
        Op::Compare(a, b) => {
            let o = cmp4(&x.a[a], &x.a[b]);
            same("cmp", guard("cmp", || sut::wide_cmp(W256(x.a[a]), W256(x.a[b])))?, (o, Some(o)))?;
            same("==", sut::wide_eq(&Wide::A(x.a[a]), &Wide::A(x.a[b])), o == Ordering::Equal)?;
            let (p, q) = (x.b[a % NB], x.b[b % NB]);
            same("==", sut::wide_eq(&Wide::B(p), &Wide::B(q)), p == q)?;
        }
        Op::Compose(d, a, b) => {
            let got = guard("compose", || sut::wide_compose(W256(x.a[a]), W256(x.a[b]), m))?;
            same("from(c1, c0)", got, add_wide(&times(&x.a[a], &w.m), &x.a[b]))?;
            x.b[d] = got;
        }
        Op::DivRem(a, d, e) => {
            let (q, r) = guard("divrem", || sut::wide_divrem(x.b[a], m))?;
            same("divrem, remainder,", r, rem(&x.b[a], &w.m))?;
            // below m^2 the quotient is below the modulus
            let small = {
                let mm = times(&w.m, &w.m);
                (0..8).rev().map(|i| x.b[a][i].cmp(&mm[i])).find(|o| *o != Ordering::Equal) == Some(Ordering::Less)
            };
            match (q, small) {
                (Some(q), true) => {
                    same("divrem, quotient times modulus plus remainder,", add_wide(&times(&q, &w.m), &r), x.b[a])?;
                    if cmp4(&q, &w.m) != Ordering::Less {
                        return viol("wrong-integer", format!("quotient {:x?} for the modulus {:x?}", q, w.m));
                    }
                    x.a[e] = q;
                }
                (None, false) => (),
                (q, _) => return viol("wrong-integer", format!("divrem of {:x?} by {:x?} gives the quotient {:x?}", x.b[a], w.m, q)),
            }
            x.a[d] = r;
        }
        Op::Export(a, big) => {
            let v = if big { Wide::B(x.b[a % NB]) } else { Wide::A(x.a[a]) };
            let l: Vec<u64> = match v {
                Wide::A(l) => l.to_vec(),
                Wide::B(l) => l.to_vec(),
            };
            if let Wide::A(l) = v {
                same("into_bytes", guard("into_bytes", || W256(l).into_bytes())?, l.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>())?;
            }
            same("debug", debug_numbers(&guard("debug", || sut::wide_debug(&v))?), l)?;
        }
        Op::Recode(a, big) => {
            let v = if big { Wide::B(x.b[a % NB]) } else { Wide::A(x.a[a]) };
            let (codec, b) = encode(c, &v)?;
            decode(c, codec, &b, &v)?;
            // torn anywhere it is no integer
            let cut = c.t.below(b.len());
            let mut r = SimReader::new(&b[..cut], ragged_plan(&mut c.t));
            if let Ok(y) = guard("decode", || sut::wide_decode(codec, big, &mut r))? {
                return viol("torn-accepted", format!("{} of {} bytes decode to {:x?}", cut, b.len(), y));
            }
            c.fault("torn writes");
        }
        Op::BadSlice(n) => {
            let got = guard("from_slice", || sut::wide_from_slice(&vec![7u8; n]))?;
            same("from_slice of another length", got.is_some(), n == 32)?;
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let pick = c.t.below(10);
    let (m, prime) = if pick < 6 {
        (PRIMES[pick], true)
    } else {
        let s = c.t.open();
        let k = 1 + c.t.below(4);
        let mut l = [0u64; 4];
        for x in l.iter_mut().take(k) {
            *x = limb(c);
        }
        l[0] |= 3;
        l[3] &= 0x3fff_ffff_ffff_ffff;
        c.t.close(s);
        (l, false)
    };
    let mut inv = 1u64;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
    }
    let w = World { m, inv: inv.wrapping_neg(), r_mod: rem(&[0, 0, 0, 0, 1], &m), prime };
    let wt: [u64; 20] = [[6, 3, 2, 2, 6, 6, 3, 6, 3, 3, 2, 2, 1, 2, 3, 4, 5, 2, 3, 1], [4, 4, 1, 1, 1, 1, 1, 1, 3, 1, 6, 6, 6, 4, 4, 4, 6, 3, 3, 2]][c.t.below(2)];
    let n = 6 + c.t.below(if c.thorough { 150 } else { 50 });
    let mut prog = vec![];
    for _ in 0..n {
        let s = c.t.open();
        let (d, a, b) = (c.t.below(NA), c.t.below(NA), c.t.below(NA));
        let bit = |c: &mut Ctx, top: usize| match c.t.below(3) {
            0 => c.t.below(top),
            1 => c.t.below(top / 64) * 64 + [0, 1, 31, 32, 62, 63][c.t.below(6)],
            _ => [top, top - 1, top + 1, 0, 2 * top, usize::MAX][c.t.below(6)],
        };
        let op = match c.t.weighted(&wt) {
            0 => {
                let l = residue(c, &m);
                Op::Load(d, l, c.t.chance(500))
            }
            1 => {
                let l = wide8(c, &m);
                Op::LoadBig(d % NB, l, c.t.below(8))
            }
            2 => Op::Random(d, c.t.bits()),
            3 => Op::RandomBig(d % NB, c.t.bits()),
            4 => Op::Add(d, a, b),
            5 => Op::Sub(d, a, b),
            6 => Op::Neg(d, a),
            7 => Op::Mul(d, a, b),
            8 => Op::MulLow(d, a % NB, b),
            9 => Op::Invert(d, a),
            10 => {
                let n = bit(c, 256);
                Op::SetBit(d, n, c.t.chance(500))
            }
            11 => Op::GetBit(a, bit(c, 256)),
            12 => Op::GetBitBig(a % NB, bit(c, 512)),
            13 => Op::Bits(a),
            14 => Op::Compare(a, b),
            15 => Op::Compose(d % NB, a, b),
            16 => Op::DivRem(a % NB, d, b),
            17 => Op::Export(a, d % 2 == 1),
            18 => Op::Recode(a, d % 2 == 1),
            _ => Op::BadSlice([0, 1, 8, 31, 32, 33, 64, 255, 256][c.t.below(9)]),
        };
        c.t.close(s);
        prog.push(op);
    }
    ev!(c, "modulus {:x?}, program of {} operations", m, prog.len());
    let zero = Machine { a: [[0; 4]; NA], b: [[0; 8]; NB] };
    let mut x = zero.clone();
    for (pc, op) in prog.iter().enumerate() {
        exec(c, &w, &mut x, op)?;
        ev!(c, "{} {:x?}", pc, op);
    }
    c.add("operations", prog.len() as u64);
    // the same with checkpoints and crashes
    let crash = [0u64, 50, 150][c.t.below(3)];
    let mut y = zero.clone();
    let mut disk: Vec<(sut::Codec, Vec<u8>)> = vec![];
    let (mut pc, mut at, mut shadow) = (0, 0, zero.clone());
    let mut crashes = 0;
    while pc < prog.len() {
        exec(c, &w, &mut y, &prog[pc])?;
        pc += 1;
        if c.t.chance(200) {
            disk.clear();
            for v in y.a.iter().map(|l| Wide::A(*l)).chain(y.b.iter().map(|l| Wide::B(*l))) {
                disk.push(encode(c, &v)?);
            }
            c.hit("checkpoints");
            at = pc;
            shadow = y.clone();
        }
        if crashes < 4 && c.t.chance(crash) {
            crashes += 1;
            c.fault("crashes");
            ev!(c, "crash at {}, resume at {}", pc, at);
            c.now += 1000;
            y = shadow.clone();
            for (i, (codec, b)) in disk.clone().iter().enumerate() {
                if i < NA {
                    let like = Wide::A(y.a[i]);
                    if let Wide::A(l) = decode(c, *codec, b, &like)? {
                        y.a[i] = l;
                    }
                } else {
                    let like = Wide::B(y.b[i - NA]);
                    if let Wide::B(l) = decode(c, *codec, b, &like)? {
                        y.b[i - NA] = l;
                    }
                }
            }
            pc = at;
        }
    }
    if x != y {
        return viol("resumed-differs", format!("resumed {:x?}, uninterrupted {:x?}", y, x));
    }
    Ok(())
}
