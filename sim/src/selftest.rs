//! Checks of the machinery itself: reference model against the library on plain inputs, and the model's own laws.
use crate::model::*;
use crate::refmath::*;
use simcalls as sut;
use simcalls::{Ty, Val};
use std::time::Instant;

pub fn main() {
    let t0 = Instant::now();
    let g2 = P2::gen();
    assert!(g2.on_curve() && g2.in_group());
    assert!(P1::gen().on_curve() && P1::gen().in_group());
    for ty in sut::TYS {
        let v = observe(&sut::base(ty)).unwrap();
        assert!(v == RVal::base(ty), "generator {:?}", ty);
        let v = observe(&sut::zero(ty)).unwrap();
        assert!(v == RVal::zero(ty), "identity {:?}", ty);
    }
    println!("generators and pairing agree {:?}", t0.elapsed());
    let mut t = crate::tape::Tape::seeded(7);
    let mut times = [std::time::Duration::ZERO; 10];
    for i in 0..40 {
        let (a, b) = (gen_sc(&mut t), gen_sc(&mut t));
        let (fa, fb) = (sut::fr_from_slice(&a.to_be()).unwrap(), sut::fr_from_slice(&b.to_be()).unwrap());
        for (k, ty) in sut::TYS.iter().enumerate() {
            let s = Instant::now();
            let m = RVal::base(*ty).act(&a);
            times[k] += s.elapsed();
            let s = Instant::now();
            let l = sut::act(&sut::base(*ty), fa);
            times[k + 4] += s.elapsed();
            assert!(observe(&l).unwrap() == m, "act {:?} {}", ty, i);
            let m2 = m.add(&RVal::base(*ty).act(&b));
            let l2 = sut::add(&l, &sut::act(&sut::base(*ty), fb));
            assert!(observe(&l2).unwrap() == m2, "add {:?} {}", ty, i);
        }
        let _ = (fb, Ty::Fr);
        if i < 6 {
            let (p, q) = (P1::gen().mul(&a), P2::gen().mul(&b));
            let s = Instant::now();
            let e = pairing(&p, &q);
            times[8] += s.elapsed();
            let (lp, lq) = (sut::from_leaves(Ty::G1, &RVal::G1(p).leaves()).unwrap(), sut::from_leaves(Ty::G2, &RVal::G2(q).leaves()).unwrap());
            if let (Val::G1(x), Val::G2(y)) = (lp, lq) {
                let s = Instant::now();
                let z = sut::pairing(x, y);
                times[9] += s.elapsed();
                assert!(observe(&Val::Gt(z)).unwrap() == RVal::Gt(e), "pairing {}", i);
                assert!(RVal::Gt(e) == RVal::Gt(e_gen().pow_sc(&a.mul(&b))), "model bilinear");
            }
        }
    }
    println!("model act fr/g1/g2/gt, library act, pairing model, pairing library: {:?}", times.map(|d| d / 40));
    let s = Instant::now();
    assert!(RVal::Gt(e_gen()).member());
    println!("gt member {:?}", s.elapsed());
    let s = Instant::now();
    for _ in 0..10 {
        let p = foreign_g1(&mut t);
        assert!(p.on_curve());
    }
    println!("foreign g1 {:?}", s.elapsed() / 10);
    let s = Instant::now();
    for _ in 0..10 {
        let p = foreign_g2(&mut t, true);
        assert!(p.on_curve() && p.in_group());
    }
    println!("foreign g2 {:?}", s.elapsed() / 10);
    let s = Instant::now();
    let (mut real, mut imaginary, mut same) = (0, 0, 0);
    for i in 0..400 {
        let m = RVal::base([Ty::G1, Ty::G2][i % 2]).act(&gen_sc_nz(&mut t));
        let l = m.leaves_with(gen_z_of(&mut t, &m));
        assert!(RVal::from_leaves(m.ty(), &l) == Ok(m));
        let (w, n) = (l.len() / 3, |x: &[u64]| x.iter().all(|y| *y == 0));
        if m.ty() == Ty::G2 {
            real += (n(&l[4..8]) || n(&l[12..16])) as u32;
            imaginary += (n(&l[0..4]) || n(&l[8..12])) as u32;
        }
        same += (l[..w] == l[w..2 * w] || l[w..2 * w] == l[2 * w..] || l[..w] == l[2 * w..]) as u32;
    }
    println!("chosen coordinates {:?}: {} real, {} imaginary, {} repeated", s.elapsed() / 400, real, imaginary, same);
    assert!(real > 5 && imaginary > 5 && same > 5);
    println!("selftest ok");
}
