//! Aggregate signatures: signers, an aggregator and verifiers on a faulty network, some of the signers dishonest.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::refmath::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Ty, Val};

#[derive(Clone)]
enum Msg {
    Share { who: usize, what: usize, codec: Codec, b: Vec<u8> },
    Bundle { id: usize, codec: Codec, b: Vec<u8> },
}
#[derive(Copy, Clone, Debug, PartialEq)]
enum Fraud {
    None,
    Negated,
    Doubled,
    Identity,
    OtherMessage,
    OtherSigner,
    Shifted,
    Random,
}
const FRAUDS: [Fraud; 8] = [Fraud::None, Fraud::Negated, Fraud::Doubled, Fraud::Identity, Fraud::OtherMessage, Fraud::OtherSigner, Fraud::Shifted, Fraud::Random];
struct World {
    sig: Ty,
    key: Ty,
    sk: Vec<Tv>,
    pk: Vec<Tv>,
    h: Vec<Tv>,
}
/// A claim: these signers signed these messages, and this is the aggregate.
struct Claim {
    set: Vec<(usize, usize)>,
    sig: Tv,
    verdicts: Vec<bool>,
}
fn e(w: &World, h: &Tv, k: &Tv) -> Res<Tv> {
    let (p, q) = if w.sig == Ty::G1 { (h, k) } else { (k, h) };
    if k2(p, q, |a, _| *a).is_some() {
        return pair(p, q);
    }
    // unknown logarithm: the verdict is judged, not each factor
    match (p.v, q.v) {
        (Val::G1(x), Val::G2(y)) => Ok(Tv { v: Val::Gt(guard("pairing", || sut::pairing(x, y))?), m: RVal::zero(Ty::Gt), k: None }),
        _ => viol("harness-types", "pairing"),
    }
}
fn mulgt(a: &Tv, b: &Tv) -> Res<Tv> {
    Ok(Tv { v: guard("mul", || sut::add(&a.v, &b.v))?, m: RVal::zero(Ty::Gt), k: None })
}
fn genuine(w: &World, set: &[(usize, usize)]) -> RVal {
    let mut m = RVal::zero(w.sig);
    for (s, i) in set {
        m = m.add(&w.h[*i].m.act(&w.sk[*s].sc()));
    }
    m
}
/// The verifier's decision, by one of the equations in use.
fn verify(c: &mut Ctx, w: &World, set: &[(usize, usize)], sig: &Tv) -> Res<bool> {
    c.hit("verifications");
    let one = base(w.key)?;
    let gt1 = guard("one", || sut::zero(Ty::Gt))?;
    let same_message = !set.is_empty() && set.iter().all(|x| x.1 == set[0].1);
    let form = c.t.below(4);
    let rhs = if same_message && c.t.chance(500) {
        let mut k = zero(w.key)?;
        for (s, _) in set {
            k = add(&k, &w.pk[*s])?;
        }
        vec![e(w, &w.h[set[0].1], &k)?]
    } else {
        let mut o = vec![];
        for (s, i) in set {
            o.push(e(w, &w.h[*i], &w.pk[*s])?);
        }
        o
    };
    let mut r = Tv { v: gt1, m: RVal::zero(Ty::Gt), k: None };
    let rev = c.t.chance(500);
    let n = rhs.len();
    for i in 0..n {
        r = mulgt(&r, &rhs[if rev { n - 1 - i } else { i }])?;
    }
    Ok(match form {
        0 | 1 => {
            let l = e(w, sig, &one)?;
            guard("eq", || if form == 0 { sut::eq(&l.v, &r.v) } else { !sut::ne(&r.v, &l.v) })?
        }
        2 => {
            let l = e(w, sig, &neg(&one)?)?;
            let x = mulgt(&l, &r)?;
            guard("eq", || sut::eq(&x.v, &gt1))?
        }
        _ => {
            let l = e(w, &neg(sig)?, &one)?;
            let x = mulgt(&r, &l)?;
            guard("eq", || sut::eq(&gt1, &x.v))?
        }
    })
}

pub fn run(c: &mut Ctx) -> Res {
    let (sig, key) = if c.t.chance(350) { (Ty::G2, Ty::G1) } else { (Ty::G1, Ty::G2) };
    let n = 2 + c.t.below(3);
    let nm = 1 + c.t.below(2);
    let nv = 1 + c.t.below(2);
    let mut w = World { sig, key, sk: vec![], pk: vec![], h: vec![] };
    for i in 0..n {
        let s = c.t.open();
        let k = if i > 0 && c.t.chance(250) {
            let a = w.sk[c.t.below(i)];
            let kind = [0, 1, 1, 1, 2, 3, 4, 5][c.t.below(8)];
            related_by(c, &a, kind)?
        } else {
            let s = if c.t.chance(950) { gen_sc_nz(&mut c.t) } else { Sc::zero() };
            scalar(c, &s)?
        };
        let mut p = act(&base(key)?, &k)?;
        // negated keys may come with the coordinates of the original
        for j in 0..i {
            if k.sc() == w.sk[j].sc().neg() && c.t.chance(600) {
                let x = shared_coords(c, &w.pk[j].clone())?;
                if x.m == p.m {
                    p = x;
                }
            }
        }
        c.t.close(s);
        w.sk.push(k);
        w.pk.push(p);
    }
    for i in 0..nm {
        let s = c.t.open();
        let h = if i > 0 && c.t.chance(150) {
            let a = w.h[0];
            let kind = [0, 1, 2, 3, 4, 6][c.t.below(6)];
            related_by(c, &a, kind)?
        } else {
            fresh(c, sig)?
        };
        c.t.close(s);
        w.h.push(h);
    }
    ev!(c, "{} signers, {} messages, signatures in {:?}", n, nm, sig);
    // the shares as sent
    let mut shares: Vec<Vec<(Tv, Fraud)>> = vec![];
    let dishonest = c.t.chance(600);
    for s in 0..n {
        let mut row = vec![];
        for i in 0..nm {
            let good = act(&w.h[i], &w.sk[s])?;
            let fraud = if dishonest && c.t.chance(300) { c.t.pick(&FRAUDS) } else { Fraud::None };
            let t = match fraud {
                Fraud::None => good,
                Fraud::Negated => neg(&good)?,
                Fraud::Doubled => add(&good, &good)?,
                Fraud::Identity => sub(&good, &good)?,
                Fraud::OtherMessage => act(&w.h[(i + 1) % nm], &w.sk[s])?,
                Fraud::OtherSigner => act(&w.h[i], &w.sk[(s + 1) % n])?,
                Fraud::Shifted => {
                    let b = base(sig)?;
                    if c.t.chance(500) { add(&good, &b)? } else { sub(&good, &b)? }
                }
                Fraud::Random => fresh(c, sig)?,
            };
            if fraud != Fraud::None {
                c.fault("forged shares");
                ev!(c, "signer {} sends a {:?} share of message {}", s, fraud, i);
            }
            let t = match c.t.below(4) {
                _ if fraud == Fraud::Negated && c.t.chance(500) => {
                    // in the coordinates of the genuine share
                    let x = shared_coords(c, &good)?;
                    if x.m == t.m { x } else { t }
                }
                1 => normal(&t)?,
                2 => rescale(c, &t)?,
                _ => t,
            };
            row.push((t, fraud));
        }
        shares.push(row);
    }
    // a colluding pair can cancel out: that must be accepted
    if dishonest && n > 1 && c.t.chance(150) {
        let d = fresh(c, sig)?;
        shares[0][0].0 = add(&shares[0][0].0, &d)?;
        shares[1][0].0 = sub(&shares[1][0].0, &d)?;
        c.fault("cancelling shares");
        ev!(c, "signers 0 and 1 cancel each other out");
    }
    let agg = n;
    let nodes = n + 1 + nv;
    let mut net: Net<Msg> = Net::new(c, nodes, Profile { crashes: false, horizon: 2000 });
    for s in 0..n {
        let d = c.t.draw(600);
        net.timer(c, s, 0, d);
    }
    let at = 300 + c.t.draw(1500);
    net.timer(c, agg, 1, at);
    let mut got: Vec<(usize, usize, Tv)> = vec![];
    let mut claims: Vec<Claim> = vec![];
    let mut budget: i64 = if c.thorough { 60 } else { 22 }; // pairings
    let mut final_sent = false;
    while let Some(x) = net.next(c) {
        match x {
            Ev::Quiet => {
                for s in 0..n {
                    net.timer(c, s, 0, 10);
                }
                net.timer(c, agg, 2, 500);
            }
            Ev::Timer { node, id, .. } if id == 0 => {
                for i in 0..nm {
                    let t = shares[node][i].0;
                    let (codec, b) = pack(c, &t)?;
                    net.send(c, node, agg, Msg::Share { who: node, what: i, codec, b });
                }
            }
            Ev::Timer { id, .. } => {
                if got.is_empty() {
                    continue;
                }
                // aggregate what is there, in arrival order or in halves
                let mut use_: Vec<usize> = (0..got.len()).filter(|_| id == 2 || c.t.chance(800)).collect();
                if use_.is_empty() {
                    use_.push(0);
                }
                // keep to the budget of pairings
                use_.truncate((budget / nv as i64 - 1).max(1) as usize);
                let mut set: Vec<(usize, usize)> = use_.iter().map(|k| (got[*k].0, got[*k].1)).collect();
                let mut a = zero(sig)?;
                if c.t.chance(500) {
                    for k in &use_ {
                        a = add(&a, &got[*k].2)?;
                    }
                } else {
                    let (mut l, mut r) = (zero(sig)?, zero(sig)?);
                    for (j, k) in use_.iter().enumerate() {
                        if j % 2 == 0 {
                            l = add(&got[*k].2, &l)?;
                        } else {
                            r = add(&r, &got[*k].2)?;
                        }
                    }
                    a = add(&r, &add(&a, &l)?)?;
                }
                if c.t.chance(200) {
                    // the claim itself may be false
                    match c.t.below(3) {
                        0 if set.len() > 1 => {
                            set.pop();
                        }
                        1 => {
                            let j = c.t.below(set.len());
                            set[j].0 = (set[j].0 + 1) % n;
                        }
                        _ => {
                            let j = c.t.below(set.len());
                            set[j].1 = (set[j].1 + 1) % nm;
                        }
                    }
                    c.fault("false claims");
                }
                if c.t.chance(300) {
                    a = normal(&a)?;
                }
                let (codec, b) = pack(c, &a)?;
                let k = claims.len();
                budget -= (set.len() as i64 + 1) * nv as i64;
                ev!(c, "claim {} over {:?}", k, set);
                claims.push(Claim { set, sig: a, verdicts: vec![] });
                for v in 0..nv {
                    net.send(c, agg, n + 1 + v, Msg::Bundle { id: k, codec, b: b.clone() });
                }
                final_sent |= id == 2;
            }
            Ev::Msg { m, to, .. } => match m {
                Msg::Share { who, what, codec, b } => {
                    if got.iter().any(|g| g.0 == who && g.1 == what) {
                        c.hit("duplicates ignored");
                        continue;
                    }
                    let t = shares[who][what].0;
                    let v = unpack(c, codec, &b, &t.m)?;
                    let t = Tv { v, ..t };
                    // now and then the aggregator checks the share itself
                    if c.t.chance(120) && budget > 4 {
                        budget -= 2;
                        let set = [(who, what)];
                        let want = t.m == genuine(&w, &set);
                        let ok = verify(c, &w, &set, &t)?;
                        if ok != want {
                            return viol("verdict", format!("share of signer {} on message {} is {}, verification says {}", who, what, want, ok));
                        }
                    }
                    ev!(c, "aggregator has share {} {}", who, what);
                    got.push((who, what, t));
                }
                Msg::Bundle { id, codec, b } => {
                    if claims[id].verdicts.len() >= nv {
                        c.hit("duplicates ignored");
                        continue;
                    }
                    let s = claims[id].sig;
                    let v = unpack(c, codec, &b, &s.m)?;
                    let t = Tv { v, ..s };
                    let set = claims[id].set.clone();
                    let want = t.m == genuine(&w, &set);
                    let ok = verify(c, &w, &set, &t)?;
                    c.hit(if want { "genuine claims verified" } else { "false claims verified" });
                    ev!(c, "verifier {} says {} to claim {}", to, ok, id);
                    if ok != want {
                        return viol("verdict", format!("claim over {:?} with aggregate {} is {}, verification says {}", set, t.m.short(), if want { "genuine" } else { "false" }, ok));
                    }
                    if claims[id].verdicts.iter().any(|x| *x != ok) {
                        return viol("split-verdict", "verifiers disagree");
                    }
                    claims[id].verdicts.push(ok);
                }
            },
            _ => (),
        }
    }
    if !final_sent || claims.last().map_or(true, |x| x.verdicts.is_empty()) {
        return viol("no-progress", "no verdict after faults stopped");
    }
    c.add("claims", claims.len() as u64);
    Ok(())
}
