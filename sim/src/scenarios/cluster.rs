//! Replicas that fold contributions and retractions into accumulators (C02), and compare digests of them (C14).
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Ty, Val};

#[derive(Clone)]
enum Msg {
    /// One contribution.
    One { id: usize, codec: Codec, b: Vec<u8> },
    /// A partial accumulator covering the set.
    Part { set: u64, codec: Codec, b: Vec<u8> },
    Ask,
}
struct Contribution {
    t: Tv,
    retract: bool,
}
struct Replica {
    acc: Tv,
    set: u64,
    known: u64,
    // durable
    snap: (u64, Codec, Vec<u8>),
    log: u64, // ids appended to the durable log (contributions themselves are refetched from it)
}
fn total(cs: &[Contribution], ty: Ty, set: u64) -> RVal {
    let mut m = RVal::zero(ty);
    for (i, x) in cs.iter().enumerate() {
        if set >> i & 1 == 1 {
            m = if x.retract { m.sub(&x.t.m) } else { m.add(&x.t.m) };
        }
    }
    m
}
fn apply(acc: &Tv, x: &Tv, retract: bool, way: usize) -> Res<Tv> {
    match (retract, way) {
        (false, 0) => add(acc, x),
        (false, 1) => add(x, acc),
        (false, _) => sub(acc, &neg(x)?),
        (true, 0) => sub(acc, x),
        (true, 1) => add(acc, &neg(x)?),
        (true, _) => add(&neg(x)?, acc),
    }
}
fn perturb(c: &mut Ctx, a: &Tv) -> Res<Tv> {
    c.hit("perturbations");
    Ok(match c.t.below(6) {
        0 => normal(a)?,
        1 => neg(&neg(a)?)?,
        2 => recode(c, a)?,
        3 => rescale(c, a)?,
        4 => {
            let x = fresh(c, a.ty())?;
            sub(&add(a, &x)?, &x)?
        }
        _ => {
            // park and come back through the identity
            let n = neg(a)?;
            let z = add(a, &n)?;
            sub(&z, &n)?
        }
    })
}

pub struct Digest {
    bytes: Vec<Vec<u8>>,
    export: Vec<u8>,
    vec: Vec<u8>,
    text: String,
    debug: String,
}
/// What a replica publishes about a value: every export of its normal form.
pub fn digest(t: &Tv) -> Res<Digest> {
    let n = normal(t)?;
    let d = |v: &Val| -> Res<Digest> {
        guard("export", || {
            let mut debug = String::new();
            let _ = sut::debug(v, &mut debug);
            Digest { bytes: sut::CODECS.iter().map(|k| sut::enc(*k, v)).collect(), export: sut::into_bytes(v), vec: sut::vec_from(v), text: sut::text(v), debug }
        })
    };
    let a = d(&n.v)?;
    let nn = normal(&n)?;
    let b = d(&nn.v)?;
    if let Some(w) = differ(&a, &b) {
        return viol("normalise-twice", format!("normalising {} again changes its {}", t.m.short(), w));
    }
    Ok(a)
}
fn differ(a: &Digest, b: &Digest) -> Option<&'static str> {
    if a.bytes != b.bytes {
        Some("encoding")
    } else if a.export != b.export {
        Some("exported bytes")
    } else if a.vec != b.vec {
        Some("Vec conversion")
    } else if a.text != b.text {
        Some("text")
    } else if a.debug != b.debug {
        Some("debug text")
    } else {
        None
    }
}
pub fn compare_digests(what: &str, a: &Tv, b: &Tv) -> Res {
    let (x, y) = (digest(a)?, digest(b)?);
    if a.m == b.m {
        if let Some(w) = differ(&x, &y) {
            return viol("digest-differs", format!("{}: equal elements {} have different normalised {}: {:02x?} / {:02x?}", what, a.m.short(), w, x.export, y.export));
        }
    } else if x.bytes == y.bytes || x.export == y.export || x.vec == y.vec || x.text == y.text || x.debug == y.debug {
        return viol("digest-collides", format!("{}: different elements {} and {} share a normalised export", what, a.m.short(), b.m.short()));
    }
    Ok(())
}

pub fn run(c: &mut Ctx, digests: bool) -> Res {
    let ty = sut::TYS[c.t.weighted(&[30, 60, 9, 5])];
    let heavy = ty == Ty::G2 || ty == Ty::Gt; // decoding checks the subgroup
    let n = 2 + c.t.below(if heavy { 2 } else { 4 });
    let k = 1 + c.t.below(match ty {
        Ty::Gt => 4,
        Ty::G2 => 6,
        _ => if c.thorough { 20 } else { 14 },
    });
    let style = c.t.below(3); // 0: independent values; 1: many related; 2: mostly cancelling
    let mut cs: Vec<Contribution> = Vec::new();
    for i in 0..k {
        let s = c.t.open();
        let rel = i > 0 && style > 0 && c.t.chance(if style == 2 { 750 } else { 400 });
        let (t, retract) = if rel {
            let j = c.t.below(i);
            let (src, r) = (cs[j].t, cs[j].retract);
            match c.t.below(3) {
                0 => (recode(c, &src)?, !r),
                1 => (related(c, &src)?, c.t.chance(500)),
                _ => {
                    // cancels everything so far
                    let m = total(&cs, ty, (1u64 << i) - 1);
                    (import_any(c, m)?, true)
                }
            }
        } else {
            (lived_or_fresh(c, ty)?, c.t.chance(200))
        };
        c.t.close(s);
        cs.push(Contribution { t, retract });
    }
    let all = (1u64 << k) - 1;
    let mut net: Net<Msg> = Net::new(c, n, Profile { crashes: true, horizon: 4000 });
    ev!(c, "{:?} accumulators on {} replicas, {} contributions, style {}", ty, n, k, style);
    let z = zero(ty)?;
    let zb = pack(c, &z)?;
    let mut rs: Vec<Replica> = (0..n).map(|_| Replica { acc: z, set: 0, known: 0, snap: (0, zb.0, zb.1.clone()), log: 0 }).collect();
    for i in 0..k {
        let o = c.t.below(n);
        rs[o].known |= 1 << i;
        rs[o].log |= 1 << i;
        let now = c.t.draw(1500);
        net.timer(c, o, 100 + i as u32, now);
    }
    for i in 0..n {
        net.timer(c, i, 1, 50 + 10 * i as u64);
    }
    let mut steps = 0;
    let mut merges = 0;
    let limit = 600 + 40 * (n * k) as u64;
    let mut quiet_at = None;
    while let Some(e) = net.next(c) {
        steps += 1;
        if rs.iter().enumerate().all(|(i, r)| net.up[i] && r.set == all) {
            break;
        }
        if let Some(q) = quiet_at {
            if steps - q > limit {
                return viol("harness-no-convergence", "the gossip protocol of the harness did not converge");
            }
        }
        match e {
            Ev::Quiet => {
                quiet_at = Some(steps);
                for i in 0..n {
                    for j in 0..n {
                        if i != j {
                            net.send(c, i, j, Msg::Ask);
                        }
                    }
                }
            }
            Ev::Crash { node } => ev!(c, "crash {}", node),
            Ev::Split { .. } | Ev::Heal => (),
            Ev::Restart { node } => {
                let (set, codec, b) = rs[node].snap.clone();
                let m = total(&cs, ty, set);
                let v = unpack(c, codec, &b, &m)?;
                rs[node].acc = Tv { v, m, k: None };
                rs[node].set = set;
                rs[node].known = rs[node].log | set;
                ev!(c, "restart {} with {:b}", node, set);
                net.timer(c, node, 1, 30);
            }
            Ev::Timer { node, id, .. } => {
                if id == 1 {
                    // fold something known, then gossip
                    let todo = rs[node].known & !rs[node].set;
                    if todo != 0 {
                        let pick: Vec<usize> = (0..k).filter(|i| todo >> i & 1 == 1).collect();
                        let cnt = if net.quiet { pick.len() } else { 1 + c.t.below(2.min(pick.len())) };
                        for q in 0..cnt.min(pick.len()) {
                            let i = if net.quiet { pick[q] } else { pick[c.t.below(pick.len())] };
                            if rs[node].set >> i & 1 == 1 {
                                continue;
                            }
                            let way = c.t.below(3);
                            rs[node].acc = apply(&rs[node].acc, &cs[i].t, cs[i].retract, way)?;
                            rs[node].set |= 1 << i;
                            ev!(c, "{} folds {}", node, i);
                        }
                    }
                    if c.t.chance(150) {
                        let a = rs[node].acc;
                        rs[node].acc = perturb(c, &a)?;
                    }
                    if c.t.chance(250) {
                        let a = rs[node].acc;
                        let (codec, b) = pack(c, &a)?;
                        rs[node].snap = (rs[node].set, codec, b);
                        rs[node].log |= rs[node].set;
                        c.hit("snapshots");
                    }
                    let to = (node + 1 + c.t.below(n - 1)) % n;
                    if c.t.chance(300) && rs[node].set != 0 {
                        // the accumulator itself, or a partial one folded from part of what is known
                        let set = if c.t.chance(500) { rs[node].set } else { rs[node].known & c.t.bits() };
                        let a = if set == rs[node].set {
                            rs[node].acc
                        } else {
                            let mut a = z;
                            for i in 0..k {
                                if set >> i & 1 == 1 {
                                    let way = c.t.below(3);
                                    a = apply(&a, &cs[i].t, cs[i].retract, way)?;
                                }
                            }
                            a
                        };
                        if set != 0 {
                            let (codec, b) = pack(c, &a)?;
                            net.send(c, node, to, Msg::Part { set, codec, b });
                        }
                    } else if rs[node].known != 0 {
                        let have: Vec<usize> = (0..k).filter(|i| rs[node].known >> i & 1 == 1).collect();
                        let i = have[c.t.below(have.len())];
                        let t = cs[i].t;
                        let (codec, b) = pack(c, &t)?;
                        net.send(c, node, to, Msg::One { id: i, codec, b });
                    }
                    if !net.quiet {
                        net.timer(c, node, 1, if heavy { 450 } else { 200 });
                    }
                } else {
                    // a contribution is born: tell everyone once
                    let i = (id - 100) as usize;
                    let t = cs[i].t;
                    let (codec, b) = pack(c, &t)?;
                    for j in 0..n {
                        if j != node {
                            net.send(c, node, j, Msg::One { id: i, codec, b: b.clone() });
                        }
                    }
                }
            }
            Ev::Msg { from, to, m } => match m {
                Msg::Ask => {
                    for i in 0..k {
                        if rs[to].known >> i & 1 == 1 && rs[from].known >> i & 1 == 0 {
                            let t = cs[i].t;
                            let (codec, b) = pack(c, &t)?;
                            net.send(c, to, from, Msg::One { id: i, codec, b });
                        }
                    }
                    net.timer(c, to, 1, 100 + to as u64);
                }
                Msg::One { id, codec, b } => {
                    if rs[to].known >> id & 1 == 0 || rs[to].set >> id & 1 == 0 {
                        let like = cs[id].t.m;
                        let v = unpack(c, codec, &b, &like)?;
                        rs[to].known |= 1 << id;
                        rs[to].log |= 1 << id;
                        if rs[to].set >> id & 1 == 0 && c.t.chance(700) {
                            let way = c.t.below(3);
                            rs[to].acc = apply(&rs[to].acc, &Tv { v, ..cs[id].t }, cs[id].retract, way)?;
                            rs[to].set |= 1 << id;
                            ev!(c, "{} folds {} from {}", to, id, from);
                        }
                        if net.quiet {
                            net.timer(c, to, 1, 10);
                        }
                    } else {
                        c.hit("duplicates ignored");
                    }
                }
                Msg::Part { set, codec, b } => {
                    let m = total(&cs, ty, set);
                    let mine = rs[to].set;
                    if set & mine == 0 || mine & !set == 0 {
                        let v = unpack(c, codec, &b, &m)?;
                        let p = Tv { v, m, k: None };
                        if set & mine == 0 {
                            rs[to].acc = if c.t.chance(500) { add(&p, &rs[to].acc)? } else { add(&rs[to].acc, &p)? };
                            rs[to].set |= set;
                            merges += 1;
                            c.hit("partial accumulators merged");
                            ev!(c, "{} merges {:b} from {}", to, set, from);
                        } else if set != mine {
                            rs[to].acc = p; // a superset replaces
                            rs[to].set = set;
                            c.hit("supersets adopted");
                        }
                        rs[to].known |= set;
                        rs[to].log |= set;
                    }
                }
            },
        }
        // invariants
        if c.t.chance(250) {
            let (i, j) = (c.t.below(n), c.t.below(n));
            cross(c, &rs[i], &rs[j], digests)?;
        }
    }
    if merges > 0 {
        c.nontrivial = true;
    }
    c.add("steps", steps);
    for i in 0..n {
        expect_val("not-converged", "final accumulator", &rs[i].acc.v, &total(&cs, ty, rs[i].set))?;
        zero_answer(&rs[i].acc)?;
        for j in 0..n {
            cross(c, &rs[i], &rs[j], digests)?;
        }
    }
    if !rs.iter().all(|r| r.set == all) {
        return viol("harness-no-convergence", "queue drained before convergence");
    }
    // and against the total computed in one go from the model
    let m = total(&cs, ty, all);
    let one = import_any(c, m)?;
    equal("replica and plain sum", &rs[0].acc, &one)?;
    if digests {
        compare_digests("replica and plain sum", &rs[0].acc, &one)?;
    }
    Ok(())
}
fn cross(c: &mut Ctx, a: &Replica, b: &Replica, digests: bool) -> Res {
    c.hit("comparisons");
    equal("accumulators", &a.acc, &b.acc)?;
    if a.acc.m.is_zero() && a.set != 0 {
        c.hit("identity totals");
    }
    if digests {
        compare_digests("accumulators", &a.acc, &b.acc)?;
    }
    Ok(())
}
fn import_any(c: &mut Ctx, m: RVal) -> Res<Tv> {
    match m {
        RVal::Fr(s) => scalar(c, &s),
        _ => import(c, m, None),
    }
}
fn lived_or_fresh(c: &mut Ctx, ty: Ty) -> Res<Tv> {
    if c.t.chance(300) {
        lived(c, ty)
    } else {
        fresh(c, ty)
    }
}
pub fn c02(c: &mut Ctx) -> Res {
    run(c, false)
}
pub fn c14(c: &mut Ctx) -> Res {
    run(c, true)
}
