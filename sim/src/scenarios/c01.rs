//! Key agreement sessions over a faulty network, with nodes that crash and come back with their long-term state.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::refmath::*;
use crate::rng::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Sampled, Sampler, Ty};

#[derive(Copy, Clone, PartialEq, Debug)]
enum Kind {
    Two(Ty),
    ThreeRounds(Ty),
    Joux,
}
#[derive(Clone)]
enum Msg {
    /// Public value of `owner`, raised `steps` times so far, of session `s`.
    Pub { s: usize, owner: usize, steps: usize, part: usize, codec: Codec, b: Vec<u8> },
    Ask { s: usize },
}
struct Session {
    kind: Kind,
    who: Vec<usize>, // node of each party
    sk: Vec<Tv>,
    want: RVal,
}
/// A party's state; the secret key and what it received are durable when `kept`.
#[derive(Clone, Default)]
struct Party {
    key: Vec<u8>,
    key_codec: Option<Codec>,
    got: Vec<Option<Tv>>,
    out: [Option<Tv>; 2],
    done: Option<Tv>,
}
fn secret_key(c: &mut Ctx) -> Res<Tv> {
    if c.t.chance(400) {
        let src = good_source(&mut c.t);
        let v = guard("sample", || sut::sample(Sampler::Std(Ty::Fr), &mut SimRng::new(src)))?;
        if let Sampled::V(v) = v {
            let m = observe(&v)?;
            let k = match m {
                RVal::Fr(s) => Some(s),
                _ => None,
            };
            return Ok(Tv { v, m, k });
        }
    }
    let s = if c.t.chance(950) { gen_sc_nz(&mut c.t) } else { Sc::zero() };
    scalar(c, &s)
}
fn present(c: &mut Ctx, a: Tv) -> Res<Tv> {
    // a party may publish its point in any representation
    match c.t.weighted(&[4, 2, 1]) {
        0 => Ok(a),
        1 => normal(&a),
        _ => rescale(c, &a),
    }
}
/// How many public values a party of this session waits for.
fn slots(k: Kind) -> usize {
    match k {
        Kind::Two(_) => 1,
        Kind::ThreeRounds(_) => 2, // the neighbour's value, and the neighbour's neighbour's raised once
        Kind::Joux => 4,
    }
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 2 + c.t.below(3);
    let ns = 1 + c.t.below(if c.thorough { 6 } else { 4 });
    let mut ss: Vec<Session> = vec![];
    for _ in 0..ns {
        let s = c.t.open();
        let kind = if n < 3 {
            if c.t.chance(250) { Kind::Two(Ty::G2) } else { Kind::Two(Ty::G1) }
        } else {
            match c.t.weighted(&[30, 5, 30, 5, 6]) {
                0 => Kind::Two(Ty::G1),
                1 => Kind::Two(Ty::G2),
                2 => Kind::ThreeRounds(Ty::G1),
                3 => Kind::ThreeRounds(Ty::G2),
                _ => Kind::Joux,
            }
        };
        let np = if let Kind::Two(_) = kind { 2 } else { 3 };
        let first = c.t.below(n);
        let who = (0..np).map(|i| (first + i) % n).collect();
        let mut sk = vec![];
        for i in 0..np {
            // keys of different sessions and parties are sometimes related
            let k = if !ss.is_empty() && c.t.chance(250) {
                let j = c.t.below(ss.len());
                let p = c.t.below(ss[j].sk.len());
                let a = ss[j].sk[p];
                related(c, &a)?
            } else if i > 0 && c.t.chance(80) {
                let a: Tv = sk[0];
                related(c, &a)?
            } else {
                secret_key(c)?
            };
            sk.push(k);
        }
        c.t.close(s);
        let prod = sk.iter().fold(Sc::one(), |a, x| a.mul(&x.sc()));
        let ty = match kind {
            Kind::Two(t) | Kind::ThreeRounds(t) => t,
            Kind::Joux => Ty::Gt,
        };
        ss.push(Session { kind, who, sk, want: RVal::base(ty).act(&prod) });
    }
    let mut net: Net<Msg> = Net::new(c, n, Profile { crashes: true, horizon: 3000 });
    let mut ps: Vec<Vec<Party>> = vec![];
    for s in &ss {
        ev!(c, "session {:?} of {:?} -> {}", s.kind, s.who, s.want.short());
        let mut row = vec![];
        for k in &s.sk {
            let (codec, b) = pack(c, k)?;
            row.push(Party { key: b, key_codec: Some(codec), got: vec![None; slots(s.kind)], out: [None; 2], done: None });
        }
        ps.push(row);
    }
    for s in 0..ns {
        for p in 0..ss[s].who.len() {
            let d = c.t.draw(800);
            net.timer(c, ss[s].who[p], s as u32, d);
        }
    }
    let mut steps = 0u64;
    let mut quiet = None;
    while let Some(e) = net.next(c) {
        steps += 1;
        if let Some(q) = quiet {
            if steps - q > 400 + 200 * ns as u64 {
                return viol("no-progress", "sessions do not finish after faults stopped");
            }
        }
        match e {
            Ev::Quiet => {
                quiet = Some(steps);
                for s in 0..ns {
                    for p in 0..ss[s].who.len() {
                        let w = ss[s].who[p];
                        net.timer(c, w, s as u32, 50);
                    }
                }
            }
            Ev::Crash { node } => ev!(c, "crash {}", node),
            Ev::Split { .. } | Ev::Heal => (),
            Ev::Restart { node } => {
                // only the key survives
                for s in 0..ns {
                    for p in 0..ss[s].who.len() {
                        if ss[s].who[p] != node {
                            continue;
                        }
                        let (codec, b) = (ps[s][p].key_codec.unwrap(), ps[s][p].key.clone());
                        let want = ss[s].sk[p];
                        let v = unpack(c, codec, &b, &want.m)?;
                        ss[s].sk[p] = Tv { v, ..want };
                        ps[s][p] = Party { key: b, key_codec: Some(codec), got: vec![None; slots(ss[s].kind)], out: [None; 2], done: None };
                        net.timer(c, node, s as u32, 20);
                    }
                }
                ev!(c, "restart {}", node);
            }
            Ev::Timer { node, id, .. } => {
                let s = id as usize;
                let mut again = false;
                for p in 0..ss[s].who.len() {
                    if ss[s].who[p] == node {
                        start(c, &ss, &mut ps, s, p, &mut net)?;
                        again |= ps[s][p].done.is_none();
                        if ps[s][p].done.is_none() && net.quiet {
                            for q in 0..ss[s].who.len() {
                                if q != p {
                                    net.send(c, node, ss[s].who[q], Msg::Ask { s });
                                }
                            }
                        }
                    }
                }
                if again {
                    let d = if net.quiet { 200 } else { 500 };
                    net.timer(c, node, id, d);
                }
            }
            Ev::Msg { to, m, .. } => match m {
                Msg::Ask { s } => {
                    for p in 0..ss[s].who.len() {
                        if ss[s].who[p] == to {
                            start(c, &ss, &mut ps, s, p, &mut net)?;
                        }
                    }
                }
                Msg::Pub { s, owner, steps, part, codec, b } => {
                    let np = ss[s].who.len();
                    let Some(p) = (0..np).find(|p| ss[s].who[*p] == to) else { continue };
                    let (ty, slot, raised) = match ss[s].kind {
                        Kind::Two(t) => (t, 0, vec![owner]),
                        Kind::ThreeRounds(t) => {
                            if steps == 0 {
                                (t, 0, vec![owner])
                            } else {
                                (t, 1, vec![owner, (owner + 1) % 3])
                            }
                        }
                        Kind::Joux => (if part == 0 { Ty::G1 } else { Ty::G2 }, (if owner == (p + 1) % 3 { 0 } else { 2 }) + part, vec![owner]),
                    };
                    if ps[s][p].got[slot].is_some() {
                        c.hit("duplicates ignored");
                        continue;
                    }
                    let k = raised.iter().fold(Sc::one(), |a, i| a.mul(&ss[s].sk[*i].sc()));
                    let m = RVal::base(ty).act(&k);
                    let v = unpack(c, codec, &b, &m)?;
                    ps[s][p].got[slot] = Some(Tv { v, m, k: Some(k) });
                    ev!(c, "{} has slot {} of session {}", p, slot, s);
                    advance(c, &ss, &mut ps, s, p, &mut net)?;
                }
            },
        }
    }
    let mut all: Vec<(usize, Tv)> = vec![];
    for s in 0..ns {
        for p in 0..ss[s].who.len() {
            match ps[s][p].done {
                Some(d) => all.push((s, d)),
                None => return viol("no-progress", format!("party {} of session {} never finished", p, s)),
            }
        }
    }
    for (i, a) in all.iter().enumerate() {
        for b in all[..=i].iter() {
            if a.1.ty() != b.1.ty() {
                continue;
            }
            c.hit("secrets compared");
            equal("secrets", &a.1, &b.1)?;
            let (x, y) = (exported(&normal(&a.1)?.v)?, exported(&normal(&b.1)?.v)?);
            if (a.1.m == b.1.m) != (x == y) {
                return viol("exports", format!("secrets {} and {} export {:02x?} and {:02x?}", a.1.m.short(), b.1.m.short(), x.1, y.1));
            }
            if (a.1.m == b.1.m) && (x.1 != y.1 || x.2 != y.2) || (a.1.m != b.1.m) && (x.1 == y.1 || x.2 == y.2) {
                return viol("exports", format!("secrets {} and {}: exported bytes or text do not follow equality", a.1.m.short(), b.1.m.short()));
            }
        }
    }
    c.add("sessions", ns as u64);
    Ok(())
}
/// Publish (again) what this party owes the others.
fn start(c: &mut Ctx, ss: &[Session], ps: &mut [Vec<Party>], s: usize, p: usize, net: &mut Net<Msg>) -> Res {
    let (kind, np, sk) = (ss[s].kind, ss[s].who.len(), ss[s].sk[p]);
    let me = ss[s].who[p];
    let tys: Vec<Ty> = match kind {
        Kind::Two(t) | Kind::ThreeRounds(t) => vec![t],
        Kind::Joux => vec![Ty::G1, Ty::G2],
    };
    for (part, ty) in tys.iter().enumerate() {
        let a = match ps[s][p].out[part] {
            Some(a) => a,
            None => {
                let a = act(&base(*ty)?, &sk)?;
                present(c, a)?
            }
        };
        ps[s][p].out[part] = Some(a);
        let (codec, b) = pack(c, &a)?;
        for q in 0..np {
            // in the two-round protocol everyone raises its predecessor's value
            if q == p || (matches!(kind, Kind::ThreeRounds(_)) && q != (p + 1) % 3) {
                continue;
            }
            net.send(c, me, ss[s].who[q], Msg::Pub { s, owner: p, steps: 0, part, codec, b: b.clone() });
        }
    }
    if let (Kind::ThreeRounds(_), Some(g)) = (kind, ps[s][p].got[0]) {
        second(c, ss, s, p, &g, net)?;
    }
    Ok(())
}
fn second(c: &mut Ctx, ss: &[Session], s: usize, p: usize, g: &Tv, net: &mut Net<Msg>) -> Res {
    let a = act(g, &ss[s].sk[p])?;
    let a = present(c, a)?;
    let (codec, b) = pack(c, &a)?;
    net.send(c, ss[s].who[p], ss[s].who[(p + 1) % 3], Msg::Pub { s, owner: (p + 2) % 3, steps: 1, part: 0, codec, b });
    Ok(())
}
fn advance(c: &mut Ctx, ss: &[Session], ps: &mut [Vec<Party>], s: usize, p: usize, net: &mut Net<Msg>) -> Res {
    let sk = ss[s].sk[p];
    let g = ps[s][p].got.clone();
    let d = match ss[s].kind {
        Kind::Two(_) => match g[0] {
            Some(g) => act(&g, &sk)?,
            None => return Ok(()),
        },
        Kind::ThreeRounds(_) => {
            if let (Some(g0), None) = (g[0], g[1]) {
                second(c, ss, s, p, &g0, net)?;
            }
            match g[1] {
                Some(g) => act(&g, &sk)?,
                None => return Ok(()),
            }
        }
        Kind::Joux => {
            // either combination of the two others' values
            let e = match (g[0], g[1], g[2], g[3]) {
                (Some(a), _, _, Some(b)) if c.t.chance(500) || g[1].is_none() || g[2].is_none() => (a, b),
                (_, Some(b), Some(a), _) => (a, b),
                _ => return Ok(()),
            };
            if c.t.chance(500) {
                act(&pair(&e.0, &e.1)?, &sk)?
            } else {
                pair(&act(&e.0, &sk)?, &e.1)?
            }
        }
    };
    if ps[s][p].done.is_none() {
        c.hit("secrets derived");
        ev!(c, "party {} of session {} has {}", p, s, d.m.short());
        if d.m != ss[s].want {
            return viol("harness-secret", "model secret is not the session's");
        }
        expect_val("wrong-secret", "session secret", &d.v, &ss[s].want)?;
        ps[s][p].done = Some(d);
    }
    Ok(())
}
