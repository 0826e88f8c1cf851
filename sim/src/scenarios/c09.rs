//! Threshold secret sharing: a dealer, share holders that crash, lag and lie, and clients that combine what arrives.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::refmath::*;
use crate::twin::*;
use simcalls::{Codec, Ty};

#[derive(Clone)]
enum Msg {
    Ask { client: usize },
    Answer { who: usize, codec: Codec, b: Vec<u8> },
}
struct Holder {
    x: Tv,
    y: Tv,
    stored: (Codec, Vec<u8>),
}
struct Client {
    ty: Ty,
    point: Tv, // what the shares are applied to; unused for scalars
    got: Vec<(usize, Tv)>,
    done: bool,
    lie: Vec<Option<usize>>, // per holder: kind of wrong answer it gives this client
}
/// f(x), by Horner's rule or term by term.
fn eval(c: &mut Ctx, f: &[Tv], x: &Tv) -> Res<Tv> {
    if c.t.chance(500) {
        let mut y = zero(Ty::Fr)?;
        for a in f.iter().rev() {
            y = add(&act(&y, x)?, a)?;
        }
        Ok(y)
    } else {
        let mut y = zero(Ty::Fr)?;
        let mut p = base(Ty::Fr)?;
        for a in f {
            y = add(&y, &act(&p, a)?)?;
            p = act(&p, x)?;
        }
        Ok(y)
    }
}
fn inverse(a: &Tv) -> Res<Option<Tv>> {
    let i = guard("inverse", || simcalls::fr_inv(a.fr()))?;
    match (i, a.sc().inv()) {
        (Some(i), Some(w)) => Ok(Some(check("inverse", Tv { v: simcalls::Val::Fr(i), m: RVal::Fr(w), k: Some(w) })?)),
        (None, None) => Ok(None),
        (i, _) => viol("inverse-exists", format!("inverse of {} is {}", a.m.short(), if i.is_some() { "given" } else { "denied" })),
    }
}
/// Lagrange coefficient of point j at zero.
fn lagrange(c: &mut Ctx, xs: &[Tv], j: usize) -> Res<Tv> {
    let way = c.t.below(3);
    let (mut num, mut den) = (base(Ty::Fr)?, base(Ty::Fr)?);
    for (i, x) in xs.iter().enumerate() {
        if i == j {
            continue;
        }
        match way {
            0 => {
                num = act(&num, x)?;
                den = act(&den, &sub(x, &xs[j])?)?;
            }
            1 => {
                num = act(&num, &neg(x)?)?;
                den = act(&sub(&xs[j], x)?, &den)?;
            }
            _ => {
                // factor by factor
                let d = sub(x, &xs[j])?;
                match inverse(&d)? {
                    Some(d) => num = act(&act(&num, x)?, &d)?,
                    None => return viol("harness-index", "indices collide"),
                }
            }
        }
    }
    match inverse(&den)? {
        Some(d) => act(&num, &d),
        None => viol("harness-index", "indices collide"),
    }
}
fn combine(c: &mut Ctx, ty: Ty, xs: &[Tv], ys: &[Tv]) -> Res<Tv> {
    let mut s = zero(ty)?;
    for j in 0..xs.len() {
        let l = lagrange(c, xs, j)?;
        let t = act(&ys[j], &l)?;
        s = if c.t.chance(500) { add(&s, &t)? } else { add(&t, &s)? };
    }
    Ok(s)
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 2 + c.t.below(5);
    let t = 1 + c.t.below(n);
    let mut f = vec![];
    for i in 0..t {
        let s = c.t.open();
        let a = gen_sc(&mut c.t);
        // a leading zero would lower the threshold
        let a = if i + 1 == t && t > 1 && a.is_zero() { Sc::one() } else { a };
        f.push(scalar(c, &a)?);
        c.t.close(s);
    }
    // indices: small, or anything distinct and nonzero
    let style = c.t.below(3);
    let mut xs: Vec<Sc> = vec![];
    while xs.len() < n {
        let i = xs.len() as u64 + 1;
        let mut x = match style {
            0 => Sc::from_u64(i),
            1 => gen_sc(&mut c.t),
            _ => Sc::from_u64(i).neg(),
        };
        while x.is_zero() || xs.contains(&x) {
            x = x.add(&Sc::one());
        }
        xs.push(x);
    }
    let mut hs: Vec<Holder> = vec![];
    for x in &xs {
        let x = scalar(c, x)?;
        let y = eval(c, &f, &x)?;
        let stored = pack(c, &y)?;
        hs.push(Holder { x, y, stored });
    }
    let nc = 1 + c.t.below(3);
    let mut cl: Vec<Client> = vec![];
    let lies = c.t.chance(500);
    for _ in 0..nc {
        let ty = [Ty::Fr, Ty::G1, Ty::G2, Ty::Gt][c.t.weighted(&[8, 8, 3, if t <= 3 { 1 } else { 0 }])];
        let point = match ty {
            Ty::Fr => zero(Ty::Fr)?,
            Ty::Gt => {
                let k = gen_sc_nz(&mut c.t);
                import(c, RVal::base(Ty::Gt).act(&k), Some(k))?
            }
            _ => fresh(c, ty)?,
        };
        let lie = (0..n).map(|_| if lies && c.t.chance(150) { Some(c.t.below(6)) } else { None }).collect();
        cl.push(Client { ty, point, got: vec![], done: false, lie });
    }
    ev!(c, "{} of {} shares, clients {:?}", t, n, cl.iter().map(|x| x.ty).collect::<Vec<_>>());
    let secret = f[0].sc();
    let nodes = n + nc;
    let mut net: Net<Msg> = Net::new(c, nodes, Profile { crashes: true, horizon: 2500 });
    for k in 0..nc {
        let d = c.t.draw(500);
        net.timer(c, n + k, 0, d);
    }
    while let Some(e) = net.next(c) {
        match e {
            Ev::Quiet => {
                for k in 0..nc {
                    net.timer(c, n + k, 0, 100);
                }
            }
            Ev::Restart { node } if node < n => {
                let (codec, b) = hs[node].stored.clone();
                let y = hs[node].y;
                let v = unpack(c, codec, &b, &y.m)?;
                hs[node].y = Tv { v, ..y };
                ev!(c, "holder {} is back", node);
            }
            Ev::Restart { node } => {
                cl[node - n].got.clear();
                net.timer(c, node, 0, 50);
            }
            Ev::Timer { node, .. } => {
                let k = node - n;
                if !cl[k].done {
                    for h in 0..n {
                        net.send(c, node, h, Msg::Ask { client: k });
                    }
                    net.timer(c, node, 0, 700);
                }
            }
            Ev::Msg { to, m, .. } => match m {
                Msg::Ask { client } => {
                    let k = &cl[client];
                    if k.done {
                        continue;
                    }
                    let (ty, p, lie) = (k.ty, k.point, k.lie[to]);
                    let mut y = hs[to].y;
                    if let Some(l) = lie {
                        c.fault("wrong shares");
                        y = match l {
                            0 => neg(&y)?,
                            1 => add(&y, &base(Ty::Fr)?)?,
                            2 => hs[(to + 1) % n].y, // somebody else's share
                            3 => zero(Ty::Fr)?,
                            4 => add(&y, &y)?,
                            _ => fresh(c, Ty::Fr)?,
                        };
                    }
                    let a = if ty == Ty::Fr { y } else { act(&p, &y)? };
                    // the client knows what it got, right or wrong, only by its bytes
                    let (codec, b) = pack(c, &a)?;
                    net.send(c, to, n + client, Msg::Answer { who: to, codec, b: b.clone() });
                }
                Msg::Answer { who, codec, b } => {
                    let k = to - n;
                    if cl[k].done || cl[k].got.iter().any(|g| g.0 == who) {
                        c.hit("duplicates ignored");
                        continue;
                    }
                    // decoded without knowing what it ought to be; then compared to what the model decodes
                    let leaves = ref_decode(codec, cl[k].ty, &b).map_err(|e| Viol { class: "encoding".into(), msg: e })?;
                    let m = RVal::from_leaves(cl[k].ty, &leaves).map_err(|e| Viol { class: "encoding".into(), msg: e })?;
                    let v = unpack(c, codec, &b, &m)?;
                    let log = share_log(&cl[k], &hs, who, &m);
                    cl[k].got.push((who, Tv { v, m, k: log }));
                    ev!(c, "client {} has {} of {}", k, cl[k].got.len(), t);
                    // with too few shares nothing is recovered (a secret could still be hit by chance: the model knows)
                    let have = cl[k].got.len();
                    if have >= t || c.t.chance(200) {
                        let ty = cl[k].ty;
                        let gx: Vec<Tv> = cl[k].got.iter().map(|g| hs[g.0].x).collect();
                        let gy: Vec<Tv> = cl[k].got.iter().map(|g| g.1).collect();
                        let r = combine(c, ty, &gx, &gy)?;
                        let s = if ty == Ty::Fr {
                            let s = secret;
                            scalar(c, &s)?
                        } else {
                            act(&cl[k].point, &f[0])?
                        };
                        equal("recovered and shared secret", &r, &s)?;
                        let honest = cl[k].got.iter().all(|g| cl[k].lie[g.0].is_none());
                        c.hit(if have < t { "too few shares" } else if honest { "quorums combined" } else { "quorums with wrong shares" });
                        if have >= t {
                            if honest && r.m != s.m {
                                return viol("harness-shamir", "model does not recover the secret");
                            }
                            if honest {
                                let (a, b) = (exported(&normal(&r)?.v)?, exported(&normal(&s)?.v)?);
                                if a != b {
                                    return viol("exports", format!("recovered secret {} exports differently from the shared one", r.m.short()));
                                }
                            }
                            cl[k].done = true;
                            ev!(c, "client {} recovers {}", k, r.m.short());
                        }
                    }
                }
            },
            _ => (),
        }
    }
    if cl.iter().any(|k| !k.done) {
        return viol("no-progress", "a client does not recover the secret after faults stopped");
    }
    Ok(())
}
/// Logarithm of an answer, if it is the honest one or scalar.
fn share_log(k: &Client, hs: &[Holder], who: usize, m: &RVal) -> Option<Sc> {
    match m {
        RVal::Fr(s) => Some(*s),
        _ => match (k.point.k, k.lie[who]) {
            (Some(p), None) => Some(p.mul(&hs[who].y.sc())),
            _ => None,
        },
    }
}
