//! Attribute-based encryption (ciphertext policies over thresholds of thresholds, after Bethencourt, Sahai and Waters):
//! an authority, a store that may tamper, users that crash, lose keys, collude and decrypt.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::refmath::*;
use crate::rng::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Sampler, Ty, Val};

/// An element on its way; what it stands for travels along for the judge only.
#[derive(Clone)]
struct Wire {
    t: Tv,
    codec: Codec,
    b: Vec<u8>,
}
fn close(c: &mut Ctx, t: &Tv) -> Res<Wire> {
    let t = if t.ty() != Ty::Fr && c.t.chance(100) { normal(t)? } else { *t };
    let (codec, b) = pack(c, &t)?;
    Ok(Wire { t, codec, b })
}
fn open(c: &mut Ctx, w: &Wire) -> Res<Tv> {
    Ok(Tv { v: unpack(c, w.codec, &w.b, &w.t.m)?, ..w.t })
}
#[derive(Clone, Debug)]
enum Node {
    Leaf(usize),
    Gate(usize, Vec<Node>),
}
fn gen_policy(c: &mut Ctx, attrs: usize, depth: usize, left: &mut usize) -> Node {
    if depth == 0 || *left <= 1 || c.t.chance(if depth == 2 { 150 } else { 600 }) {
        *left = left.saturating_sub(1);
        return Node::Leaf(c.t.below(attrs));
    }
    let n = (1 + c.t.below(3)).min(*left);
    let mut v = vec![];
    for _ in 0..n {
        if *left > 0 {
            v.push(gen_policy(c, attrs, depth - 1, left));
        }
    }
    let k = 1 + c.t.below(v.len());
    Node::Gate(k, v)
}
fn satisfied(p: &Node, has: &[bool]) -> bool {
    match p {
        Node::Leaf(a) => has[*a],
        Node::Gate(k, v) => v.iter().filter(|x| satisfied(x, has)).count() >= *k,
    }
}
fn leaves(p: &Node, o: &mut Vec<usize>) {
    match p {
        Node::Leaf(a) => o.push(*a),
        Node::Gate(_, v) => v.iter().for_each(|x| leaves(x, o)),
    }
}
/// The secret's share of every leaf, in order.
fn share(c: &mut Ctx, p: &Node, q: &Tv, o: &mut Vec<Tv>) -> Res {
    match p {
        Node::Leaf(_) => o.push(*q),
        Node::Gate(k, v) => {
            let mut f = vec![*q];
            for _ in 1..*k {
                let s = gen_sc(&mut c.t);
                f.push(scalar(c, &s)?);
            }
            for (i, x) in v.iter().enumerate() {
                let at = scalar(c, &Sc::from_u64(i as u64 + 1))?;
                let mut y = f[f.len() - 1];
                for a in f.iter().rev().skip(1) {
                    y = add(&act(&y, &at)?, a)?;
                }
                share(c, x, &y, o)?;
            }
        }
    }
    Ok(())
}
fn inverse(a: &Tv) -> Res<Tv> {
    let i = guard("inverse", || sut::fr_inv(a.fr()))?;
    match (i, a.sc().inv()) {
        (Some(i), Some(w)) => check("inverse", Tv { v: Val::Fr(i), m: RVal::Fr(w), k: Some(w) }),
        (i, _) => viol("inverse-exists", format!("inverse of {} is {}", a.m.short(), if i.is_some() { "given" } else { "denied" })),
    }
}
struct World {
    g1: Tv,
    g2: Tv,
    alpha: Tv,
    beta: Tv,
    h: Tv,
    egg: Tv,
    hash: Vec<Tv>,
}
#[derive(Clone)]
struct Key<T> {
    d: T,
    parts: Vec<Option<(T, T)>>, // by attribute: in G2, in G1
}
#[derive(Clone)]
struct Ct<T> {
    m: T,
    c: T,
    leaf: Vec<(T, T)>, // in G1, in G2
}
fn keygen(c: &mut Ctx, w: &World, has: &[bool]) -> Res<Key<Tv>> {
    let r = gen_sc(&mut c.t);
    let r = scalar(c, &r)?;
    let d = act(&w.g2, &act(&add(&w.alpha, &r)?, &inverse(&w.beta)?)?)?;
    let gr = act(&w.g2, &r)?;
    let mut parts = vec![];
    for (j, x) in has.iter().enumerate() {
        parts.push(if *x {
            let s = gen_sc(&mut c.t);
            let s = scalar(c, &s)?;
            Some((add(&gr, &act(&w.hash[j], &s)?)?, act(&w.g1, &s)?))
        } else {
            None
        });
    }
    Ok(Key { d, parts })
}
fn encrypt(c: &mut Ctx, w: &World, p: &Node, m: &Tv) -> Res<Ct<Tv>> {
    let s = gen_sc(&mut c.t);
    let s = scalar(c, &s)?;
    let mut q = vec![];
    share(c, p, &s, &mut q)?;
    let mut at = vec![];
    leaves(p, &mut at);
    let mut leaf = vec![];
    for (a, q) in at.iter().zip(&q) {
        leaf.push((act(&w.g1, q)?, act(&w.hash[*a], q)?));
    }
    let blind = act(&w.egg, &s)?;
    Ok(Ct { m: if c.t.chance(500) { add(m, &blind)? } else { add(&blind, m)? }, c: act(&w.h, &s)?, leaf })
}
/// e(g1, g2)^(r q) of a subtree, if this user can form it; `next` is the number of leaves before it.
fn subtree(c: &mut Ctx, ct: &Ct<Tv>, k: &Key<Tv>, p: &Node, has: &[bool], next: &mut usize, scale: Option<Tv>) -> Res<Option<Tv>> {
    match p {
        Node::Leaf(a) => {
            let i = *next;
            *next += 1;
            let (d, e) = match &k.parts[*a] {
                Some(x) => *x,
                None => return Ok(None),
            };
            let (mut x, mut y) = (ct.leaf[i].0, e);
            let early = scale.is_some() && c.t.chance(500);
            if early {
                // coefficient into the first argument: cheaper there
                let l = scale.unwrap();
                x = act(&x, &l)?;
                y = act(&y, &l)?;
            }
            let u = pair(&x, &d)?;
            let f = if c.t.chance(500) {
                add(&u, &pair(&neg(&y)?, &ct.leaf[i].1)?)?
            } else {
                sub(&u, &pair(&y, &ct.leaf[i].1)?)?
            };
            Ok(Some(match scale {
                Some(l) if !early => act(&f, &l)?,
                _ => f,
            }))
        }
        Node::Gate(need, v) => {
            // which children to use: any that will do
            let mut able: Vec<usize> = (0..v.len()).filter(|i| satisfied(&v[*i], has)).collect();
            while able.len() > *need {
                let i = c.t.below(able.len());
                able.remove(i);
            }
            let ok = able.len() == *need;
            let mut sum: Option<Tv> = None;
            for (i, x) in v.iter().enumerate() {
                if !ok || !able.contains(&i) {
                    let mut o = vec![];
                    leaves(x, &mut o);
                    *next += o.len();
                    continue;
                }
                let mut num = base(Ty::Fr)?;
                let mut den = base(Ty::Fr)?;
                let xi = scalar(c, &Sc::from_u64(i as u64 + 1))?;
                for j in able.iter().filter(|j| **j != i) {
                    let xj = scalar(c, &Sc::from_u64(*j as u64 + 1))?;
                    num = act(&num, &neg(&xj)?)?;
                    den = act(&den, &sub(&xi, &xj)?)?;
                }
                let mut l = act(&num, &inverse(&den)?)?;
                if let Some(s) = scale {
                    l = act(&l, &s)?;
                }
                match subtree(c, ct, k, x, has, next, Some(l))? {
                    None => return viol("harness-policy", "a satisfied child cannot be opened"),
                    Some(t) => {
                        sum = Some(match sum {
                            None => t,
                            Some(s) => add(&s, &t)?,
                        })
                    }
                }
            }
            Ok(sum)
        }
    }
}
fn decrypt(c: &mut Ctx, ct: &Ct<Tv>, k: &Key<Tv>, p: &Node) -> Res<Option<Tv>> {
    let has: Vec<bool> = k.parts.iter().map(|x| x.is_some()).collect();
    let a = match subtree(c, ct, k, p, &has, &mut 0, None)? {
        None => return Ok(None),
        Some(a) => a,
    };
    let b = pair(&ct.c, &k.d)?;
    c.hit("decryptions");
    Ok(Some(match c.t.below(3) {
        0 => sub(&add(&ct.m, &a)?, &b)?,
        1 => sub(&ct.m, &sub(&b, &a)?)?,
        _ => add(&sub(&ct.m, &b)?, &a)?,
    }))
}
#[derive(Clone)]
enum Msg {
    WantKey { user: usize },
    HaveKey { k: Key<Wire> },
    WantCt { user: usize },
    HaveCt { ct: Ct<Wire>, tampered: bool },
}
fn close_key(c: &mut Ctx, k: &Key<Tv>) -> Res<Key<Wire>> {
    let mut parts = vec![];
    for x in &k.parts {
        parts.push(match x {
            None => None,
            Some((a, b)) => Some((close(c, a)?, close(c, b)?)),
        });
    }
    Ok(Key { d: close(c, &k.d)?, parts })
}
fn open_key(c: &mut Ctx, k: &Key<Wire>) -> Res<Key<Tv>> {
    let mut parts = vec![];
    for x in &k.parts {
        parts.push(match x {
            None => None,
            Some((a, b)) => Some((open(c, a)?, open(c, b)?)),
        });
    }
    Ok(Key { d: open(c, &k.d)?, parts })
}
fn close_ct(c: &mut Ctx, x: &Ct<Tv>) -> Res<Ct<Wire>> {
    let mut leaf = vec![];
    for (a, b) in &x.leaf {
        leaf.push((close(c, a)?, close(c, b)?));
    }
    Ok(Ct { m: close(c, &x.m)?, c: close(c, &x.c)?, leaf })
}
fn open_ct(c: &mut Ctx, x: &Ct<Wire>) -> Res<Ct<Tv>> {
    let mut leaf = vec![];
    for (a, b) in &x.leaf {
        leaf.push((open(c, a)?, open(c, b)?));
    }
    Ok(Ct { m: open(c, &x.m)?, c: open(c, &x.c)?, leaf })
}
struct User {
    has: Vec<bool>,
    stored: Option<Key<Wire>>, // durable
    key: Option<Key<Tv>>,
    done: bool,
}
pub fn run(c: &mut Ctx) -> Res {
    let attrs = 2 + c.t.below(3);
    let (g1, g2) = (base(Ty::G1)?, base(Ty::G2)?);
    let s = c.t.open();
    let (a, b) = (gen_sc(&mut c.t), gen_sc_nz(&mut c.t));
    let (alpha, beta) = (scalar(c, &a)?, scalar(c, &b)?);
    c.t.close(s);
    let mut hash = vec![];
    for _ in 0..attrs {
        let s = gen_sc_nz(&mut c.t);
        let s = scalar(c, &s)?;
        hash.push(act(&g2, &s)?);
    }
    let egg = if c.t.chance(500) { pair(&act(&g1, &alpha)?, &g2)? } else { act(&pair(&g1, &g2)?, &alpha)? };
    let w = World { h: act(&g1, &beta)?, egg, g1, g2, alpha, beta, hash };
    let mut left = 1 + c.t.below(4);
    let p = gen_policy(c, attrs, 2, &mut left);
    let message = {
        let seed = c.t.bits();
        let v = match guard("sample", || sut::sample(Sampler::Std(Ty::Gt), &mut SimRng::new(Source::Good(seed))))? {
            sut::Sampled::V(v) => v,
            _ => return viol("harness-types", "sample"),
        };
        Tv { v, m: observe(&v)?, k: None }
    };
    let genuine = encrypt(c, &w, &p, &message)?;
    let store = close_ct(c, &genuine)?;
    let nu = 1 + c.t.below(3);
    let mut us: Vec<User> = vec![];
    for _ in 0..nu {
        let mut has: Vec<bool> = (0..attrs).map(|_| c.t.chance(550)).collect();
        if c.t.chance(300) {
            has.iter_mut().for_each(|x| *x = true);
        }
        us.push(User { has, stored: None, key: None, done: false });
    }
    ev!(c, "policy {:?}, users {:?}", p, us.iter().map(|u| &u.has).collect::<Vec<_>>());
    let tampering = c.t.chance(300);
    let colluding = c.t.chance(400);
    let (auth, stor) = (nu, nu + 1);
    let mut net: Net<Msg> = Net::new(c, nu + 2, Profile { crashes: true, horizon: 3000 });
    for u in 0..nu {
        let d = c.t.draw(400);
        net.timer(c, u, 0, d);
    }
    while let Some(e) = net.next(c) {
        match e {
            Ev::Quiet => {
                for u in 0..nu {
                    net.timer(c, u, 0, 100);
                }
            }
            Ev::Restart { node } if node < nu => {
                us[node].key = match us[node].stored.clone() {
                    Some(k) => Some(open_key(c, &k)?),
                    None => None,
                };
                ev!(c, "user {} is back", node);
                net.timer(c, node, 0, 50);
            }
            Ev::Crash { node } if node < nu => us[node].key = None,
            Ev::Timer { node, .. } => {
                if us[node].done {
                    continue;
                }
                if us[node].key.is_none() {
                    net.send(c, node, auth, Msg::WantKey { user: node });
                } else {
                    net.send(c, node, stor, Msg::WantCt { user: node });
                }
                net.timer(c, node, 0, 800);
            }
            Ev::Msg { m: Msg::WantKey { user }, .. } => {
                if us[user].key.is_some() {
                    continue;
                }
                let k = keygen(c, &w, &us[user].has.clone())?;
                let k = close_key(c, &k)?;
                net.send(c, auth, user, Msg::HaveKey { k });
            }
            Ev::Msg { to, m: Msg::HaveKey { k }, .. } => {
                if us[to].key.is_some() {
                    c.hit("duplicates ignored");
                    continue;
                }
                us[to].key = Some(open_key(c, &k)?);
                us[to].stored = if c.t.chance(800) { Some(k) } else { None };
                ev!(c, "user {} has its key", to);
                net.send(c, to, stor, Msg::WantCt { user: to });
            }
            Ev::Msg { m: Msg::WantCt { user }, .. } => {
                if us[user].done {
                    continue;
                }
                let mut ct = store.clone();
                let mut tampered = false;
                if tampering && c.t.chance(500) {
                    let mut x = open_ct(c, &store)?;
                    let i = c.t.below(x.leaf.len());
                    let kind = c.t.below(6);
                    tampered = kind != 0;
                    match kind {
                        0 => {
                            // the same message under fresh randomness: not tampering
                            let y = encrypt(c, &w, &p, &zero(Ty::Gt)?)?;
                            x.m = add(&x.m, &y.m)?;
                            x.c = add(&x.c, &y.c)?;
                            for (l, k) in x.leaf.iter_mut().zip(&y.leaf) {
                                *l = (add(&l.0, &k.0)?, add(&k.1, &l.1)?);
                            }
                            c.hit("ciphertexts rerandomised");
                        }
                        1 => x.m = add(&x.m, &w.egg)?,
                        2 => x.c = neg(&x.c)?,
                        3 => x.leaf[i].0 = neg(&x.leaf[i].0)?,
                        4 => x.leaf[i].1 = zero(Ty::G2)?,
                        _ => x.m = neg(&x.m)?,
                    }
                    if tampered {
                        c.fault("ciphertexts tampered with");
                    }
                    ct = close_ct(c, &x)?;
                }
                net.send(c, stor, user, Msg::HaveCt { ct, tampered });
            }
            Ev::Msg { to, m: Msg::HaveCt { ct, tampered }, .. } => {
                let key = match (&us[to].key, us[to].done) {
                    (Some(k), false) => k.clone(),
                    _ => continue,
                };
                let x = open_ct(c, &ct)?;
                let entitled = satisfied(&p, &us[to].has);
                let mut k = key;
                let mut borrowed = false;
                if !entitled && colluding {
                    // parts of anybody's keys, whatever helps
                    for v in 0..nu {
                        if let (true, Some(o)) = (v != to, &us[v].key) {
                            for (mine, theirs) in k.parts.iter_mut().zip(&o.parts) {
                                if mine.is_none() && theirs.is_some() {
                                    *mine = *theirs;
                                    borrowed = true;
                                }
                            }
                        }
                    }
                }
                match decrypt(c, &x, &k, &p)? {
                    None => {
                        if entitled {
                            return viol("harness-policy", "an entitled user has no way to decrypt");
                        }
                        c.hit("not entitled");
                    }
                    Some(r) => {
                        equal("decrypted and encrypted message", &r, &message)?;
                        if entitled && !tampered {
                            if r.m != message.m {
                                return viol("harness-abe", "the model does not recover the message");
                            }
                            let (a, b) = (exported(&r.v)?, exported(&message.v)?);
                            if a != b {
                                return viol("exports", format!("decrypted message {} exports differently from the encrypted one", r.m.short()));
                            }
                            c.hit("messages recovered");
                        } else if borrowed {
                            c.fault("collusions");
                        }
                    }
                }
                if !tampered {
                    us[to].done = true;
                    ev!(c, "user {} is done", to);
                }
            }
            _ => (),
        }
    }
    if us.iter().any(|u| !u.done) {
        return viol("no-progress", "a user has no answer after faults stopped");
    }
    Ok(())
}
