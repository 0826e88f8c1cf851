//! A cluster in which some nodes run this library and others an independent implementation of its formats.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::*;
use crate::net::*;
use crate::twin::*;
use serde_json::Value;
use simcalls as sut;
use simcalls::{Codec, Ty};

#[derive(Clone)]
enum Msg {
    Elem { id: usize, hops: usize, codec: Codec, b: Vec<u8> },
}
/// Legitimate variations of the text form: order of fields, white space.
fn vary_json(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    fn space(c: &mut Ctx, o: &mut String) {
        if c.t.chance(200) {
            o.push([' ', '\n', '\t', '\r'][c.t.below(4)]);
        }
    }
    fn go(c: &mut Ctx, v: &Value, o: &mut String) {
        space(c, o);
        match v {
            Value::Object(m) => {
                let mut ks: Vec<&String> = m.keys().collect();
                for i in (1..ks.len()).rev() {
                    let j = c.t.below(i + 1);
                    ks.swap(i, j);
                }
                o.push('{');
                for (i, k) in ks.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    space(c, o);
                    o.push_str(&format!("\"{}\"", k));
                    space(c, o);
                    o.push(':');
                    go(c, &m[*k], o);
                }
                o.push('}');
            }
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    go(c, x, o);
                }
                o.push(']');
            }
            x => o.push_str(&x.to_string()),
        }
        space(c, o);
    }
    let mut o = String::new();
    go(c, &serde_json::from_slice(b).expect("own text"), &mut o);
    o.into_bytes()
}
fn foreign_encode(c: &mut Ctx, codec: Codec, m: &RVal) -> Vec<u8> {
    let ty = m.ty();
    let l = match ty {
        Ty::G1 | Ty::G2 if m.is_zero() && c.t.chance(500) => odd_identity(c, ty),
        Ty::G1 | Ty::G2 => m.leaves_with(gen_z_of(&mut c.t, m)),
        _ => m.leaves(),
    };
    let b = ref_encode(codec, ty, &l);
    if codec == Codec::Json && c.t.chance(600) {
        c.fault("reordered or spaced text");
        vary_json(c, &b)
    } else {
        b
    }
}
/// What this build exports for an element must be what every version exports for it.
fn pinned(c: &mut Ctx, t: &Tv) -> Res {
    c.hit("exports compared");
    let n = normal(t)?;
    let ty = t.ty();
    let l = if t.m.is_zero() && (ty == Ty::G1 || ty == Ty::G2) {
        // the published identity: (0, 1, 0)
        let mut l = vec![0u64; ty.nleaves()];
        let one = RVal::base(Ty::G1).leaves()[8..12].to_vec(); // z of an affine point
        l[ty.nleaves() / 3..ty.nleaves() / 3 + 4].copy_from_slice(&one);
        l
    } else {
        t.m.leaves()
    };
    let (v, d) = guard("export", || {
        let mut d = String::new();
        let _ = sut::display(&n.v, &mut d);
        ((sut::into_bytes(&n.v), sut::vec_from(&n.v)), d)
    })?;
    let want = ref_export(&l);
    if v.0 != want || v.1 != want {
        return viol("exported-bytes", format!("{}: exported {:02x?} / {:02x?}, published {:02x?}", t.m.short(), v.0, v.1, want));
    }
    if ty != Ty::G2 && d != ref_text(ty, &l) {
        return viol("exported-text", format!("{}: text {:?}, published {:?}", t.m.short(), d, ref_text(ty, &l)));
    }
    if c.t.chance(250) {
        debug_text(&t.m, &n.v, &l)?;
    }
    for k in sut::CODECS {
        let b = guard("encode", || sut::enc(*k, &n.v))?;
        if b != ref_encode(*k, ty, &l) {
            return viol("encoding", format!("{}: {:?} encoding {:02x?}, published {:02x?}", t.m.short(), k, b, ref_encode(*k, ty, &l)));
        }
    }
    Ok(())
}
/// Debug text (the only text of G2): the limbs, in order.
fn debug_text(m: &RVal, v: &sut::Val, l: &[u64]) -> Res {
    let (d, alt) = guard("export", || {
        let (mut d, mut alt) = (String::new(), String::new());
        let _ = sut::debug(v, &mut d);
        let _ = sut::debug_alt(v, &mut alt);
        (d, alt)
    })?;
    for d in [d, alt] {
        if debug_numbers(&d) != l {
            return viol("exported-text", format!("{} with limbs {:x?} has debug text {:?}", m.short(), l, d));
        }
    }
    Ok(())
}
/// As decoded, in whatever representation it came.
fn pinned_raw(c: &mut Ctx, t: &Tv, l: &[u64]) -> Res {
    if c.t.chance(250) {
        debug_text(&t.m, &t.v, l)?;
    }
    let v = guard("export", || (sut::into_bytes(&t.v), sut::text(&t.v)))?;
    if v.0 != ref_export(l) {
        return viol("exported-bytes", format!("{} with limbs {:x?} exports {:02x?}", t.m.short(), l, v.0));
    }
    if t.ty() != Ty::G2 && v.1 != ref_text(t.ty(), l) {
        return viol("exported-text", format!("{} with limbs {:x?} prints {:?}", t.m.short(), l, v.1));
    }
    Ok(())
}
/// Keys derived from digests before an upgrade.
fn derived_keys(c: &mut Ctx) -> Res {
    let mut b = [0u8; 64];
    let style = c.t.below(4);
    for x in b.iter_mut() {
        *x = match style {
            0 => c.t.bits() as u8,
            1 => 0xff,
            2 => 0,
            _ => [0, 0xff, 1, 0x80][c.t.below(4)],
        };
    }
    let w: Vec<u64> = b.chunks(8).rev().map(|x| u64::from_be_bytes(x.try_into().unwrap())).collect();
    let want = crate::refmath::Sc::from_wide(&[w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
    let f = guard("interpret", || sut::fr_interpret(&b))?;
    expect_val("derived-key", &format!("scalar derived from {:02x?}", b), &sut::Val::Fr(f), &RVal::Fr(want))?;
    c.hit("derived keys");
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 2 + c.t.below(4);
    let ours: Vec<bool> = (0..n).map(|i| if i == 0 { true } else { c.t.chance(500) }).collect();
    let ne = 2 + c.t.below(if c.thorough { 20 } else { 8 });
    let mut elems: Vec<Tv> = vec![];
    for _ in 0..ne {
        let s = c.t.open();
        let ty = sut::TYS[c.t.weighted(&[5, 6, 2, 1])];
        let t = if c.t.chance(500) { lived(c, ty)? } else { fresh(c, ty)? };
        c.t.close(s);
        elems.push(t);
    }
    ev!(c, "{} nodes, ours {:?}, {} elements", n, ours, ne);
    let mut net: Net<Msg> = Net::new(c, n, Profile { crashes: true, horizon: 3000 });
    for i in 0..ne {
        let node = c.t.below(n);
        let d = c.t.draw(1000);
        net.timer(c, node, i as u32, d);
    }
    derived_keys(c)?;
    while let Some(e) = net.next(c) {
        match e {
            Ev::Timer { node, id, .. } => {
                let t = elems[id as usize];
                let to = (node + 1 + c.t.below(n - 1)) % n;
                let (codec, b) = if ours[node] {
                    pinned(c, &t)?;
                    pack(c, &t)?
                } else {
                    let k = c.t.pick(sut::CODECS);
                    (k, foreign_encode(c, k, &t.m))
                };
                net.send(c, node, to, Msg::Elem { id: id as usize, hops: 0, codec, b });
            }
            Ev::Msg { to, m: Msg::Elem { id, hops, codec, b }, .. } => {
                let want = elems[id];
                let ty = want.ty();
                let t = if ours[to] {
                    let mut r = SimReader::new(&b, if c.t.chance(200) { ragged_plan(&mut c.t) } else { vec![] });
                    let v = match guard("decode", || sut::decode(codec, ty, &mut r))? {
                        Ok(v) => v,
                        Err(e) => return viol("not-understood", format!("{:?} {} written by another node: {} ({:02x?})", codec, want.m.short(), e, b)),
                    };
                    let t = check("element from another node", Tv { v, ..want })?;
                    equal("received and own", &t, &want)?;
                    let l = ref_decode(codec, ty, &b).map_err(|e| Viol { class: "harness-codec".into(), msg: e })?;
                    pinned_raw(c, &t, &l)?;
                    if c.t.chance(300) {
                        pinned(c, &t)?;
                    }
                    c.hit("read by this build");
                    t
                } else {
                    let l = match ref_decode(codec, ty, &b) {
                        Ok(l) => l,
                        Err(e) => return viol("not-understood", format!("{:?} {} written by this build is not in the published format: {} ({:02x?})", codec, want.m.short(), e, b)),
                    };
                    match RVal::from_leaves(ty, &l) {
                        Ok(m) if m == want.m => (),
                        Ok(m) => return viol("other-element", format!("{:?} {} written by this build reads as {}", codec, want.m.short(), m.short())),
                        Err(e) => return viol("not-understood", format!("{:?} {} written by this build: {}", codec, want.m.short(), e)),
                    }
                    c.hit("read by the other implementation");
                    want
                };
                ev!(c, "{} reads element {} after {} hops", to, id, hops);
                if hops < 3 && c.t.chance(600) {
                    let next = (to + 1 + c.t.below(n - 1)) % n;
                    let (codec, b) = if ours[to] {
                        let t = if c.t.chance(400) { step(c, &t).and_then(|x| back(&x, &t))? } else { t };
                        pack(c, &t)?
                    } else {
                        let k = c.t.pick(sut::CODECS);
                        (k, foreign_encode(c, k, &t.m))
                    };
                    net.send(c, to, next, Msg::Elem { id, hops: hops + 1, codec, b });
                }
            }
            _ => (),
        }
    }
    c.add("elements", ne as u64);
    if ours.iter().any(|x| !*x) {
        c.nontrivial = true;
    }
    Ok(())
}
/// The same element again, by way of another one: leaves an arithmetic representation.
fn back(x: &Tv, t: &Tv) -> Res<Tv> {
    let d = sub(x, t)?;
    sub(x, &d)
}
