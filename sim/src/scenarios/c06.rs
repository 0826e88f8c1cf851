//! Sampling from simulated sources: determined by the draws, influenced by all of them, nothing else involved.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::rng::*;
use crate::rt;
use simcalls as sut;
use simcalls::{Sampled, Sampler, Ty};
use std::sync::atomic::Ordering::SeqCst;

const SAMPLERS: [Sampler; 6] = [Sampler::Std(Ty::Fr), Sampler::Std(Ty::G1), Sampler::GroupRandomG1, Sampler::Std(Ty::G2), Sampler::GroupRandomG2, Sampler::Std(Ty::Gt)];
fn cost(s: Sampler) -> i64 {
    match s {
        Sampler::Std(Ty::Fr) => 15,
        Sampler::Std(Ty::G1) | Sampler::GroupRandomG1 => 900,
        Sampler::Std(Ty::Gt) => 14000,
        _ => 3500,
    }
}
pub struct Drawn {
    pub out: Sampled,
    pub draws: Vec<Draw>,
}
pub fn draw(s: Sampler, src: &Source, flip: Vec<usize>) -> Res<Drawn> {
    guard("sample", || {
        let mut r = SimRng::new(src.clone());
        r.flip = flip;
        let out = sut::sample(s, &mut r);
        Drawn { out, draws: r.draws }
    })
}
fn same(a: &Drawn, b: &Drawn) -> bool {
    a.out.key() == b.out.key() && a.draws == b.draws
}
/// Change everything a sampler might use besides the caller's source.
fn shake_world(c: &mut Ctx) {
    rt::reseed(c.t.bits());
    rt::SETTINGS.store(c.t.draw(2) * c.t.bits(), SeqCst);
    rt::CLOCK_NS.fetch_add(c.t.draw(1 << 50), SeqCst);
    c.fault("clock jumps and other entropy");
}

pub fn run(c: &mut Ctx) -> Res {
    let mut budget: i64 = if c.thorough { 300_000 } else { 60_000 };
    let n = 2 + c.t.below(10);
    let mut history: Vec<(Sampler, Source, Drawn)> = vec![];
    for k in 0..n {
        if budget < 0 {
            break;
        }
        let s = c.t.open();
        let sp = SAMPLERS[c.t.weighted(&[10, 5, 4, 2, 2, 1])];
        let src = any_source(&mut c.t);
        if src.bad() {
            c.fault("degenerate sources");
        }
        budget -= cost(sp);
        let d = draw(sp, &src, vec![])?;
        c.hit("samples");
        let m = match &d.out {
            Sampled::V(v) => observe(v)?,
            _ => return viol("harness-sampler", "not a value"),
        };
        ev!(c, "{} {:?} from {:?}: {} after {} draws", k, sp, src, m.short(), d.draws.len());
        if !m.member() {
            return viol("non-member", format!("{:?} from {:?} is not a member", sp, src));
        }
        let kind = c.t.below(6);
        match kind {
            5 => failing(c, sp, &src, &d, &mut budget)?,
            0 => {
                // every bit (scalars) or a few bits of every draw must matter
                influence(c, sp, &src, &d, &mut budget)?;
            }
            1 => {
                // same draws, different world, other thread
                shake_world(c);
                budget -= cost(sp);
                let src2 = src.clone();
                let e = std::thread::spawn(move || draw(sp, &src2, vec![])).join();
                c.hit("other threads");
                match e {
                    Ok(Ok(e)) => {
                        if !same(&d, &e) {
                            return viol("not-determined", format!("{:?} from {:?}: another thread at another time gets another value or draws differently", sp, src));
                        }
                    }
                    Ok(Err(v)) => return Err(v),
                    Err(_) => return viol("harness-thread", "join"),
                }
            }
            2 => {
                // interleaved callers: while one draws, others sample from their own sources
                reenter(c, sp, &src, &d, &mut budget)?;
            }
            3 => {
                let src = good_source(&mut c.t);
                if sp == Sampler::Std(Ty::Fr) {
                    spread(c, src, &mut budget)?;
                }
            }
            _ => (),
        }
        // earlier samples must not be disturbed by anything since
        if !history.is_empty() && c.t.chance(500) {
            let j = c.t.below(history.len());
            let (sp, src, d) = &history[j];
            budget -= cost(*sp);
            let e = draw(*sp, src, vec![])?;
            c.hit("replayed draws");
            if !same(d, &e) {
                return viol("not-determined", format!("{:?} from {:?} differs when drawn again after other calls", sp, src));
            }
        }
        c.t.close(s);
        history.push((sp, src, d));
    }
    Ok(())
}
fn influence(c: &mut Ctx, sp: Sampler, src: &Source, d: &Drawn, budget: &mut i64) -> Res {
    let key = d.out.key();
    let total: usize = d.draws.iter().map(|x| x.1 * 8).sum();
    if total > 1 << 16 {
        return viol("draws", format!("{:?} drew {} bits", sp, total));
    }
    if sp == Sampler::Std(Ty::Fr) {
        let mut live = 0;
        let mut seen = std::collections::BTreeSet::new();
        for (i, (at, n)) in d.draws.iter().enumerate() {
            let mut any = false;
            for bit in 0..n * 8 {
                let e = draw(sp, src, vec![at * 8 + bit])?;
                if e.out.key() != key {
                    any = true;
                    live += 1;
                    seen.insert(e.out.key());
                }
            }
            *budget -= 5 * *n as i64;
            if !any {
                return viol("draw-ignored", format!("{:?}: draw {} of {} does not influence the sample ({:?})", sp, i, d.draws.len(), src));
            }
        }
        c.add("bit flips", total as u64);
        if live < 254 + 128 {
            return viol("too-few-bits", format!("{:?}: only {} source bits influence the sample ({:?})", sp, live, src));
        }
        if seen.len() != live {
            return viol("bits-collapse", format!("{:?}: {} influential bits give only {} different samples ({:?})", sp, live, seen.len(), src));
        }
    } else {
        if let Sampled::V(v) = &d.out {
            if observe(v)?.is_zero() {
                return Ok(()); // one factor is the identity: the others rightly do not show
            }
        }
        // now and then, every bit
        let bits: Vec<usize> = d.draws.iter().flat_map(|(at, n)| (0..if *n == 4 { 8 } else { n * 8 }).map(move |b| at * 8 + b)).collect();
        if cost(sp) < 2000 && *budget > 30_000 && bits.len() <= 1024 && c.t.chance(60) {
            *budget -= 50_000;
            let mut live = 0;
            for b in &bits {
                live += (draw(sp, src, vec![*b])?.out.key() != key) as usize;
            }
            c.add("bit flips", bits.len() as u64);
            // (draws of four bytes may be cut to one by the caller: the others are not tried)
            let tried_all = d.draws.iter().all(|x| x.1 != 4) || d.draws.len() >= 48;
            if tried_all && live < 254 + 128 {
                return viol("too-few-bits", format!("{:?}: only {} source bits influence the sample ({:?})", sp, live, src));
            }
        }
        let pick = (*budget / cost(sp)).clamp(2, 20) as usize;
        for _ in 0..pick {
            let i = c.t.below(d.draws.len().max(1));
            let Some((at, n)) = d.draws.get(i).copied() else { return viol("draw-ignored", format!("{:?} drew nothing", sp)) };
            // flip all of the draw: bits beyond what the library keeps of it may be dropped
            let bits: Vec<usize> = (0..n * 8).map(|b| at * 8 + b).collect();
            let one = if c.t.chance(500) { bits.clone() } else { vec![at * 8 + c.t.below(if n == 4 { 8 } else { n * 8 })] };
            *budget -= cost(sp);
            let e = draw(sp, src, one.clone())?;
            c.add("bit flips", one.len() as u64);
            if e.out.key() == key && one.len() > 1 {
                return viol("draw-ignored", format!("{:?}: draw {} of {} does not influence the sample ({:?})", sp, i, d.draws.len(), src));
            }
        }
        if total < 254 + 128 {
            return viol("too-few-bits", format!("{:?}: drew only {} bits", sp, total));
        }
    }
    Ok(())
}
/// The source fails on the way: whatever the call returns then still needs enough bits that were delivered.
fn failing(c: &mut Ctx, sp: Sampler, src: &Source, d: &Drawn, budget: &mut i64) -> Res {
    let need = if sp == Sampler::Std(Ty::Gt) { 2 } else { 1 } * (254 + 128);
    for _ in 0..2 {
        let at = if c.t.chance(300) { 0 } else { c.t.below(d.draws.len().max(1)) };
        let times = [usize::MAX >> 1, 1, 2][c.t.below(3)];
        *budget -= cost(sp);
        let mut r = SimRng::new(src.clone());
        r.fail_at = Some((at, times));
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut::sample(sp, &mut r).key()));
        if !r.fired {
            continue;
        }
        c.fault("failing sources");
        if let Ok(k) = got {
            if r.delivered < need {
                return viol("made-up", format!("{:?} gives {:x?} though the source failed at draw {} and delivered only {} bits", sp, k, at, r.delivered));
            }
        }
        // and the next call is an ordinary one
        let e = draw(sp, src, vec![])?;
        if !same(&e, d) {
            return viol("not-determined", format!("{:?} from {:?} differs after a call whose source failed", sp, src));
        }
    }
    Ok(())
}
/// Re-entrant callers: inside draw callbacks, other samplers run on their own sources.
fn reenter(c: &mut Ctx, sp: Sampler, src: &Source, d: &Drawn, budget: &mut i64) -> Res {
    let inner_sp = if c.t.chance(700) { Sampler::Std(Ty::Fr) } else { SAMPLERS[c.t.weighted(&[5, 5, 3])] };
    let inner_src = any_source(&mut c.t);
    let want = draw(inner_sp, &inner_src, vec![])?;
    let nd = d.draws.len();
    let times: Vec<usize> = (0..1 + c.t.below(3)).map(|_| c.t.below(nd.max(1))).collect();
    let fwd = c.t.chance(300);
    *budget -= cost(sp) + cost(inner_sp) * (times.len() as i64 + 1);
    let mut bad = None;
    let got = {
        let mut hook = |k: usize| {
            if times.contains(&k) {
                let e = if fwd {
                    let s2 = inner_src.clone();
                    std::thread::spawn(move || draw(inner_sp, &s2, vec![])).join().unwrap_or_else(|_| viol("harness-thread", "join"))
                } else {
                    draw(inner_sp, &inner_src, vec![])
                };
                match e {
                    Ok(e) => {
                        if !same(&e, &want) {
                            bad = Some(Viol { class: "not-determined".into(), msg: format!("{:?} from {:?} differs inside another sample's draw", inner_sp, inner_src) });
                        }
                    }
                    Err(v) => bad = Some(v),
                }
            }
        };
        let mut r = SimRng::new(src.clone());
        r.hook = Some(&mut hook);
        guard("sample", || {
            let out = sut::sample(sp, &mut r);
            Drawn { out, draws: std::mem::take(&mut r.draws) }
        })?
    };
    if let Some(v) = bad {
        return Err(v);
    }
    c.fault("interleaved callers");
    if !same(&got, d) {
        return viol("not-determined", format!("{:?} from {:?} differs when others sample during its draws", sp, src));
    }
    Ok(())
}
/// Uniformity at a glance: catches a reduction that keeps too few bits.
fn spread(c: &mut Ctx, src: Source, budget: &mut i64) -> Res {
    const N: usize = 4000;
    const BINS: usize = 16;
    let vals = guard("sample", || {
        let mut r = SimRng::new(src);
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            r.draws.clear();
            v.push(sut::sample(Sampler::Std(Ty::Fr), &mut r));
        }
        v
    })?;
    *budget -= 20_000;
    let mut bins = [0f64; BINS];
    let mut low = [0f64; BINS];
    for v in &vals {
        if let Sampled::V(v) = v {
            if let RVal::Fr(s) = observe(v)? {
                let top = s.0[3] as f64 / sut::R_LIMBS[3] as f64;
                bins[((top * BINS as f64) as usize).min(BINS - 1)] += 1.0;
                low[(s.0[0] & 15) as usize] += 1.0;
            }
        }
    }
    let e = N as f64 / BINS as f64;
    for b in [bins, low] {
        let chi: f64 = b.iter().map(|x| (x - e) * (x - e) / e).sum();
        c.hit("spread tests");
        // 15 degrees of freedom: exceeded with probability below 1e-14 when uniform
        if chi > 105.0 {
            return viol("biased", format!("{} samples fall into 16 equal bins as {:?}", N, b));
        }
    }
    Ok(())
}
