//! Several threads, re-entrant callbacks, arbitrary preemption: every call must return what it returns alone.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::model::*;
use crate::refmath::*;
use crate::rng::*;
use crate::rt;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Sampled, Sampler, Ty, Val};
use std::sync::Arc;

#[derive(Clone)]
enum Call {
    Add(Val, Val),
    Sub(Val, Val),
    Neg(Val),
    Act(Val, rabe_bn::Fr),
    Inv(rabe_bn::Fr),
    Pow(rabe_bn::Fr, rabe_bn::Fr),
    Pair(Val, Val),
    Normal(Val),
    Eq(Val, Val),
    Encode(Codec, Val, Vec<Step>),
    Decode(Codec, Ty, Vec<u8>, Vec<Step>),
    Print(Val, bool),
    Export(Val),
    Sample(Sampler, Source),
    Text(String),
    Wide(Vec<u8>),
    Constants(Ty),
}
#[derive(Clone)]
struct Task {
    call: Call,
    /// What the model says the result is, where it is a value or an answer.
    want: Option<RVal>,
    answer: Option<Vec<u8>>,
    /// A call made from inside the callbacks of this one, at callback number k.
    inner: Option<(usize, Box<Task>)>,
}
#[derive(Clone, PartialEq, Debug)]
struct Obs {
    key: Vec<u8>,
    err: Option<String>,
}
fn of_val(v: &Val) -> Vec<u8> {
    let mut o = vec![v.ty() as u8];
    o.extend(sut::leaves(v).iter().flat_map(|x| x.to_le_bytes()));
    o
}
/// Performs the call on the current thread. The harness's own work is not preempted; the library's is.
fn perform(t: &Task, out: &mut Vec<Obs>) {
    let mut inner_out: Vec<Obs> = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut cb = |k: usize| {
            rt::yield_point();
            if let Some((at, i)) = &t.inner {
                if *at == k {
                    perform(i, &mut inner_out);
                }
            }
        };
        match &t.call {
            Call::Add(a, b) => of_val(&sut::add(a, b)),
            Call::Sub(a, b) => of_val(&sut::sub(a, b)),
            Call::Neg(a) => of_val(&sut::neg(a)),
            Call::Act(a, k) => of_val(&sut::act(a, *k)),
            Call::Inv(a) => sut::fr_inv(*a).map(|x| of_val(&Val::Fr(x))).unwrap_or_default(),
            Call::Pow(a, k) => of_val(&Val::Fr(sut::fr_pow(*a, *k))),
            Call::Pair(a, b) => match (a, b) {
                (Val::G1(a), Val::G2(b)) => of_val(&Val::Gt(sut::pairing(*a, *b))),
                _ => vec![],
            },
            Call::Normal(a) => {
                let mut v = *a;
                sut::normalize(&mut v);
                of_val(&v)
            }
            Call::Eq(a, b) => vec![sut::eq(a, b) as u8, sut::is_zero(a) as u8],
            Call::Encode(k, a, plan) => {
                let mut w = SimWriter::new(plan.clone());
                w.hook = Some(&mut cb);
                match sut::encode(*k, a, &mut w) {
                    Ok(()) => w.got,
                    Err(e) => format!("error {}", e).into_bytes(),
                }
            }
            Call::Decode(k, ty, b, plan) => {
                let mut r = SimReader::new(b, plan.clone());
                r.hook = Some(&mut cb);
                match sut::decode(*k, *ty, &mut r) {
                    Ok(v) => of_val(&v),
                    Err(e) => format!("error {}", e).into_bytes(),
                }
            }
            Call::Print(a, debug) => {
                let mut w = SimFmt::new(None);
                w.hook = Some(&mut cb);
                let _ = if *debug { sut::debug(a, &mut w) } else { sut::display(a, &mut w) };
                w.got.into_bytes()
            }
            Call::Export(a) => [sut::into_bytes(a), sut::vec_from(a)].concat(),
            Call::Sample(s, src) => {
                let mut r = SimRng::new(src.clone());
                r.hook = Some(&mut cb);
                match sut::sample(*s, &mut r) {
                    Sampled::V(v) => of_val(&v),
                    Sampled::L(l) => l.iter().flat_map(|x| x.to_le_bytes()).collect(),
                }
            }
            Call::Text(s) => sut::fr_from_str(s).map(|x| of_val(&Val::Fr(x))).unwrap_or_default(),
            Call::Wide(b) => {
                let mut a = [0u8; 64];
                a[64 - b.len()..].copy_from_slice(b);
                of_val(&Val::Fr(sut::fr_interpret(&a)))
            }
            Call::Constants(t) => [of_val(&sut::zero(*t)), of_val(&sut::base(*t))].concat(),
        }
    }));
    rt::unpreempted(|| {
        let o = match r {
            Ok(key) => Obs { key, err: None },
            Err(e) => Obs { key: vec![], err: Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) },
        };
        out.push(o);
        if let (Some((_, i)), true) = (&t.inner, inner_out.is_empty()) {
            let mut n = vec![];
            flat(i, &mut n);
            inner_out = vec![Obs { key: vec![], err: Some(ABSENT.into()) }; n.len()];
        }
        out.append(&mut inner_out);
    });
}
/// A re-entrant call that never came about: its host made fewer callbacks.
const ABSENT: &str = "(not called)";
fn name(t: &Task) -> String {
    let n = match &t.call {
        Call::Add(a, _) => format!("add {:?}", a.ty()),
        Call::Sub(a, _) => format!("sub {:?}", a.ty()),
        Call::Neg(a) => format!("neg {:?}", a.ty()),
        Call::Act(a, _) => format!("mul {:?}", a.ty()),
        Call::Inv(_) => "inverse".into(),
        Call::Pow(..) => "pow".into(),
        Call::Pair(..) => "pairing".into(),
        Call::Normal(a) => format!("normalize {:?}", a.ty()),
        Call::Eq(a, _) => format!("compare {:?}", a.ty()),
        Call::Encode(k, a, _) => format!("encode {:?} {:?}", k, a.ty()),
        Call::Decode(k, t, ..) => format!("decode {:?} {:?}", k, t),
        Call::Print(a, _) => format!("print {:?}", a.ty()),
        Call::Export(a) => format!("export {:?}", a.ty()),
        Call::Sample(s, _) => format!("sample {:?}", s),
        Call::Text(_) => "parse".into(),
        Call::Wide(_) => "interpret".into(),
        Call::Constants(t) => format!("constants {:?}", t),
    };
    match &t.inner {
        Some((at, i)) => format!("{} [at callback {}: {}]", n, at, name(i)),
        None => n,
    }
}
fn flat<'a>(t: &'a Task, o: &mut Vec<&'a Task>) {
    o.push(t);
    if let Some((_, i)) = &t.inner {
        flat(i, o);
    }
}

struct Bank {
    v: Vec<Vec<Tv>>,
}
impl Bank {
    fn get(&self, c: &mut Ctx, t: Ty) -> Tv {
        let r = &self.v[t as usize];
        r[c.t.below(r.len())]
    }
}
fn task(c: &mut Ctx, b: &Bank, wt: &[u64; 4], kinds: &[u64], depth: usize, budget: &mut i64) -> Task {
    let s = c.t.open();
    let mut ty = sut::TYS[c.t.weighted(wt)];
    let mut kind = c.t.weighted(kinds);
    let cost = |k: usize, t: Ty| -> i64 {
        match (k, t) {
            (4, Ty::G1) => 1200,
            (4, Ty::G2) => 4500,
            (4, Ty::Gt) => 22000,
            (7, _) => 12000,
            (14, Ty::G1) => 1200,
            (14, Ty::G2) => 4500,
            (14, Ty::Gt) => 20000,
            (10, Ty::G2) | (10, Ty::Gt) => 5000,
            (17, Ty::Gt) => 12000,
            _ => 20,
        }
    };
    if cost(kind, ty) > *budget {
        ty = Ty::Fr;
        if kind == 7 {
            kind = 0;
        }
    }
    *budget -= cost(kind, ty);
    let a = b.get(c, ty);
    let x = b.get(c, ty);
    let mut want = None;
    let mut answer = None;
    let plan = ragged_plan(&mut c.t);
    let call = match kind {
        0 => {
            want = Some(a.m.add(&x.m));
            Call::Add(a.v, x.v)
        }
        1 => {
            want = Some(a.m.sub(&x.m));
            Call::Sub(a.v, x.v)
        }
        2 => {
            want = Some(a.m.neg());
            Call::Neg(a.v)
        }
        3 | 4 => {
            let k = b.get(c, Ty::Fr);
            want = Some(a.m.act(&k.sc()));
            Call::Act(a.v, k.fr())
        }
        5 => {
            let k = b.get(c, Ty::Fr);
            want = k.sc().inv().map(RVal::Fr);
            if want.is_none() {
                answer = Some(vec![]);
            }
            Call::Inv(k.fr())
        }
        6 => {
            let (p, k) = (b.get(c, Ty::Fr), b.get(c, Ty::Fr));
            want = Some(RVal::Fr(p.sc().pow(&k.sc().0)));
            Call::Pow(p.fr(), k.fr())
        }
        7 => {
            let (p, q) = (b.get(c, Ty::G1), b.get(c, Ty::G2));
            want = k2(&p, &q, |x, y| x.mul(y)).map(|k| RVal::Gt(e_gen().pow_sc(&k)));
            Call::Pair(p.v, q.v)
        }
        8 => {
            want = Some(a.m);
            Call::Normal(a.v)
        }
        9 => {
            answer = Some(vec![(a.m == x.m) as u8, a.m.is_zero() as u8]);
            Call::Eq(a.v, x.v)
        }
        10 | 11 => {
            let k = c.t.pick(sut::CODECS);
            let l = a.m.leaves_with(gen_z_of(&mut c.t, &a.m));
            let bytes = ref_encode(k, ty, &l);
            if c.t.chance(150) {
                let n = c.t.below(bytes.len());
                Call::Decode(k, ty, bytes[..n].to_vec(), plan)
            } else {
                want = Some(a.m);
                Call::Decode(k, ty, bytes, plan)
            }
        }
        12 => Call::Encode(c.t.pick(sut::CODECS), a.v, plan),
        13 => {
            let d = c.t.chance(300);
            Call::Print(a.v, d)
        }
        14 => {
            let src = any_source(&mut c.t);
            Call::Sample(Sampler::Std(ty), src)
        }
        15 => {
            let k = b.get(c, Ty::Fr);
            want = Some(k.m);
            Call::Text(k.sc().to_dec())
        }
        16 => {
            let k = b.get(c, Ty::Fr);
            want = Some(k.m);
            Call::Wide(k.sc().to_be().to_vec())
        }
        17 => Call::Constants(ty),
        _ => Call::Export(a.v),
    };
    let calls_back = matches!(kind, 10..=14);
    let inner = if calls_back && depth > 0 && c.t.chance(300) {
        let at = if kind == 14 { c.t.below(64) } else { 1 + c.t.below(8) };
        Some((at, Box::new(task(c, b, wt, kinds, depth - 1, budget))))
    } else {
        None
    };
    c.t.close(s);
    Task { call, want, answer, inner }
}
fn judge(who: &str, t: &Task, o: &Obs) -> Res {
    if let Some(e) = &o.err {
        if e == ABSENT {
            return Ok(());
        }
        return viol("panic", format!("{} {} panicked: {}", who, name(t), e));
    }
    if let Some(w) = &t.want {
        let leaves: Vec<u64> = o.key.get(1..).unwrap_or(&[]).chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap_or([0; 8]))).collect();
        match RVal::from_leaves(w.ty(), &leaves) {
            Ok(g) if g == *w => (),
            Ok(g) => return viol("wrong-result", format!("{} {} gives {}, alone it is {}", who, name(t), g.short(), w.short())),
            Err(e) => return viol("wrong-result", format!("{} {} gives {:02x?} ({}), alone it is {}", who, name(t), o.key, e, w.short())),
        }
    }
    if let Some(w) = &t.answer {
        if *w != o.key {
            return viol("wrong-result", format!("{} {} answers {:?}, alone it is {:?}", who, name(t), o.key, w));
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let wt: [u64; 4] = [[6, 4, 1, 1], [10, 0, 0, 0], [1, 8, 0, 0], [1, 2, 4, 1], [1, 1, 1, 3]][c.t.below(5)];
    // swarm: each execution concentrates on some of the calls
    let mut kinds: Vec<u64> = vec![4, 3, 2, 1, 2, 3, 2, 1, 3, 3, 2, 2, 5, 5, 4, 2, 2, 1, 3];
    for k in kinds.iter_mut() {
        match c.t.below(4) {
            0 | 1 => (),
            2 => *k *= 6,
            _ => *k = 0,
        }
    }
    if kinds.iter().sum::<u64>() == 0 {
        kinds[12] = 1;
    }
    let crowd = c.t.chance(150);
    let nt = if crowd { 5 + c.t.below(4) } else { 2 + c.t.below(3) };
    let mut np = 2 + c.t.below(if crowd { 4 } else { 8 });
    // often one or two kinds of call on few values, so that whatever they share is contended
    let hot = c.t.chance(400);
    if hot {
        let (i, j) = (c.t.below(kinds.len()), c.t.below(kinds.len()));
        for (k, w) in kinds.iter_mut().enumerate() {
            *w = (k == i) as u64 * 2 + (k == j) as u64;
        }
        np += c.t.below(if crowd { 4 } else { 8 });
    }
    let mut budget: i64 = if c.thorough { 90_000 } else { 30_000 };
    let mut bank = Bank { v: vec![] };
    for ty in sut::TYS {
        let mut row = vec![];
        let many = if hot { 2 } else if wt[ty as usize] == 0 && (ty == Ty::Gt || ty == Ty::G2) { 1 } else { 3 };
        for _ in 0..many {
            row.push(if ty == Ty::Gt || ty == Ty::G2 {
                // known logarithms
                let k = gen_sc(&mut c.t);
                import(c, RVal::base(ty).act(&k), Some(k))?
            } else {
                fresh(c, ty)?
            });
        }
        bank.v.push(row);
    }
    // sometimes everyone runs the same program: contention on whatever is shared
    let same = c.t.chance(250);
    if same {
        budget = budget * 4 / nt as i64 / 3;
    }
    let mut progs: Vec<Vec<Task>> = vec![];
    for _ in 0..if same { 1 } else { nt } {
        let mut p = vec![];
        for _ in 0..np {
            p.push(task(c, &bank, &wt, &kinds, 2, &mut budget));
        }
        progs.push(p);
    }
    while progs.len() < nt {
        progs.push(progs[0].clone());
    }
    let gap = 3 + c.t.below(18) as u32;
    let at_shared = [0, 60, 250, 600][c.t.below(4)];
    let stalls = [0, 0, 5, 20][c.t.below(4)];
    for (i, p) in progs.iter().enumerate() {
        ev!(c, "thread {}: {}", i, p.iter().map(name).collect::<Vec<_>>().join("; "));
    }
    let progs = Arc::new(progs);
    let mut bodies: Vec<Box<dyn FnOnce() -> Vec<Obs> + Send>> = vec![];
    for i in 0..nt {
        let progs = progs.clone();
        bodies.push(Box::new(move || {
            let mut o = vec![];
            for t in &progs[i] {
                perform(t, &mut o);
            }
            o
        }));
    }
    let (outs, switches) = rt::run_threads(gap, at_shared, stalls, bodies);
    c.add("switches", switches);
    c.now += switches;
    if switches > nt as u64 {
        c.nontrivial = true;
    }
    ev!(c, "{} switches", switches);
    for i in 0..nt {
        let Some(o) = &outs[i] else { return viol("panic", format!("thread {} died", i)) };
        // the same calls alone, afterwards
        let mut alone = vec![];
        let mut tasks = vec![];
        for t in &progs[i] {
            perform(t, &mut alone);
            flat(t, &mut tasks);
        }
        let all: Vec<&Task> = tasks;
        if o.len() != alone.len() || o.len() != all.len() {
            return viol("harness-count", format!("thread {}: {} results concurrently, {} alone", i, o.len(), alone.len()));
        }
        for ((x, y), t) in o.iter().zip(&alone).zip(&all) {
            c.hit("calls");
            if x != y {
                return viol("differs-from-alone", format!("thread {}: {} gives {:02x?} {:?}, alone {:02x?} {:?}", i, name(t), x.key, x.err, y.key, y.err));
            }
        }
        for (t, x) in all.iter().zip(o) {
            judge("concurrent", t, x)?;
        }
    }
    Ok(())
}
