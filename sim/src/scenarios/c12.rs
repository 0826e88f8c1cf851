//! Register machine with checkpoints, killed and resumed at arbitrary points.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::refmath::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Ty, Val};

#[derive(Clone, Debug)]
enum Op {
    Fresh(Ty, usize),
    Const(Ty, usize, bool),
    Add(Ty, usize, usize, usize),
    Sub(Ty, usize, usize, usize),
    Neg(Ty, usize, usize),
    Act(Ty, usize, usize, usize),
    ActFresh(Ty, usize, usize),
    Inv(usize, usize),
    InvFresh(usize),
    Pow(usize, usize, usize),
    Pair(usize, usize, usize),
    Normal(Ty, usize),
    Recode(Ty, usize),
    Rescale(Ty, usize),
    Related(Ty, usize, usize, usize),
    Eq(Ty, usize, usize),
    IsZero(Ty, usize),
}
const NR: usize = 3;
fn ti(t: Ty) -> usize {
    t as usize
}
struct Machine {
    r: Vec<Vec<Tv>>,
}
struct Input {
    fresh: Vec<Option<Tv>>,
}

fn exec(c: &mut Ctx, m: &mut Machine, op: &Op, input: &Option<Tv>) -> Res<Option<(Ty, usize)>> {
    macro_rules! set {
        ($t:expr, $d:expr, $v:expr) => {{
            let v = $v;
            m.r[ti($t)][$d] = v;
            return Ok(Some(($t, $d)));
        }};
    }
    match op.clone() {
        Op::Fresh(t, d) => set!(t, d, input.unwrap()),
        Op::Const(t, d, one) => set!(t, d, if one { base(t)? } else { zero(t)? }),
        Op::Add(t, d, a, b) => set!(t, d, add(&m.r[ti(t)][a], &m.r[ti(t)][b])?),
        Op::Sub(t, d, a, b) => set!(t, d, sub(&m.r[ti(t)][a], &m.r[ti(t)][b])?),
        Op::Neg(t, d, a) => set!(t, d, neg(&m.r[ti(t)][a])?),
        Op::Act(t, d, a, s) => set!(t, d, act(&m.r[ti(t)][a], &m.r[0][s])?),
        Op::ActFresh(t, d, a) => set!(t, d, act(&m.r[ti(t)][a], &input.unwrap())?),
        Op::Inv(..) | Op::InvFresh(_) => {
            let (d, a) = match op {
                Op::Inv(d, a) => (*d, m.r[0][*a]),
                Op::InvFresh(d) => (*d, input.unwrap()),
                _ => unreachable!(),
            };
            let i = guard("inverse", || sut::fr_inv(a.fr()))?;
            let w = a.sc().inv();
            match (i, w) {
                (None, None) => (),
                (Some(i), Some(w)) => set!(Ty::Fr, d, check("inverse", Tv { v: Val::Fr(i), m: crate::model::RVal::Fr(w), k: Some(w) })?),
                (i, _) => return viol("inverse-exists", format!("inverse of {} is {}", a.m.short(), if i.is_some() { "given" } else { "denied" })),
            }
        }
        Op::Pow(d, a, b) => {
            let (a, b) = (m.r[0][a], m.r[0][b]);
            let w = a.sc().pow(&b.sc().0);
            let v = guard("pow", || sut::fr_pow(a.fr(), b.fr()))?;
            set!(Ty::Fr, d, check("power", Tv { v: Val::Fr(v), m: crate::model::RVal::Fr(w), k: Some(w) })?)
        }
        Op::Pair(d, a, b) => set!(Ty::Gt, d, pair(&m.r[1][a], &m.r[2][b])?),
        Op::Normal(t, d) => set!(t, d, normal(&m.r[ti(t)][d])?),
        Op::Recode(t, d) => {
            let x = m.r[ti(t)][d];
            set!(t, d, recode(c, &x)?)
        }
        Op::Rescale(t, d) => {
            let x = m.r[ti(t)][d];
            set!(t, d, rescale(c, &x)?)
        }
        Op::Related(t, d, a, k) => {
            let x = m.r[ti(t)][a];
            set!(t, d, related_by(c, &x, k)?)
        }
        Op::Eq(t, a, b) => equal("registers", &m.r[ti(t)][a], &m.r[ti(t)][b])?,
        Op::IsZero(t, a) => zero_answer(&m.r[ti(t)][a])?,
    }
    Ok(None)
}
fn checkpoint(c: &mut Ctx, m: &Machine, normalise: bool) -> Res<Vec<Vec<u8>>> {
    let codec = c.t.pick(sut::CODECS);
    let mut out = vec![vec![sut::CODECS.iter().position(|x| *x == codec).unwrap() as u8]];
    for r in &m.r {
        for x in r {
            let x = if normalise { normal(x)? } else { *x };
            let mut w = SimWriter::new(ragged_plan(&mut c.t));
            if let Err(e) = guard("encode", || sut::encode(codec, &x.v, &mut w))? {
                return viol("encode-failed", format!("checkpoint of {}: {}", x.m.short(), e));
            }
            out.push(w.got);
        }
    }
    c.hit("checkpoints");
    Ok(out)
}
fn restore(c: &mut Ctx, ck: &[Vec<u8>], like: &Machine) -> Res<Machine> {
    let codec = sut::CODECS[ck[0][0] as usize];
    let mut i = 1;
    let mut r = Vec::new();
    for row in &like.r {
        let mut o = Vec::new();
        for x in row {
            let mut rd = SimReader::new(&ck[i], ragged_plan(&mut c.t));
            i += 1;
            match guard("decode", || sut::decode(codec, x.ty(), &mut rd))? {
                Ok(v) => o.push(check("restored register", Tv { v, ..*x })?),
                Err(e) => return viol("decode-failed", format!("checkpointed {} does not load: {}", x.m.short(), e)),
            }
        }
        r.push(o);
    }
    Ok(Machine { r })
}

pub fn run(c: &mut Ctx) -> Res {
    // swarm: which types this program works on
    let focus = c.t.weighted(&[3, 4, 4, 2, 3]);
    // now and then a node that has been up for long
    let soak = if c.t.chance(25) { 12 } else { 1 };
    let deep = if c.thorough && soak == 1 { 4 } else { 1 };
    let recur = [0, 0, 3, 20, 50][c.t.below(5)];
    let n = 8 + c.t.below([300, 120, 60, 24, 60][focus] * soak * deep);
    let wt: [u64; 4] = match focus {
        0 => [10, 0, 0, 0],
        1 => [3, 10, 0, 0],
        2 => [3, 0, 10, 0],
        3 => [2, 1, 1, 8],
        _ => [4, 4, 4, 2],
    };
    let mut m = Machine { r: vec![] };
    for t in sut::TYS {
        let mut row = vec![];
        for i in 0..NR {
            row.push(if i == 0 && (t != Ty::Gt || focus == 3) { base(t)? } else { zero(t)? });
        }
        m.r.push(row);
    }
    let mut budget: i64 = [60_000, 60_000, 80_000, 250_000, 150_000][focus] * (soak * deep) as i64; // estimated microseconds
    let mut prog = Vec::new();
    for _ in 0..n {
        let s = c.t.open();
        let t = sut::TYS[c.t.weighted(&wt)];
        let (d, a, b) = (c.t.below(NR), c.t.below(NR), c.t.below(NR));
        let kind = match t {
            Ty::Fr => c.t.weighted(&[6, 1, 5, 5, 2, 6, 3, 1, 0, 0, 1, 0, 4, 3, 2]),
            Ty::Gt => c.t.weighted(&[2, 1, 5, 3, 2, 6, 0, 0, 3, 0, 2, 0, 3, 3, 2]),
            _ => c.t.weighted(&[5, 1, 8, 6, 2, 2, 0, 0, 0, 3, 2, 3, 6, 5, 3]),
        };
        let gt = t == Ty::Gt;
        let (op, cost) = match kind {
            0 => (Op::Fresh(t, d), [30, 500, 1800, 4000][ti(t)]),
            1 => (Op::Const(t, d, a == 0), if gt { 10000 } else { 1 }),
            2 => (Op::Add(t, d, a, b), 100),
            3 => (Op::Sub(t, d, a, b), 200),
            4 => (Op::Neg(t, d, a), 100),
            5 => {
                let cost = [1, 1200, 4500, 30000][ti(t)];
                if c.t.chance(if gt { 800 } else { 500 }) {
                    (Op::ActFresh(t, d, a), cost)
                } else {
                    (Op::Act(t, d, a, b), cost)
                }
            }
            6 if c.t.chance(500) => (Op::InvFresh(d), 50),
            6 => (Op::Inv(d, a), 20),
            7 => (Op::Pow(d, a, b), 50),
            8 => (Op::Pair(d, a, b), 20000),
            9 => (Op::Normal(t, d), 50),
            10 => (Op::Recode(t, d), 50),
            11 => (Op::Rescale(t, d), 50),
            12 => (Op::Related(t, d, a, c.t.below(8)), 100),
            13 => (Op::Eq(t, a, b), 20),
            _ => (Op::IsZero(t, a), 5),
        };
        c.t.close(s);
        budget -= cost;
        if budget < 0 {
            break;
        }
        prog.push(op);
    }
    // inputs are drawn once: a resumed node reads the same ones
    let mut inp = Input { fresh: vec![] };
    let mut pool: Vec<Vec<Tv>> = vec![vec![]; 4];
    for op in &prog {
        let t = match op {
            Op::Fresh(t, _) => *t,
            Op::ActFresh(..) | Op::InvFresh(_) => Ty::Fr,
            _ => {
                inp.fresh.push(None);
                continue;
            }
        };
        // the same values may come up again and again
        let i = if recur == 0 { usize::MAX } else { c.t.below(recur) };
        if i < pool[ti(t)].len() {
            inp.fresh.push(Some(pool[ti(t)][i]));
        } else {
            let v = fresh(c, t)?;
            pool[ti(t)].push(v);
            inp.fresh.push(Some(v));
        }
    }
    let init: Vec<Vec<Tv>> = m.r.clone();
    ev!(c, "program of {} operations, focus {}", prog.len(), focus);
    // uninterrupted
    for (pc, op) in prog.iter().enumerate() {
        let w = exec(c, &mut m, op, &inp.fresh[pc])?;
        if let Some((t, d)) = w {
            zero_answer(&m.r[ti(t)][d])?;
        }
        ev!(c, "{} {:?} -> {}", pc, op, w.map(|(t, d)| m.r[ti(t)][d].m.short()).unwrap_or_default());
    }
    c.add("operations", prog.len() as u64);
    // the same with checkpoints and crashes
    let mut x = Machine { r: init };
    let (mut pc, mut ck_pc) = (0, 0);
    let mut ck = checkpoint(c, &x, false)?;
    let mut shadow = Machine { r: x.r.clone() };
    let crash = [0u64, 30, 80, 200][c.t.below(4)];
    let mut crashes = 0;
    while pc < prog.len() {
        let w = exec(c, &mut x, &prog[pc], &inp.fresh[pc])?;
        let _ = w;
        pc += 1;
        c.hit("operations resumed");
        if c.t.chance(150) {
            let nf = c.t.chance(400);
            ck = checkpoint(c, &x, nf)?;
            shadow = Machine { r: x.r.clone() };
            ck_pc = pc;
        }
        if crashes < 4 && c.t.chance(crash) {
            crashes += 1;
            c.fault("crashes");
            ev!(c, "crash at {}, resume at {}", pc, ck_pc);
            x = restore(c, &ck, &shadow)?;
            c.now += 1000;
            pc = ck_pc;
        }
    }
    for t in sut::TYS {
        for i in 0..NR {
            equal("resumed and uninterrupted run", &m.r[ti(t)][i], &x.r[ti(t)][i])?;
        }
    }
    Ok(())
}
