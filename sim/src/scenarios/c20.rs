//! State machine replication. Every replica is a process of its own, forked before the library was first used; the
//! scenario is the network, the sequencer, the disks and the scheduler, and makes no library call itself.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::past;
use crate::rng::*;
use crate::rt;
use crate::tape::Tape;
use simcalls as sut;
use rabe_bn::Fr;
use simcalls::{Codec, Sampler, Ty, Val};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NR: usize = 3;
#[derive(Copy, Clone, Debug, PartialEq)]
enum Op {
    Load,
    Const,
    Add,
    Sub,
    Neg,
    Act,
    Inv,
    Pow,
    Pair,
    Normal,
    Recode,
    Eq,
    IsZero,
    Sample,
    Text,
    Slice,
    Wide,
    Print,
    Debug,
    Export,
    Encode,
}
use Op::*;
const OPS: [Op; 21] = [
    Load, Const, Add, Sub, Neg, Act, Inv, Pow, Pair, Normal, Recode, Eq, IsZero, Sample, Text, Slice, Wide, Print, Debug, Export, Encode,
];
/// A log entry: what to do with which registers.
#[derive(Clone, Debug)]
struct Cmd {
    op: Op,
    t: Ty,
    d: usize,
    a: usize,
    b: usize,
    seed: u64,
    data: Vec<u8>,
}
impl Cmd {
    fn put(&self) -> Vec<u8> {
        let mut o = vec![OPS.iter().position(|x| *x == self.op).unwrap() as u8, self.t as u8, self.d as u8, self.a as u8, self.b as u8];
        o.extend_from_slice(&self.seed.to_le_bytes());
        o.extend_from_slice(&self.data);
        o
    }
    fn get(b: &[u8]) -> Cmd {
        Cmd {
            op: OPS[b[0] as usize],
            t: sut::TYS[b[1] as usize],
            d: b[2] as usize,
            a: b[3] as usize,
            b: b[4] as usize,
            seed: u64::from_le_bytes(b[5..13].try_into().unwrap()),
            data: b[13..].to_vec(),
        }
    }
    fn codec(&self) -> Codec {
        sut::CODECS[self.seed as usize % sut::CODECS.len()]
    }
}

// ---- the replica's side ----------------------------------------------------------------------------------

struct State {
    r: Vec<Val>, // by type, NR each
    each_on_a_thread: bool,
    deep: usize,
}
fn at(t: Ty, i: usize) -> usize {
    t as usize * NR + i
}
/// Executes one entry; returns what a client would be answered.
fn exec(r: &mut [Val], c: &Cmd) -> Vec<u8> {
    let (t, d) = (c.t, at(c.t, c.d));
    let (a, b) = (r[at(c.t, c.a)], r[at(c.t, c.b)]);
    let fr = |v: &Val| -> Fr {
        match v {
            Val::Fr(x) => *x,
            _ => panic!("harness: not a scalar"),
        }
    };
    let s = fr(&r[at(Ty::Fr, c.b)]);
    let mut out = vec![];
    match c.op {
        Load => match sut::dec(c.codec(), t, &c.data) {
            Ok(v) => r[d] = v,
            Err(_) => out.push(1),
        },
        Const => r[d] = if c.seed & 2 == 0 { sut::base(t) } else { sut::zero(t) },
        Add => r[d] = sut::add(&a, &b),
        Sub => r[d] = sut::sub(&a, &b),
        Neg => r[d] = sut::neg(&a),
        Act => r[d] = sut::act(&a, s),
        Inv => match sut::fr_inv(fr(&a)) {
            Some(x) => r[d] = Val::Fr(x),
            None => out.push(1),
        },
        Pow => r[d] = Val::Fr(sut::fr_pow(fr(&a), s)),
        Pair => {
            if let (Val::G1(p), Val::G2(q)) = (r[at(Ty::G1, c.a)], r[at(Ty::G2, c.b)]) {
                r[d] = Val::Gt(sut::pairing(p, q));
            }
        }
        Normal => sut::normalize(&mut r[d]),
        Recode => match sut::dec(c.codec(), t, &sut::enc(c.codec(), &a)) {
            Ok(v) => r[d] = v,
            Err(_) => out.push(1),
        },
        Eq => out = vec![sut::eq(&a, &b) as u8, sut::ne(&a, &b) as u8],
        IsZero => out.push(sut::is_zero(&a) as u8),
        Sample => {
            let mut tp = Tape::seeded(c.seed);
            let src = if tp.chance(200) { any_source(&mut tp) } else { good_source(&mut tp) };
            let which = match t {
                Ty::Fr => [Sampler::Std(t), Sampler::U256ModR, Sampler::U256ModQ, Sampler::U512][[0, 0, 0, 1, 2, 3][tp.below(6)]],
                Ty::G1 if tp.chance(300) => Sampler::GroupRandomG1,
                Ty::G2 if tp.chance(300) => Sampler::GroupRandomG2,
                _ => Sampler::Std(t),
            };
            let mut g = SimRng::new(src);
            match catch_unwind(AssertUnwindSafe(|| sut::sample(which, &mut g))) {
                Ok(sut::Sampled::V(v)) => r[d] = v,
                Ok(sut::Sampled::L(l)) => out.extend(l.iter().flat_map(|x| x.to_le_bytes())),
                Err(_) => out.push(1),
            }
            out.extend_from_slice(&(g.pos as u64).to_le_bytes());
        }
        Text => match sut::fr_from_str(&String::from_utf8_lossy(&c.data)) {
            Some(x) => r[d] = Val::Fr(x),
            None => out.push(1),
        },
        Slice => match sut::fr_from_slice(&c.data) {
            Some(x) => r[d] = Val::Fr(x),
            None => out.push(1),
        },
        Wide => {
            let mut w = [0u8; 64];
            w.copy_from_slice(&c.data);
            r[d] = Val::Fr(sut::fr_interpret(&w));
        }
        Print => out = sut::text(&a).into_bytes(),
        Debug => {
            let mut o = String::new();
            let _ = if c.seed & 2 == 0 { sut::debug(&a, &mut o) } else { sut::debug_alt(&a, &mut o) };
            out = o.into_bytes();
        }
        Export => {
            out = sut::into_bytes(&a);
            out.extend(sut::vec_from(&a));
        }
        Encode => out = sut::enc(c.codec(), &a),
    }
    out
}
#[inline(never)]
fn deeper<T>(n: usize, f: &mut dyn FnMut() -> T) -> T {
    let pad = [n as u8; 700];
    let r = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(&pad);
    r
}
fn raw(v: &Val) -> Vec<u8> {
    sut::enc(sut::BINARY, v)
}
/// The process's surroundings: nothing that results may depend on.
fn surroundings(s: &mut State, seed: u64) {
    let mut t = Tape::seeded(seed);
    rt::reseed(t.bits());
    rt::CLOCK_NS.store(t.draw(1 << 62), std::sync::atomic::Ordering::SeqCst);
    rt::SETTINGS.store([0, t.bits()][t.below(2)], std::sync::atomic::Ordering::SeqCst);
    s.each_on_a_thread = t.chance(200);
    s.deep = [0, 0, 3, 40, 400][t.below(5)];
    for (k, v) in [("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("HOME", "/nonexistent"), ("CI", "1")] {
        if t.chance(300) {
            std::env::set_var(k, v);
        }
    }
    if t.chance(300) {
        // one processor only
        unsafe {
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m) == 0 {
                let v: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &m)).collect();
                let mut o: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(v[t.below(v.len())], &mut o);
                libc::sched_setaffinity(0, std::mem::size_of_val(&o), &o);
            }
        }
    }
    for _ in 0..t.below(20) {
        let n = 1 + t.below(5000);
        std::mem::forget(vec![0xa5u8; n]); // allocations land elsewhere
    }
}
const APPLY: u8 = 0;
const SNAPSHOT: u8 = 1;
const RESTORE: u8 = 2;
const OTHER_WORK: u8 = 3;
const SETUP: u8 = 4;
const DUMP: u8 = 5;
fn word(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
}
fn handle(s: &mut State, req: &[u8]) -> Res<Vec<u8>> {
    match req[0] {
        SETUP => {
            surroundings(s, word(req, 1));
            Ok(vec![])
        }
        APPLY => {
            let c = Cmd::get(&req[1..]);
            let deep = s.deep;
            let r = &mut s.r;
            let out = if s.each_on_a_thread {
                std::thread::scope(|t| t.spawn(|| guard("apply", || exec(r, &c))).join().unwrap_or_else(|_| viol("harness-thread", "join")))?
            } else {
                guard("apply", || deeper(deep, &mut || exec(r, &c)))?
            };
            let mut o = (out.len() as u64).to_le_bytes().to_vec();
            o.extend(out);
            o.extend(guard("encode", || raw(&s.r[at(c.t, c.d)]))?);
            Ok(o)
        }
        SNAPSHOT => {
            let k = sut::CODECS[req[1] as usize];
            let mut o = vec![];
            for v in &s.r {
                let b = guard("encode", || sut::enc(k, v))?;
                o.extend((b.len() as u64).to_le_bytes());
                o.extend(b);
            }
            Ok(o)
        }
        RESTORE => {
            let k = sut::CODECS[req[1] as usize];
            let mut i = 2;
            for (x, v) in s.r.iter_mut().enumerate() {
                let n = word(req, i) as usize;
                i += 8;
                match guard("decode", || sut::dec(k, sut::TYS[x / NR], &req[i..i + n]))? {
                    Ok(y) => *v = y,
                    Err(e) => return viol("decode-failed", format!("snapshot of a {:?} register: {}", sut::TYS[x / NR], e)),
                }
                i += n;
            }
            Ok(vec![])
        }
        OTHER_WORK => {
            let mut c = Ctx::new(Tape::seeded(word(req, 1)), false);
            let us = word(req, 9);
            past::calls(&mut c, &[], us, us)?;
            Ok(vec![])
        }
        _ => {
            let mut o = vec![];
            for v in &s.r {
                o.extend(guard("encode", || raw(v))?);
            }
            Ok(o)
        }
    }
}
unsafe fn put(fd: i32, b: &[u8]) -> bool {
    let mut o = 0;
    while o < b.len() {
        let n = libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o);
        if n <= 0 {
            return false;
        }
        o += n as usize;
    }
    true
}
unsafe fn get(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0u8; n];
    let mut o = 0;
    while o < n {
        let k = libc::read(fd, b[o..].as_mut_ptr() as *mut _, n - o);
        if k <= 0 {
            return None;
        }
        o += k as usize;
    }
    Some(b)
}
unsafe fn put_frame(fd: i32, b: &[u8]) -> bool {
    put(fd, &(b.len() as u64).to_le_bytes()) && put(fd, b)
}
unsafe fn get_frame(fd: i32) -> Option<Vec<u8>> {
    let n = word(&get(fd, 8)?, 0);
    get(fd, n as usize)
}
fn serve(rd: i32, wr: i32) {
    let mut s = State { r: vec![], each_on_a_thread: false, deep: 0 };
    while let Some(req) = unsafe { get_frame(rd) } {
        if s.r.is_empty() {
            for t in sut::TYS {
                for i in 0..NR {
                    s.r.push(if i == 0 { sut::base(t) } else { sut::zero(t) });
                }
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| handle(&mut s, &req)));
        let o = match r {
            Ok(Ok(b)) => [vec![0], b].concat(),
            Ok(Err(v)) => [vec![1], v.class.into_bytes(), vec![0], v.msg.into_bytes()].concat(),
            Err(e) => [b"\x01panic:unguarded\0".to_vec(), crate::runner::panic_text(&*e).into_bytes()].concat(),
        };
        if !unsafe { put_frame(wr, &o) } {
            return;
        }
    }
}

// ---- the simulator's side -----------------------------------------------------------------------------------

struct Proc {
    pid: i32,
    tx: i32,
    rx: i32,
}
impl Proc {
    /// A new process in which the library has not been used yet.
    fn start(c: &mut Ctx) -> Res<Proc> {
        let on_a_thread = c.t.chance(250);
        let seed = c.t.bits();
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            if libc::pipe(a.as_mut_ptr()) != 0 || libc::pipe(b.as_mut_ptr()) != 0 {
                return viol("harness-pipe", "pipe failed");
            }
            let pid = libc::fork();
            if pid < 0 {
                return viol("harness-fork", "fork failed");
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                crate::runner::forget_report();
                rt::set_ctx(std::ptr::null_mut());
                libc::close(a[1]);
                libc::close(b[0]);
                if on_a_thread {
                    let _ = std::thread::Builder::new().stack_size(4 << 20).spawn(move || serve(a[0], b[1])).map(|h| h.join());
                } else {
                    serve(a[0], b[1]);
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            c.hit("processes");
            let p = Proc { pid, tx: a[1], rx: b[0] };
            p.call(&[vec![SETUP], seed.to_le_bytes().to_vec()].concat())?;
            Ok(p)
        }
    }
    fn call(&self, req: &[u8]) -> Res<Vec<u8>> {
        let r = unsafe {
            if !put_frame(self.tx, req) {
                None
            } else {
                get_frame(self.rx)
            }
        };
        match r {
            None => viol("replica-died", format!("a replica's process ended in the middle of request {}", req[0])),
            Some(b) if b[0] == 0 => Ok(b[1..].to_vec()),
            Some(b) => {
                let s = String::from_utf8_lossy(&b[1..]).to_string();
                let (class, msg) = s.split_once('\0').unwrap_or(("replica-failed", &s));
                viol(class, msg)
            }
        }
    }
    fn kill(&self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
            libc::close(self.tx);
            libc::close(self.rx);
        }
    }
}
#[derive(Clone)]
enum Msg {
    Append { idx: usize },
    Ack { upto: usize, life: u32 },
}
struct Replica {
    p: Option<Proc>,
    applied: usize,
    buffered: BTreeSet<usize>,
    disk: Option<(usize, u8, Vec<u8>)>, // entries applied, codec, snapshot
    busy: u64,
    told: String,
}
struct Cluster {
    log: Vec<Cmd>,
    /// Per entry: the answer and the changed register, and who gave it first.
    first: Vec<Option<(Vec<u8>, usize)>>,
    /// All registers after so many entries.
    states: Vec<Option<Vec<u8>>>,
}
impl Cluster {
    fn apply(&mut self, c: &mut Ctx, r: &mut Replica, who: usize) -> Res {
        let i = r.applied;
        let out = r.p.as_ref().unwrap().call(&[vec![APPLY], self.log[i].put()].concat())?;
        c.hit("entries applied");
        match &self.first[i] {
            None => self.first[i] = Some((out, who)),
            Some((o, w)) => {
                if *o != out {
                    return viol("diverged", format!("replicas {} ({}) and {} do not agree on entry {} {:?}: {:02x?} and {:02x?}", who, r.told, w, i, self.log[i], out, o));
                }
            }
        }
        r.applied += 1;
        Ok(())
    }
    fn state(&mut self, r: &Replica, who: usize) -> Res {
        let d = r.p.as_ref().unwrap().call(&[DUMP])?;
        match &self.states[r.applied] {
            None => self.states[r.applied] = Some(d),
            Some(o) => {
                if *o != d {
                    let k = (0..d.len()).find(|i| o.get(*i) != d.get(*i)).unwrap_or(0);
                    return viol("diverged", format!("after {} entries replica {} ({}) does not hold the state others had there (byte {})", r.applied, who, r.told, k));
                }
            }
        }
        Ok(())
    }
}
fn gen_log(c: &mut Ctx) -> Vec<Cmd> {
    let focus = c.t.weighted(&[3, 5, 4, 2, 3]);
    let wt: [u64; 4] = [[10, 0, 0, 0], [3, 10, 0, 0], [3, 0, 10, 0], [2, 1, 1, 6], [4, 4, 4, 2]][focus];
    let n = 4 + c.t.below([80, 50, 30, 12, 30][focus]);
    let mut budget: i64 = [20_000, 25_000, 35_000, 90_000, 60_000][focus];
    let recur = c.t.chance(500);
    let mut log: Vec<Cmd> = vec![];
    for _ in 0..n {
        let s = c.t.open();
        if recur && log.len() > 2 && c.t.chance(250) {
            // the same entry again
            let k = c.t.below(log.len());
            let x = log[k].clone();
            log.push(x);
            c.t.close(s);
            continue;
        }
        let t = sut::TYS[c.t.weighted(&wt)];
        let (d, a, b) = (c.t.below(NR), c.t.below(NR), c.t.below(NR));
        let op = match t {
            Ty::Fr => OPS[c.t.weighted(&[6, 1, 4, 4, 2, 4, 3, 1, 0, 0, 2, 2, 1, 5, 2, 2, 2, 1, 1, 1, 1])],
            Ty::Gt => OPS[c.t.weighted(&[1, 1, 4, 2, 2, 4, 0, 0, 4, 0, 1, 2, 1, 2, 0, 0, 0, 1, 1, 1, 1])],
            _ => OPS[c.t.weighted(&[6, 1, 7, 5, 2, 3, 0, 0, 0, 3, 2, 4, 2, 3, 0, 0, 0, 1, 1, 2, 1])],
        };
        let seed = c.t.bits();
        let mut cmd = Cmd { op, t, d, a, b, seed, data: vec![] };
        match op {
            Load => {
                let l = match gen_rval(c, t) {
                    r if r.is_zero() && matches!(t, Ty::G1 | Ty::G2) => odd_identity(c, t),
                    r => match t {
                        Ty::G1 | Ty::G2 => r.leaves_with(gen_z_of(&mut c.t, &r)),
                        _ => r.leaves(),
                    },
                };
                cmd.data = ref_encode(cmd.codec(), t, &l);
                if c.t.chance(60) {
                    c.fault("damaged entries");
                    let i = c.t.below(cmd.data.len());
                    cmd.data[i] ^= 1 << c.t.below(8);
                }
            }
            Text => cmd.data = format!("{}", c.t.bits() >> c.t.draw(64)).into_bytes(),
            Slice => cmd.data = (0..32).map(|_| c.t.draw(64) as u8).collect(),
            Wide => cmd.data = (0..64).map(|_| c.t.bits() as u8).collect(),
            _ => (),
        }
        c.t.close(s);
        budget -= match op {
            Act => [5, 1200, 4500, 14000][t as usize],
            Sample => [20, 1200, 4500, 14000][t as usize],
            Load | Recode => [10, 50, 2500, 12000][t as usize],
            Pair => 9000,
            Const if t == Ty::Gt => 9000,
            Normal => 100,
            _ => 60,
        };
        if budget < 0 {
            break;
        }
        log.push(cmd);
    }
    log
}
/// Whatever else this process is asked to do in between.
fn other_work(c: &mut Ctx, r: &mut Replica, us: u64) -> Res {
    let seed = c.t.bits();
    r.p.as_ref().unwrap().call(&[vec![OTHER_WORK], seed.to_le_bytes().to_vec(), us.to_le_bytes().to_vec()].concat())?;
    c.fault("other work done by replicas");
    r.busy += 1;
    Ok(())
}
fn come_up(c: &mut Ctx, cl: &mut Cluster, rs: &mut [Replica], i: usize) -> Res {
    let p = Proc::start(c)?;
    rs[i].p = Some(p);
    rs[i].applied = 0;
    rs[i].buffered.clear();
    rs[i].busy = 0;
    if c.t.chance(120) {
        other_work(c, &mut rs[i], 150_000)?;
    }
    // from its own disk, from another replica, or from nothing
    let donors: Vec<usize> = (0..rs.len()).filter(|j| *j != i && rs[*j].p.is_some()).collect();
    let from = if !donors.is_empty() && c.t.chance(300) {
        let d = c.t.pick(&donors);
        let k = c.t.below(sut::CODECS.len()) as u8;
        let b = rs[d].p.as_ref().unwrap().call(&[SNAPSHOT, k])?;
        c.hit("states transferred");
        Some((rs[d].applied, k, b))
    } else if rs[i].disk.is_some() && c.t.chance(150) {
        c.fault("disks lost");
        rs[i].disk = None;
        None
    } else {
        rs[i].disk.clone()
    };
    rs[i].told = match &from {
        None => "from an empty disk".into(),
        Some((n, ..)) => format!("from a snapshot after {} entries", n),
    };
    if let Some((n, k, b)) = from {
        rs[i].p.as_ref().unwrap().call(&[vec![RESTORE, k], b].concat())?;
        rs[i].applied = n;
        c.hit("snapshots restored");
    }
    cl.state(&rs[i], i)?;
    ev!(c, "replica {} is up {}", i, rs[i].told);
    Ok(())
}
pub fn run(c: &mut Ctx) -> Res {
    let log = gen_log(c);
    let n = 2 + c.t.below(3);
    let total = log.len();
    for (i, x) in log.iter().enumerate() {
        ev!(c, "entry {} {:?} {:?} {} {} {}", i, x.op, x.t, x.d, x.a, x.b);
    }
    let mut cl = Cluster { first: vec![None; total], states: vec![None; total + 1], log };
    let mut rs: Vec<Replica> = (0..n).map(|_| Replica { p: None, applied: 0, buffered: BTreeSet::new(), disk: None, busy: 0, told: String::new() }).collect();
    for i in 0..n {
        come_up(c, &mut cl, &mut rs, i)?;
    }
    let seq = n;
    let mut net: Net<Msg> = Net::new(c, n + 1, Profile { crashes: true, horizon: 4000 });
    let work = [0, 30, 100, 250][c.t.below(4)];
    let mut acked = vec![(0u32, 0usize); n]; // life of the replica, entries applied in it
    let mut out = 0; // entries sequenced
    net.timer(c, seq, 0, 10);
    net.timer(c, seq, 1, 700);
    while let Some(e) = net.next(c) {
        match e {
            Ev::Quiet => {
                if net.up[seq] {
                    net.timer(c, seq, 0, 20);
                    net.timer(c, seq, 1, 50);
                }
                for i in (0..n).filter(|i| rs[*i].p.is_some()) {
                    let m = Msg::Ack { upto: rs[i].applied, life: net.epoch[i] };
                    net.send(c, i, seq, m);
                }
            }
            Ev::Crash { node } if node < n => {
                if let Some(p) = rs[node].p.take() {
                    p.kill();
                }
                ev!(c, "replica {} is killed after {} entries", node, rs[node].applied);
            }
            Ev::Restart { node } if node < n => {
                come_up(c, &mut cl, &mut rs, node)?;
                let m = Msg::Ack { upto: rs[node].applied, life: net.epoch[node] };
                net.send(c, node, seq, m);
            }
            Ev::Restart { .. } => {
                net.timer(c, seq, 0, 20);
                net.timer(c, seq, 1, 80);
            }
            Ev::Timer { id: 0, .. } => {
                if out < total {
                    let burst = 1 + c.t.below(6);
                    for _ in 0..burst {
                        if out < total {
                            for r in 0..n {
                                net.send(c, seq, r, Msg::Append { idx: out });
                            }
                            out += 1;
                        }
                    }
                    let d = 1 + c.t.draw(200);
                    net.timer(c, seq, 0, d);
                }
            }
            Ev::Timer { .. } => {
                // what a replica has not acknowledged is sent again
                let mut wait = out < total || !net.quiet;
                for r in 0..n {
                    for idx in acked[r].1..out.min(acked[r].1 + 30) {
                        net.send(c, seq, r, Msg::Append { idx });
                        wait = true;
                    }
                }
                if wait {
                    net.timer(c, seq, 1, 500);
                }
            }
            Ev::Msg { to, m: Msg::Append { idx }, .. } => {
                if idx >= rs[to].applied {
                    rs[to].buffered.insert(idx);
                } else {
                    c.hit("duplicates ignored");
                }
                while { let k = rs[to].applied; rs[to].buffered.remove(&k) } {
                    if c.t.chance(work) {
                        other_work(c, &mut rs[to], 3_000)?;
                    }
                    cl.apply(c, &mut rs[to], to)?;
                    ev!(c, "replica {} applied {}", to, rs[to].applied - 1);
                    if c.t.chance(120) {
                        let k = c.t.below(sut::CODECS.len()) as u8;
                        let b = rs[to].p.as_ref().unwrap().call(&[SNAPSHOT, k])?;
                        rs[to].disk = Some((rs[to].applied, k, b));
                        c.hit("snapshots");
                    }
                    if c.t.chance(100) {
                        cl.state(&rs[to], to)?;
                    }
                }
                let m = Msg::Ack { upto: rs[to].applied, life: net.epoch[to] };
                net.send(c, to, seq, m);
            }
            Ev::Msg { from, m: Msg::Ack { upto, life }, .. } => {
                if life > acked[from].0 || (life == acked[from].0 && upto > acked[from].1) {
                    acked[from] = (life, upto);
                }
            }
            _ => (),
        }
    }
    for i in 0..n {
        if rs[i].applied != total {
            return viol("no-progress", format!("replica {} has applied {} of {} entries after faults stopped", i, rs[i].applied, total));
        }
        cl.state(&rs[i], i)?;
    }
    // an auditor that has seen nothing else
    let p = Proc::start(c)?;
    let mut aud = Replica { p: Some(p), applied: 0, buffered: BTreeSet::new(), disk: None, busy: 0, told: "auditor".into() };
    while aud.applied < total {
        cl.apply(c, &mut aud, n)?;
    }
    cl.state(&aud, n)?;
    c.hit("audits");
    for r in rs.iter().chain([&aud]) {
        if let Some(p) = &r.p {
            p.kill();
        }
    }
    Ok(())
}
