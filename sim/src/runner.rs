//! Supervisor: one forked process per simulated execution; aggregation, shrinking, replay.
use crate::ctx::*;
use crate::rt;
use crate::tape::{mix, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub type Scenario = fn(&mut Ctx) -> Res;

/// An execution has hung when it has used this many seconds of processor time, or has slept through as many seconds of our own
/// waiting without using any. (The time of day is no evidence: the machine may have been busy, or stopped.)
const HANG_S: u64 = 60;

pub struct Outcome {
    pub class: Option<String>,
    pub msg: String,
    pub stats: BTreeMap<String, u64>,
    pub sig: u64,
    pub loghash: u64,
    pub now: u64,
    pub nontrivial: bool,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub log: Vec<String>,
    pub harness: bool,
}

static mut REPORT_FD: i32 = -1;
static mut WANT_FULL: bool = false;

/// Called in the child when its execution ends, on any thread.
pub fn child_report(c: &mut Ctx, v: Option<&Viol>) {
    let full = unsafe { WANT_FULL } || v.is_some();
    c.max("max_work", rt::work_done());
    let j = json!({
        "class": v.map(|v| v.class.clone()), "msg": v.map(|v| v.msg.clone()).unwrap_or_default(),
        "stats": c.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<String, u64>>(),
        "sig": c.sig, "loghash": c.loghash(), "now": c.now, "nt": c.nontrivial,
        "tape": if full { json!(c.t.out) } else { json!([]) },
        "spans": if full { json!(c.t.spans) } else { json!([]) },
        "log": if full { json!(c.log) } else { json!([]) },
    });
    let b = serde_json::to_vec(&j).unwrap();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(REPORT_FD, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
/// In a process that an execution started: its parent reports for it.
pub fn forget_report() {
    unsafe {
        libc::close(REPORT_FD);
        REPORT_FD = -1;
    }
}
fn parse(b: &[u8]) -> Option<Outcome> {
    let j: Value = serde_json::from_slice(b).ok()?;
    let u = |k: &str| j[k].as_u64().unwrap_or(0);
    let class = j["class"].as_str().map(|s| s.to_string());
    Some(Outcome {
        harness: class.as_deref().map_or(false, |c| c.starts_with("harness")),
        class,
        msg: j["msg"].as_str().unwrap_or("").to_string(),
        stats: j["stats"].as_object()?.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect(),
        sig: u("sig"),
        loghash: u("loghash"),
        now: u("now"),
        nontrivial: j["nt"].as_bool().unwrap_or(false),
        tape: j["tape"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0)).collect(),
        spans: j["spans"].as_array()?.iter().map(|x| (x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize)).collect(),
        log: j["log"].as_array()?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
    })
}
fn bare(class: &str, msg: String, harness: bool) -> Outcome {
    Outcome { class: Some(class.into()), msg, stats: BTreeMap::new(), sig: 0, loghash: 0, now: 0, nontrivial: true, tape: vec![], spans: vec![], log: vec![], harness }
}

pub struct Job {
    pub id: usize,
    pub tape: Tape,
    pub full: bool,
}
struct Running {
    id: usize,
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    cpu: u64,
    idle: u64,
}

fn child(scn: Scenario, tape: Tape, thorough: bool, full: bool, fd: i32) -> ! {
    unsafe {
        REPORT_FD = fd;
        WANT_FULL = full;
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 }; // address ranges of rt::Alloc included
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    rt::IN_CHILD.store(true, std::sync::atomic::Ordering::SeqCst);
    // where memory lies differs from process to process: that is drawn, too
    let mut tape = tape;
    let (stack, heap) = if tape.chance(800) { (tape.draw(4096), tape.draw(65536)) } else { (0, 0) };
    // and so are the clock, how fast it runs between readings, and the system's entropy
    if tape.chance(500) {
        rt::CLOCK_NS.store(1_000_000_000 * tape.draw(1 << 32), std::sync::atomic::Ordering::SeqCst);
        let steps = [1_000, 1, 1_000_000, 50_000_000, 1_000_000_000, 61_000_000_000, 3_600_000_000_000];
        rt::CLOCK_STEP.store(tape.pick(&steps), std::sync::atomic::Ordering::SeqCst);
        rt::reseed(tape.bits());
        if tape.chance(500) {
            rt::SETTINGS.store(1 + tape.draw(1 << 40), std::sync::atomic::Ordering::SeqCst);
        }
    }
    unsafe { TO_LIVE = Some((scn, tape, thorough)) };
    rt::on_own_memory(16 * stack as usize, 16 * heap as usize, life)
}
static mut TO_LIVE: Option<(Scenario, Tape, bool)> = None;
#[allow(static_mut_refs)]
extern "C" fn life() -> ! {
    let (scn, tape, thorough) = unsafe { TO_LIVE.take() }.unwrap();
    let mut c = Box::new(Ctx::new(tape, thorough));
    rt::set_ctx(&mut *c as *mut Ctx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::past::live(&mut c).and_then(|_| scn(&mut c))));
    match r {
        Ok(Ok(())) => child_report(&mut c, None),
        Ok(Err(v)) => {
            c.ev(format!("VIOLATION {}: {}", v.class, v.msg));
            child_report(&mut c, Some(&v));
        }
        Err(e) => {
            let m = panic_text(&*e);
            let at = rt::last_panic();
            let class = if at.starts_with("src/") || at.starts_with("calls/") { "harness-panic" } else { "panic:unguarded" };
            child_report(&mut c, Some(&Viol { class: class.into(), msg: format!("{} at {}", m, at) }));
        }
    }
    unsafe { libc::_exit(0) }
}

/// Called about twice a second.
fn hung(r: &mut Running) -> bool {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", r.pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let (state, cpu) = match (f.first(), f.get(11).and_then(|x| x.parse::<u64>().ok()), f.get(12).and_then(|x| x.parse::<u64>().ok())) {
        (Some(s), Some(u), Some(k)) => (*s, u + k),
        _ => return false,
    };
    if cpu != r.cpu {
        r.idle = 0;
    } else if state == "S" {
        r.idle += 1;
    }
    r.cpu = cpu;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    cpu > HANG_S * hz || r.idle > 2 * HANG_S
}

/// Runs jobs in forked children, at most `par` at a time; `sink` returns false to stop launching.
pub fn run_jobs(scn: Scenario, thorough: bool, par: usize, jobs: &mut dyn Iterator<Item = Job>, sink: &mut dyn FnMut(usize, Outcome) -> bool) {
    let mut run: Vec<Running> = Vec::new();
    let mut more = true;
    let mut tick = Instant::now();
    loop {
        while more && run.len() < par {
            match jobs.next() {
                None => more = false,
                Some(j) => unsafe {
                    let mut p = [0i32; 2];
                    if libc::pipe(p.as_mut_ptr()) != 0 {
                        eprintln!("harness: pipe failed");
                        std::process::exit(2);
                    }
                    let pid = libc::fork();
                    if pid < 0 {
                        eprintln!("harness: fork failed");
                        std::process::exit(2);
                    }
                    if pid == 0 {
                        libc::close(p[0]);
                        for r in &run {
                            libc::close(r.fd);
                        }
                        child(scn, j.tape, thorough, j.full, p[1]);
                    }
                    libc::close(p[1]);
                    run.push(Running { id: j.id, pid, fd: p[0], buf: vec![], cpu: 0, idle: 0 });
                },
            }
        }
        if run.is_empty() {
            return;
        }
        let mut fds: Vec<libc::pollfd> = run.iter().map(|r| libc::pollfd { fd: r.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 500) };
        let due = tick.elapsed() >= Duration::from_millis(500);
        if due {
            tick = Instant::now();
        }
        let mut done = Vec::new();
        for (k, f) in fds.iter().enumerate() {
            let r = &mut run[k];
            if f.revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(r.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    r.buf.extend_from_slice(&b[..n as usize]);
                } else {
                    done.push((k, false));
                }
            } else if due && hung(r) {
                done.push((k, true));
            }
        }
        for (k, hang) in done.into_iter().rev() {
            let r = run.remove(k);
            let mut st = 0;
            unsafe {
                libc::kill(r.pid, libc::SIGKILL);
                libc::waitpid(r.pid, &mut st, 0);
                libc::close(r.fd);
            }
            let o = if hang {
                bare("hang", format!("the execution made no end within {} s of processor time, or slept as long", HANG_S), false)
            } else {
                match parse(&r.buf) {
                    Some(o) => o,
                    None => {
                        let s = st & 0x7f;
                        if s == libc::SIGKILL {
                            bare("harness-killed", "child killed".into(), true)
                        } else {
                            bare(&format!("crash:signal-{}", s), format!("the process died (wait status {:#x})", st), false)
                        }
                    }
                }
            };
            if !sink(r.id, o) {
                more = false;
            }
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

// ---- shrinking ---------------------------------------------------------------------------------------------

fn eval(scn: Scenario, thorough: bool, par: usize, cands: Vec<Vec<u64>>) -> Vec<Outcome> {
    let n = cands.len();
    let mut out: Vec<Option<Outcome>> = (0..n).map(|_| None).collect();
    let mut it = cands.into_iter().enumerate().map(|(id, t)| Job { id, tape: Tape::replay(t), full: true });
    run_jobs(scn, thorough, par, &mut it, &mut |id, o| {
        out[id] = Some(o);
        true
    });
    out.into_iter().map(|o| o.unwrap()).collect()
}
fn cost(t: &[u64]) -> (usize, u128) {
    (t.len(), t.iter().map(|x| 64 - x.leading_zeros() as u128).sum())
}
fn trim(mut t: Vec<u64>) -> Vec<u64> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}
fn shrink(scn: Scenario, thorough: bool, par: usize, first: Outcome, secs: u64) -> (Vec<u64>, Outcome, usize) {
    let class = first.class.clone();
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = trim(first.tape.clone());
    let mut bo = first;
    let mut tried = 0;
    // one round of candidates; adopts the cheapest that still fails the same way
    let mut round = |best: &mut Vec<u64>, bo: &mut Outcome, cands: Vec<Vec<u64>>| -> bool {
        let cands: Vec<_> = cands.into_iter().filter(|c| c != best).collect();
        tried += cands.len();
        let mut win: Option<(Vec<u64>, Outcome)> = None;
        for (o, _c) in eval(scn, thorough, par, cands.clone()).into_iter().zip(cands) {
            if o.class == class && !o.tape.is_empty() {
                let t = trim(o.tape.clone());
                if cost(&t) < win.as_ref().map_or(cost(best), |w| cost(&w.0)) {
                    win = Some((t, o));
                }
            }
        }
        if let Some((t, o)) = win {
            *best = t;
            *bo = o;
            return true;
        }
        false
    };
    let slow = class.as_deref() == Some("hang");
    let mut again = !slow;
    while again && Instant::now() < end {
        again = false;
        loop {
            let n = best.len();
            let c: Vec<Vec<u64>> = (1..=8).map(|k| best[..n - (n * k / 9).min(n)].to_vec()).collect();
            if n < 2 || Instant::now() > end || !round(&mut best, &mut bo, c) {
                break;
            }
            again = true;
        }
        // spans, largest first
        let mut k = 0;
        loop {
            let mut sp: Vec<(usize, usize)> = bo.spans.iter().filter(|s| s.1 <= best.len()).cloned().collect();
            sp.sort_by_key(|s| std::cmp::Reverse((s.1 - s.0, s.0)));
            sp.dedup();
            let batch: Vec<_> = sp.iter().skip(k).take(par).cloned().collect();
            if batch.is_empty() || Instant::now() > end {
                break;
            }
            let mut c: Vec<Vec<u64>> = batch
                .iter()
                .map(|(a, b)| {
                    let mut t = best[..*a].to_vec();
                    t.extend_from_slice(&best[*b..]);
                    t
                })
                .collect();
            c.extend(batch.iter().map(|(a, b)| {
                let mut t = best.clone();
                t[*a..*b].iter_mut().for_each(|x| *x = 0);
                t
            }));
            if round(&mut best, &mut bo, c) {
                again = true;
                k = 0;
            } else {
                k += par;
            }
        }
        for size in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i < best.len() && Instant::now() < end {
                let mut c = Vec::new();
                for q in 0..par / 2 {
                    let a = i + q * size;
                    if a >= best.len() {
                        break;
                    }
                    let b = (a + size).min(best.len());
                    let mut t = best[..a].to_vec();
                    t.extend_from_slice(&best[b..]);
                    c.push(t);
                    let mut t = best.clone();
                    t[a..b].iter_mut().for_each(|x| *x = 0);
                    c.push(t);
                    if size == 1 && best[a] > 1 {
                        let mut t = best.clone();
                        t[a] /= 2;
                        c.push(t);
                        let mut t = best.clone();
                        t[a] = 1;
                        c.push(t);
                    }
                }
                if round(&mut best, &mut bo, c) {
                    again = true;
                } else {
                    i += size * (par / 2);
                }
            }
        }
    }
    (best, bo, tried)
}

// ---- command line --------------------------------------------------------------------------------------------

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn scenario(prop: &str) -> Scenario {
    crate::past::focus(prop);
    match crate::scenarios::find(prop) {
        Some(s) => s,
        None => {
            eprintln!("harness: no scenario {}", prop);
            std::process::exit(2)
        }
    }
}
fn prop_hash(p: &str) -> u64 {
    hash_bytes(p.as_bytes())
}
pub fn run_seed(seed: u64, prop: &str, build: &str, idx: u64) -> u64 {
    mix(mix(seed) ^ prop_hash(prop) ^ mix(prop_hash(build)) ^ mix(idx.wrapping_mul(0x9e3779b97f4a7c15)))
}
/// Same addresses in every process: what the code under test might derive from them must repeat.
fn fix_addresses() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_ASLR").is_none() {
            std::env::set_var("SIM_ASLR", "1");
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
            }
        }
    }
}

pub fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().skip(1).collect();
    rt::install();
    crate::refmath::warm_up();
    match a.first().map(|s| s.as_str()) {
        Some("run") => cmd_run(&a),
        Some("replay") => cmd_replay(&a),
        Some("hashes") => cmd_hashes(&a),
        Some("trace") => cmd_trace(&a),
        Some("survey") => cmd_survey(&a),
        Some("selftest") => crate::selftest::main(),
        _ => {
            eprintln!("usage: sim run|replay|hashes|trace|selftest");
            std::process::exit(2);
        }
    }
}

fn cmd_run(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let scn = scenario(&prop);
    let seed = num(a, "--seed", 1);
    let runs = num(a, "--runs", 100);
    let par = num(a, "--jobs", 8) as usize;
    let cap = num(a, "--cap", 300);
    let shrink_s = num(a, "--shrink", 45);
    let thorough = arg(a, "--tier").as_deref() == Some("thorough");
    let variant = arg(a, "--variant").unwrap_or_default();
    let outf = arg(a, "--out").unwrap();
    let replays = arg(a, "--replays").unwrap();
    let known: Vec<Value> = arg(a, "--known")
        .and_then(|f| std::fs::read(f).ok())
        .map(|b| match serde_json::from_slice::<Value>(&b) {
            Ok(v) => v["findings"].as_array().cloned().unwrap_or_default(),
            Err(e) => {
                eprintln!("harness: known findings file: {}", e);
                std::process::exit(2)
            }
        })
        .unwrap_or_default();
    let known: Vec<Value> = known.into_iter().filter(|k| k["property"] == prop.as_str()).collect();
    let t0 = Instant::now();
    let mut next = 0u64;
    let mut it = std::iter::from_fn(|| {
        if next >= runs || t0.elapsed().as_secs() >= cap {
            return None;
        }
        let i = next;
        next += 1;
        Some(Job { id: i as usize, tape: Tape::seeded(run_seed(seed, &prop, &variant, i)), full: i < 2 })
    });
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let (mut done, mut now, mut nt) = (0u64, 0u64, 0u64);
    let mut bad: BTreeMap<usize, Outcome> = BTreeMap::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    run_jobs(scn, thorough, par, &mut it, &mut |id, o| {
        done += 1;
        now += o.now;
        for (k, v) in &o.stats {
            let e = stats.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max_") { (*e).max(*v) } else { *e + v };
        }
        if o.nontrivial {
            nt += 1;
            sigs.insert(o.sig);
        }
        if id < 2 && o.class.is_none() {
            samples.push(json!({"run": id, "seed": run_seed(seed, &prop, &variant, id as u64), "choices": o.tape.len(),
                "log": o.log.iter().take(14).cloned().collect::<Vec<_>>(), "log_lines": o.log.len()}));
        }
        if let Some(cl) = &o.class {
            if let Some(k) = known.iter().find(|k| k["class"] == cl.as_str() && o.msg.contains(k["match"].as_str().unwrap_or("\u{0}"))) {
                *known_hit.entry(k["what"].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
                return true;
            }
            bad.insert(id, o);
            return false;
        }
        true
    });
    let wall = t0.elapsed().as_secs_f64();
    let mut res = json!({
        "runs": done, "requested": runs, "nontrivial": nt, "distinct": sigs.len(), "sim_us": now, "wall_s": wall,
        "stats": stats, "samples": samples, "edges_total": rt::guards(), "edges_reached": rt::covered(),
        "known": known_hit, "variant": variant, "build": simcalls::BUILD,
    });
    let mut code = 0;
    if let Some((id, o)) = bad.iter().find(|(_, o)| !o.harness).or(bad.iter().next()) {
        let id = *id;
        let s = run_seed(seed, &prop, &variant, id as u64);
        if o.harness {
            eprintln!("harness error in run {} (seed {}): {:?} {}", id, s, o.class, o.msg);
            code = 2;
        } else {
            let (class, msg) = (o.class.clone(), o.msg.clone());
            let o = bad.remove(&id).unwrap();
            // executions that died without a report are recorded by their seed alone
            let orig = o.tape.len();
            let mut replay = json!({
                "property": prop, "variant": variant, "build": simcalls::BUILD, "tier": if thorough { "thorough" } else { "quick" },
                "verif_seed": seed, "run": id, "seed": s, "class": class, "msg": msg, "original_choices": orig,
            });
            if orig > 0 {
                let again = eval(scn, thorough, par, vec![o.tape.clone()]).pop().unwrap();
                if again.class != class || again.loghash != o.loghash {
                    // the code under test has a source of nondeterminism outside every seam
                    eprintln!("run {} does not repeat from its tape ({:?} vs {:?}); reported as observed", id, class, again.class);
                    replay["tape"] = json!(o.tape);
                    replay["log"] = json!(o.log);
                    replay["repeats"] = json!(false);
                    report(&replays, &prop, &variant, seed, id, &mut res, &replay, &class);
                    std::fs::write(&outf, serde_json::to_vec_pretty(&res).unwrap()).expect("write result");
                    std::process::exit(1);
                }
                let (mut t, _, tried) = shrink(scn, thorough, par, again, shrink_s);
                let mut fin = eval(scn, thorough, par, vec![t.clone()]).pop().unwrap();
                if fin.class != class {
                    // the code under test follows something outside every seam; what was seen first counts
                    eprintln!("run {} does not repeat from its shrunk tape; reported as first observed", id);
                    t = o.tape.clone();
                    replay["repeats"] = json!(false);
                    fin = o;
                }
                replay["tape"] = json!(t);
                replay["msg"] = json!(fin.msg);
                replay["loghash"] = json!(fin.loghash);
                replay["log"] = json!(fin.log);
                replay["shrink_candidates"] = json!(tried);
            }
            report(&replays, &prop, &variant, seed, id, &mut res, &replay, &class);
            code = 1;
        }
    }
    std::fs::write(&outf, serde_json::to_vec_pretty(&res).unwrap()).expect("write result");
    std::process::exit(code);
}

fn report(replays: &str, prop: &str, variant: &str, seed: u64, id: usize, res: &mut Value, replay: &Value, class: &Option<String>) {
    let _ = std::fs::create_dir_all(replays);
    let path = format!("{}/{}-{}-{}-{}.json", replays, prop, variant, seed, id);
    std::fs::write(&path, serde_json::to_vec_pretty(replay).unwrap()).expect("write replay");
    res["violation"] = json!({"class": class, "msg": replay["msg"], "path": path, "run": id, "choices": replay["tape"].as_array().map(|t| t.len())});
}

fn job_of(j: &Value) -> Tape {
    match j["tape"].as_array() {
        Some(t) => Tape::replay(t.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Tape::seeded(j["seed"].as_u64().unwrap()),
    }
}
fn cmd_replay(a: &[String]) {
    let j: Value = serde_json::from_slice(&std::fs::read(&a[1]).expect("replay file")).expect("json");
    let prop = j["property"].as_str().unwrap().to_string();
    let scn = scenario(&prop);
    let mut it = std::iter::once(Job { id: 0, tape: job_of(&j), full: true });
    let mut o = None;
    run_jobs(scn, j["tier"] == "thorough", 1, &mut it, &mut |_, x| {
        o = Some(x);
        true
    });
    let o = o.unwrap();
    for l in &o.log {
        println!("{}", l);
    }
    match &o.class {
        None => {
            println!("not reproduced: the execution ends without a violation");
            std::process::exit(0);
        }
        Some(c) => {
            println!("{}: {}", c, o.msg);
            if o.harness {
                std::process::exit(2);
            }
            let same = j["class"] == c.as_str() && (j["loghash"].is_null() || j["loghash"] == o.loghash);
            println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
            println!("VIOLATION property={} replay={}", prop, a[1]);
            std::process::exit(1);
        }
    }
}
fn cmd_hashes(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let scn = scenario(&prop);
    let seed = num(a, "--seed", 1);
    let variant = arg(a, "--variant").unwrap_or_default();
    let n = num(a, "--runs", 50);
    let from = num(a, "--from", 0);
    let mut it = (from..from + n).map(|i| Job { id: i as usize, tape: Tape::seeded(run_seed(seed, &prop, &variant, i)), full: true });
    let mut rows = BTreeMap::new();
    run_jobs(scn, false, num(a, "--jobs", 8) as usize, &mut it, &mut |id, o| {
        let tape: Vec<u8> = o.tape.iter().flat_map(|x| x.to_le_bytes()).collect();
        rows.insert(id, format!("{} {:016x} {:016x} {:016x} {:?} {:016x} {}", id, o.loghash, o.sig, hash_bytes(&tape), o.class, hash_bytes(format!("{:?}", o.stats).as_bytes()), o.now));
        true
    });
    for r in rows.values() {
        println!("{}", r);
    }
}
/// Classes of violations over many runs, without stopping at the first.
fn cmd_survey(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let scn = scenario(&prop);
    let seed = num(a, "--seed", 1);
    let variant = arg(a, "--variant").unwrap_or_default();
    let mut it = (0..num(a, "--runs", 100)).map(|i| Job { id: i as usize, tape: Tape::seeded(run_seed(seed, &prop, &variant, i)), full: false });
    let mut cl: BTreeMap<String, (u64, usize, String)> = BTreeMap::new();
    run_jobs(scn, false, num(a, "--jobs", 8) as usize, &mut it, &mut |id, o| {
        let k = o.class.unwrap_or_else(|| "ok".into());
        cl.entry(k).or_insert((0, id, o.msg.chars().take(150).collect())).0 += 1;
        true
    });
    for (k, v) in cl {
        println!("{:6} {} (run {}: {})", v.0, k, v.1, v.2);
    }
}
fn cmd_trace(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let scn = scenario(&prop);
    let variant = arg(a, "--variant").unwrap_or_default();
    let i = num(a, "--run", 0);
    let t0 = Instant::now();
    let mut it = std::iter::once(Job { id: 0, tape: Tape::seeded(run_seed(num(a, "--seed", 1), &prop, &variant, i)), full: true });
    run_jobs(scn, arg(a, "--tier").as_deref() == Some("thorough"), 1, &mut it, &mut |_, o| {
        for l in &o.log {
            println!("{}", l);
        }
        println!("{:?} {} choices={} stats={:?} now={}us nt={}", o.class, o.msg, o.tape.len(), o.stats, o.now, o.nontrivial);
        true
    });
    println!("{:?}", t0.elapsed());
}
