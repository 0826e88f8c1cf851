//! State of one simulated execution: choices, event log, counters.
use crate::tape::Tape;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Viol>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Viol { class: class.to_string(), msg: msg.into() })
}

pub struct Ctx {
    pub t: Tape,
    pub thorough: bool,
    pub log: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub now: u64, // simulated microseconds
    pub nontrivial: bool,
    /// Genuine records seen so far (what forged ones may borrow from).
    pub seen: Vec<(simcalls::Ty, Vec<u64>)>,
}
fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl Ctx {
    pub fn new(t: Tape, thorough: bool) -> Self {
        Ctx { t, thorough, log: vec![], stats: BTreeMap::new(), sig: 0xcbf29ce484222325, now: 0, nontrivial: false, seen: vec![] }
    }
    /// Event log; also feeds the signature by which distinct executions are counted.
    pub fn ev(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sig = fnv(self.sig, s.as_bytes());
        if self.log.len() < 20_000 {
            self.log.push(format!("[{}us] {}", self.now, s));
        }
    }
    pub fn hit(&mut self, name: &'static str) {
        *self.stats.entry(name).or_insert(0) += 1;
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.stats.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.stats.entry(name).or_insert(0);
        *e = n.max(*e);
    }
    pub fn fault(&mut self, name: &'static str) {
        self.nontrivial = true;
        self.hit(name);
    }
    pub fn loghash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325;
        for l in &self.log {
            h = fnv(h, l.as_bytes());
            h = fnv(h, b"\n");
        }
        h
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    fnv(0xcbf29ce484222325, b)
}
#[macro_export]
macro_rules! ev {
    ($c:expr, $($a:tt)*) => { $c.ev(format!($($a)*)) };
}
/// Run a library call; a panic in it is a violation of the scenario's "does not panic".
pub fn guard<T>(op: &str, f: impl FnOnce() -> T) -> Res<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            viol(&format!("panic:{}", op), format!("{} panicked: {}", op, m))
        }
    }
}
