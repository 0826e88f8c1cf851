//! Discrete-event network: every delivery, delay, loss, duplicate, partition, crash and timer is an event in one
//! queue; who fails and when is drawn from the tape.
use crate::ctx::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Ev<M> {
    Msg { from: usize, to: usize, m: M },
    Timer { node: usize, epoch: u32, id: u32 },
    Crash { node: usize },
    Restart { node: usize },
    Split { side: u32 },
    Heal,
    Quiet,
}
pub struct Net<M> {
    q: BTreeMap<(u64, u64), Ev<M>>,
    seq: u64,
    pub n: usize,
    pub up: Vec<bool>,
    pub epoch: Vec<u32>,
    drop: u64,
    dup: u64,
    jitter: u64,
    slow: Option<usize>,
    side: u32, // bit per node; partitioned when bits differ
    split: bool,
    pub quiet: bool,
}
pub struct Profile {
    pub crashes: bool,
    pub horizon: u64,
}
impl<M: Clone> Net<M> {
    /// Draws the fault profile of this execution. Faults stop at `horizon`.
    pub fn new(c: &mut Ctx, n: usize, p: Profile) -> Self {
        let s = c.t.open();
        let drop = [0, 0, 50, 200, 400][c.t.below(5)];
        let dup = [0, 0, 100, 300][c.t.below(4)];
        let jitter = [0, 10, 300, 3000][c.t.below(4)];
        let slow = if c.t.chance(250) { Some(c.t.below(n)) } else { None };
        let mut net = Net { q: BTreeMap::new(), seq: 0, n, up: vec![true; n], epoch: vec![0; n], drop, dup, jitter, slow, side: 0, split: false, quiet: false };
        let nf = c.t.below(5);
        for _ in 0..nf {
            let at = c.t.draw(p.horizon);
            let len = 1 + c.t.draw(p.horizon / 2);
            if p.crashes && c.t.chance(600) {
                let node = c.t.below(n);
                net.at(at, Ev::Crash { node });
                net.at((at + len).min(p.horizon), Ev::Restart { node });
            } else {
                let side = c.t.draw(1 << n) as u32;
                net.at(at, Ev::Split { side });
                net.at((at + len).min(p.horizon), Ev::Heal);
            }
        }
        net.at(p.horizon, Ev::Quiet);
        c.t.close(s);
        net
    }
    fn at(&mut self, t: u64, e: Ev<M>) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    pub fn timer(&mut self, c: &Ctx, node: usize, id: u32, after: u64) {
        let e = self.epoch[node];
        self.at(c.now + after, Ev::Timer { node, epoch: e, id });
    }
    pub fn send(&mut self, c: &mut Ctx, from: usize, to: usize, m: M) {
        c.hit("messages sent");
        if self.quiet {
            self.at(c.now + 20, Ev::Msg { from, to, m });
            return;
        }
        if self.split && (self.side >> from ^ self.side >> to) & 1 == 1 {
            c.fault("messages lost to partition");
            return;
        }
        let s = c.t.open();
        if c.t.chance(self.drop) {
            c.fault("messages dropped");
        } else {
            let mut d = 20 + c.t.draw(self.jitter + 1);
            if self.slow == Some(from) || self.slow == Some(to) {
                d += c.t.draw(4000);
                c.fault("messages slowed");
            }
            if c.t.chance(self.dup) {
                let d2 = 20 + c.t.draw(5000);
                c.fault("messages duplicated");
                self.at(c.now + d2, Ev::Msg { from, to, m: m.clone() });
            }
            self.at(c.now + d, Ev::Msg { from, to, m });
        }
        c.t.close(s);
    }
    /// Next event that concerns the scenario; crashes, restarts and stale events are digested here.
    pub fn next(&mut self, c: &mut Ctx) -> Option<Ev<M>> {
        while let Some((&k, _)) = self.q.iter().next() {
            let e = self.q.remove(&k).unwrap();
            c.now = c.now.max(k.0);
            match e {
                Ev::Msg { to, .. } if !self.up[to] => c.fault("messages lost to crash"),
                Ev::Timer { node, epoch, .. } if !self.up[node] || epoch != self.epoch[node] => (),
                Ev::Crash { node } => {
                    if self.up[node] && !self.quiet {
                        self.up[node] = false;
                        self.epoch[node] += 1;
                        c.fault("crashes");
                        return Some(Ev::Crash { node });
                    }
                }
                Ev::Restart { node } => {
                    if !self.up[node] {
                        self.up[node] = true;
                        c.hit("restarts");
                        return Some(Ev::Restart { node });
                    }
                }
                Ev::Split { side } => {
                    if !self.quiet {
                        self.side = side;
                        self.split = true;
                        c.fault("partitions");
                    }
                }
                Ev::Heal => {
                    self.split = false;
                    c.hit("heals");
                }
                Ev::Quiet => {
                    self.split = false;
                    self.quiet = true;
                    for n in 0..self.n {
                        if !self.up[n] {
                            let t = c.now;
                            self.at(t, Ev::Restart { node: n });
                        }
                    }
                    return Some(Ev::Quiet);
                }
                e => return Some(e),
            }
        }
        None
    }
}
