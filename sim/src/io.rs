//! Simulated streams and disk. Everything that happens on them was drawn from the tape beforehand.
use crate::ctx::*;
use crate::tape::Tape;
use std::io::{Error, ErrorKind, Read, Result as IoResult, Write};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Step {
    Full,
    Short(usize),
    Interrupted,
    Fail(ErrorKind),
    Panic,
    Zero, // write: accepts nothing; read: end of file
}
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::InvalidData,
];
pub fn any_kind(t: &mut Tape) -> ErrorKind {
    KINDS[t.below(KINDS.len())]
}
/// Harmless irregularities: short transfers and interrupted calls.
pub fn ragged_plan(t: &mut Tape) -> Vec<Step> {
    let s = t.open();
    let n = [0, 2, 6, 20, 60][t.below(5)];
    let fine = t.below(3);
    let p = (0..n)
        .map(|_| match t.weighted(&[2, 5, 2]) {
            0 => Step::Full,
            1 => Step::Short(1 + t.below([3, 9, 40][fine])),
            _ => Step::Interrupted,
        })
        .collect();
    t.close(s);
    p
}
pub fn count_plan(c: &mut Ctx, p: &[Step]) {
    for s in p {
        match s {
            Step::Short(_) => c.fault("short transfers"),
            Step::Interrupted => c.fault("interrupted calls"),
            _ => (),
        }
    }
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Vec<Step>,
    pub at: usize,
    /// Byte offset at which `fault` happens instead of a transfer across it.
    pub fault_at: Option<(usize, Step)>,
    pub fired: bool,
    pub calls: usize,
    pub hook: Option<&'a mut dyn FnMut(usize)>,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: Vec<Step>) -> Self {
        SimReader { data, pos: 0, plan, at: 0, fault_at: None, fired: false, calls: 0, hook: None }
    }
}
impl<'a> Read for SimReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.calls += 1;
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        let s = self.plan.get(self.at).copied().unwrap_or(Step::Full);
        self.at += 1;
        let mut n = b.len().min(self.data.len() - self.pos);
        match s {
            Step::Short(k) => n = n.min(k),
            Step::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
            _ => (),
        }
        if let Some((o, f)) = self.fault_at {
            if self.pos >= o {
                self.fired = true;
                match f {
                    Step::Fail(k) => return Err(Error::from(k)),
                    Step::Panic => panic!("injected: reader"),
                    _ => return Ok(0),
                }
            }
            n = n.min(o - self.pos);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct SimWriter<'a> {
    pub got: Vec<u8>,
    pub plan: Vec<Step>,
    pub at: usize,
    pub fault_at: Option<(usize, Step)>,
    pub fired: bool,
    /// The fault is transient: only the first call at the offset fails.
    pub once: bool,
    pub calls: usize,
    pub hook: Option<&'a mut dyn FnMut(usize)>,
}
impl<'a> SimWriter<'a> {
    pub fn new(plan: Vec<Step>) -> Self {
        SimWriter { got: vec![], plan, at: 0, fault_at: None, fired: false, once: false, calls: 0, hook: None }
    }
}
impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.calls += 1;
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        if b.is_empty() {
            return Ok(0);
        }
        let s = self.plan.get(self.at).copied().unwrap_or(Step::Full);
        self.at += 1;
        let mut n = b.len();
        match s {
            Step::Short(k) => n = n.min(k),
            Step::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
            _ => (),
        }
        if let Some((o, f)) = self.fault_at {
            if self.got.len() >= o && !(self.once && self.fired) {
                self.fired = true;
                match f {
                    Step::Fail(k) => return Err(Error::from(k)),
                    Step::Panic => panic!("injected: writer"),
                    _ => return Ok(0),
                }
            }
            if self.got.len() < o {
                n = n.min(o - self.got.len());
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
/// Formatting sink; accepts up to `limit` bytes (None: all), then fails.
pub struct SimFmt<'a> {
    pub got: String,
    pub limit: Option<usize>,
    pub panics: bool,
    pub fired: bool,
    pub once: bool,
    pub calls: usize,
    pub hook: Option<&'a mut dyn FnMut(usize)>,
}
impl<'a> SimFmt<'a> {
    pub fn new(limit: Option<usize>) -> Self {
        SimFmt { got: String::new(), limit, panics: false, fired: false, once: false, calls: 0, hook: None }
    }
}
impl<'a> std::fmt::Write for SimFmt<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        if let Some(l) = self.limit {
            if self.got.len() + s.len() > l && !(self.once && self.fired) {
                self.fired = true;
                if self.panics {
                    panic!("injected: formatter");
                }
                return Err(std::fmt::Error);
            }
        }
        self.got.push_str(s);
        Ok(())
    }
}

// ---- disk -----------------------------------------------------------------------------------------------------

pub const SECTOR: usize = 32;
/// One simulated file: what is durable, and writes since the last successful sync.
pub struct SimFile {
    pub durable: Vec<u8>,
    pub current: Vec<u8>,
    pub dirty: Vec<(usize, usize)>, // ranges written since the last sync, in order
}
impl SimFile {
    pub fn new() -> Self {
        SimFile { durable: vec![], current: vec![], dirty: vec![] }
    }
    pub fn append(&mut self, b: &[u8]) {
        let a = self.current.len();
        self.current.extend_from_slice(b);
        self.dirty.push((a, self.current.len()));
    }
    pub fn truncate(&mut self, n: usize) {
        self.current.truncate(n);
        // metadata operation: durable at once (ordered mode)
        self.durable.truncate(n);
        self.dirty.retain(|d| d.0 < n);
        for d in self.dirty.iter_mut() {
            d.1 = d.1.min(n);
        }
    }
    pub fn sync(&mut self) {
        self.durable = self.current.clone();
        self.dirty.clear();
    }
    /// Power loss: synced content survives; of the rest, any subset of sectors, in any of the states a disk leaves.
    pub fn crash(&mut self, c: &mut Ctx) {
        let s = c.t.open();
        let keep = c.t.below(3); // nothing, a prefix, scattered sectors
        let old = self.durable.len();
        let new = self.current.len();
        let mut d = self.durable.clone();
        match keep {
            0 => {
                if new > old {
                    c.fault("lost writes");
                }
            }
            1 => {
                if new > old {
                    let n = c.t.below(new - old + 1);
                    d.extend_from_slice(&self.current[old..old + n]);
                    c.fault("torn writes");
                }
            }
            _ => {
                if new > old {
                    d = self.current.clone();
                    let mut p = old;
                    while p < new {
                        let e = ((p / SECTOR + 1) * SECTOR).min(new);
                        match c.t.weighted(&[4, 2, 1]) {
                            0 => (),
                            1 => d[p..e].iter_mut().for_each(|x| *x = 0),
                            _ => {
                                let f = c.t.bits();
                                d[p..e].iter_mut().enumerate().for_each(|(i, x)| *x = (f >> (i % 8 * 8)) as u8)
                            }
                        }
                        p = e;
                    }
                    c.fault("scattered sector loss");
                }
            }
        }
        c.t.close(s);
        self.durable = d.clone();
        self.current = d;
        self.dirty.clear();
    }
}
