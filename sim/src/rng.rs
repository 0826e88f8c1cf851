//! Simulated random sources: a byte stream decided beforehand, read through any of the RngCore methods.
use crate::tape::{mix, Tape};
use rand::{Error, RngCore};

#[derive(Clone, Debug, PartialEq)]
pub enum Source {
    Good(u64),
    Stuck(u8),
    Period(Vec<u8>),
    Counter(u64),
    /// Good bytes, of which a few are forced to a value.
    Damaged(u64, Vec<(usize, u8)>),
    /// A fixed start, zeros after it.
    Short(Vec<u8>),
}
impl Source {
    pub fn byte(&self, i: usize) -> u8 {
        let good = |s: u64| (mix(s ^ (i as u64 / 8).wrapping_mul(0x9e3779b97f4a7c15)) >> (i % 8 * 8)) as u8;
        match self {
            Source::Good(s) => good(*s),
            Source::Stuck(b) => *b,
            Source::Period(p) => p[i % p.len()],
            Source::Counter(k) => {
                let w = k.wrapping_add(i as u64 / 8);
                (w >> (i % 8 * 8)) as u8
            }
            Source::Damaged(s, d) => d.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or_else(|| good(*s)),
            Source::Short(b) => b.get(i).copied().unwrap_or(0),
        }
    }
    pub fn bad(&self) -> bool {
        !matches!(self, Source::Good(_))
    }
}
pub fn good_source(t: &mut Tape) -> Source {
    Source::Good(t.bits())
}
pub fn any_source(t: &mut Tape) -> Source {
    let s = t.open();
    let r = match t.weighted(&[4, 3, 3, 2, 2, 2]) {
        0 => Source::Good(t.bits()),
        1 => Source::Stuck([0, 0xff, 0x80, 1, 0x55][t.below(5)]),
        2 => {
            let n = [1, 2, 4, 8, 16, 32, 64, 3][t.below(8)];
            Source::Period((0..n).map(|_| t.bits() as u8).collect())
        }
        3 => Source::Counter(if t.chance(500) { t.bits() } else { t.draw(4) }),
        4 => {
            let n = 1 + t.below(4);
            let s = t.bits();
            Source::Damaged(s, (0..n).map(|_| (t.below(256), t.bits() as u8)).collect())
        }
        _ => {
            let n = [1, 8, 31, 32, 33, 63][t.below(6)];
            Source::Short((0..n).map(|_| t.bits() as u8).collect())
        }
    };
    t.close(s);
    r
}

/// One draw: first byte and length.
pub type Draw = (usize, usize);
pub struct SimRng<'a> {
    pub src: Source,
    pub pos: usize,
    pub draws: Vec<Draw>,
    /// Bits flipped in the stream.
    pub flip: Vec<usize>,
    /// Panic at this draw.
    pub panic_at: Option<usize>,
    /// From this draw on, for so many draws: fail (an error where the method can tell, a panic otherwise).
    pub fail_at: Option<(usize, usize)>,
    pub delivered: usize,
    pub fired: bool,
    pub hook: Option<&'a mut dyn FnMut(usize)>,
}
impl<'a> SimRng<'a> {
    pub fn new(src: Source) -> Self {
        SimRng { src, pos: 0, draws: vec![], flip: vec![], panic_at: None, fail_at: None, delivered: 0, fired: false, hook: None }
    }
    fn take(&mut self, n: usize) -> [u8; 8] {
        match self.try_take(n) {
            Some(b) => b,
            None => panic!("injected: random source"),
        }
    }
    fn try_take(&mut self, n: usize) -> Option<[u8; 8]> {
        let k = self.draws.len();
        if k > 200_000 {
            panic!("no end of draws");
        }
        self.draws.push((self.pos, n));
        if let Some(h) = self.hook.as_mut() {
            h(k);
        }
        if self.panic_at == Some(k) {
            self.fired = true;
            panic!("injected: random source");
        }
        if let Some((at, times)) = self.fail_at {
            if k >= at && k - at < times {
                self.fired = true;
                return None;
            }
        }
        self.delivered += n * 8;
        let mut o = [0u8; 8];
        for x in o.iter_mut().take(n) {
            *x = self.src.byte(self.pos);
            for f in &self.flip {
                if f / 8 == self.pos {
                    *x ^= 1 << (f % 8);
                }
            }
            self.pos += 1;
        }
        Some(o)
    }
}
impl<'a> RngCore for SimRng<'a> {
    fn next_u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn next_u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8))
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.take(c.len());
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        for c in d.chunks_mut(8) {
            match self.try_take(c.len()) {
                Some(b) => c.copy_from_slice(&b[..c.len()]),
                None => return Err(Error::new(std::io::Error::from(std::io::ErrorKind::Other))),
            }
        }
        Ok(())
    }
}
