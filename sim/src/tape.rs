//! One choice tape decides an execution: filled from a seeded PRNG, or replayed and edited by the shrinker.
//! Choice 0 is always the plain one (first operation, in-order delivery, no fault).

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xdeadbeefcafef00d) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
}

pub struct Tape {
    rng: Option<Rng>,
    input: Vec<u64>,
    pub out: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
}
const LIMIT: usize = 400_000;
impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), input: vec![], out: vec![], spans: vec![] }
    }
    pub fn replay(input: Vec<u64>) -> Self {
        Tape { rng: None, input, out: vec![], spans: vec![] }
    }
    /// Uniform in 0..n (n = 0: all 64 bits).
    pub fn draw(&mut self, n: u64) -> u64 {
        if self.out.len() >= LIMIT {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            None => {
                let x = self.input.get(self.out.len()).copied().unwrap_or(0);
                if n == 0 {
                    x
                } else {
                    x.min(n - 1)
                }
            }
        };
        self.out.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    /// True with probability permille/1000; the zero choice is false.
    pub fn chance(&mut self, permille: u64) -> bool {
        if permille == 0 {
            return false;
        }
        self.draw(1000) >= 1000 - permille.min(1000)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights; index 0 is the zero choice.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let s: u64 = ws.iter().sum();
        let mut x = self.draw(s);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    pub fn bits(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn open(&mut self) -> usize {
        self.out.len()
    }
    pub fn close(&mut self, start: usize) {
        if self.out.len() > start {
            self.spans.push((start, self.out.len()));
        }
    }
}
