//! The one source of every decision of a run: a list of bounded integers.
//!
//! While generating, each choice comes from a PRNG seeded with the run's seed and is recorded; while
//! replaying, it comes from the list (missing entries are 0). 0 is always the simplest choice, so
//! deleting or lowering entries simplifies the run.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15, seed.rotate_left(32) ^ 0xd1b54a32d192ed03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    /// splitmix64 over a 128-bit mixed state
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        self.1 = self.1.rotate_left(17) ^ z;
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

/// Bytes fully determined by a small number.
pub fn expand(seed: u32, n: usize) -> Vec<u8> {
    Rng::new(0x5eed_0000_0000 ^ seed as u64).bytes(n)
}

pub struct Source {
    rng: Option<Rng>,
    list: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Source {
    pub fn from_seed(seed: u64) -> Source {
        Source { rng: Some(Rng::new(seed)), list: vec![], pos: 0, rec: vec![] }
    }
    pub fn from_list(list: &[u32]) -> Source {
        Source { rng: None, list: list.to_vec(), pos: 0, rec: vec![] }
    }
    fn put(&mut self, n: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => gen(r),
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0) as u64;
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v as u32);
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0 && n as u64 <= 1 << 32);
        if n == 1 {
            return 0;
        }
        self.put(n as u64, |r| r.below(n as u64)) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// An index, with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.put(w.len() as u64, |r| {
            let mut x = r.below(total);
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u64;
                }
                x -= *wi as u64;
            }
            0
        }) as usize
    }
    /// True with probability pct/100.
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        self.weighted(&[100 - pct.min(100), pct.min(100)]) == 1
    }
    pub fn seed(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Small numbers are likely, large ones possible: uniform number of bits first.
    pub fn scale(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = usize::BITS - max.leading_zeros();
        let b = self.below(bits as usize + 1);
        if b == 0 {
            return 0;
        }
        let hi = ((1usize << b) - 1).min(max);
        let lo = 1usize << (b - 1);
        self.range(lo.min(hi), hi)
    }
}
