//! The single source of every choice of a simulated run.
//!
//! In generate mode choices come from one PRNG seeded with (VERIF_SEED, property, run index); in
//! replay mode they come from a recorded vector. A recorded vector therefore *is* the run: the
//! generated workload, every scheduling decision, every delay and every fault. Zero is always the
//! simplest alternative and an exhausted replay vector yields zeroes, so that deleting or
//! lowering choices simplifies the run.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub struct Src {
    rng: Option<Rng>,
    pub data: Vec<u64>,
    pos: usize,
    /// (start, end) of meaningful groups of choices, used by the minimiser.
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    /// Choices are also written here, for runs that kill their process.
    log: Option<std::fs::File>,
}

impl Src {
    pub fn generate(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), data: Vec::with_capacity(1024), pos: 0, spans: vec![], open: vec![], log: None }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Src { rng: None, data, pos: 0, spans: vec![], open: vec![], log: None }
    }
    pub fn log_to(&mut self, path: &std::path::Path) {
        self.log = std::fs::File::create(path).ok();
    }
    pub fn begin(&mut self) {
        self.open.push(self.pos);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            if self.pos > s {
                self.spans.push((s, self.pos));
            }
        }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.data.push(v);
                if let Some(f) = &mut self.log {
                    use std::io::Write;
                    let _ = f.write_all(&v.to_le_bytes());
                }
                v
            }
            None => match self.data.get(self.pos) {
                Some(v) => (*v).min(n - 1),
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    /// Any 64-bit value.
    pub fn raw(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo).saturating_add(1))
    }
    /// True with probability `permille`/1000; false is the simple alternative.
    pub fn chance(&mut self, permille: u64) -> bool {
        if permille == 0 {
            return false;
        }
        self.below(1000) >= 1000 - permille.min(1000)
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights (index 0 should be the simplest).
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut x = self.below(sum);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        0
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.rotate_left(23) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 32)
}
