//! Choice tape: every random decision of a case is one recorded number, so any
//! case can be replayed and shrunk by editing the tape.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(29).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub struct Src {
    given: Option<Vec<u64>>,
    rng: Rng,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { given: None, rng: Rng::new(seed), rec: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { given: Some(tape), rng: Rng::new(0), rec: Vec::new() }
    }

    /// A number in `0..n` (`n == 0` means the full range)
    pub fn raw(&mut self, n: u64) -> u64 {
        let v = match &self.given {
            Some(t) => t.get(self.rec.len()).copied().unwrap_or(0),
            None => self.rng.next(),
        };
        let v = if n == 0 { v } else if self.given.is_some() { if v < n { v } else { v % n } } else { ((v as u128 * n as u128) >> 64) as u64 };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.raw(n as u64) as usize
    }
    /// Inclusive range; shrinks towards `lo`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(0)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// Index chosen by weight; shrinks towards the first entry
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// Geometric-ish size in 0..=max
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => 0,
            1 => self.range(0, max.min(1)),
            2 => self.range(0, max.min(3)),
            _ => self.range(0, max),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // identity for the all-zero tape
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below(v.len() - i);
            v.swap(i, j);
        }
    }
}
