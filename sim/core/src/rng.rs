//! The one source of randomness: xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            *v = mix(x);
            x = x.wrapping_add(0x9E3779B97F4A7C15);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Small numbers are likely, large ones possible.
    pub fn geometric(&mut self, mean: usize, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.below(mean + 1) != 0 {
            n += 1;
        }
        n
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total.max(1) as usize) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        0
    }
}

/// FNV-style running hash used for event logs and state signatures.
#[derive(Clone, Copy)]
pub struct Fold(pub u64);
impl Fold {
    pub fn new() -> Fold {
        Fold(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x100000001b3));
    }
    pub fn str(&mut self, s: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.add(h ^ (s.len() as u64) << 48);
    }
}
impl Default for Fold {
    fn default() -> Self {
        Fold::new()
    }
}
