//! The only source of randomness: a pure function of its seed.

#[derive(Clone)]
pub struct Rng(u64);

#[inline]
pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64;
    for p in parts {
        h = splitmix(h ^ splitmix(*p)).rotate_left(17);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    splitmix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(splitmix(seed))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        splitmix(self.0)
    }
    /// uniform in 0..n (0 when n is 0)
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    /// uniform in a..=b
    #[inline]
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    #[inline]
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.next() & (1 << 40) != 0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    /// log-uniform-ish in a..=b
    pub fn skew(&mut self, a: usize, b: usize) -> usize {
        let span = b - a + 1;
        let bits = (usize::BITS - span.leading_zeros()) as usize;
        let k = self.range(0, bits);
        let hi = if k >= usize::BITS as usize - 1 { span } else { (1usize << k).min(span) };
        a + self.below(hi)
    }
}
