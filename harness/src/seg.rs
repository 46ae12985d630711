//! Order-respecting folds of the model contents, maintained in a segment
//! tree over the domain: what an augmentation should have computed.

/// A monoid element: number of entries, order-sensitive hash, weight, maximum.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc {
    pub n: u64,
    pub h: u64,
    pub p: u64,
    /// sum of the weights
    pub w: u64,
    /// largest score + 1, 0 if there is none
    pub mx: u64,
}

const B: u64 = 0x9e37_79b9_7f4a_7c15;

pub fn weight(x: u32, vid: u64) -> u64 {
    (vid.wrapping_mul(31) ^ x as u64) % 7
}
pub fn score(x: u32, vid: u64) -> u64 {
    crate::rng::splitmix(vid ^ (x as u64) << 40) % 1_000_000
}

impl Default for Acc {
    fn default() -> Self {
        Acc::ZERO
    }
}

impl Acc {
    pub const ZERO: Acc = Acc { n: 0, h: 0, p: 1, w: 0, mx: 0 };
    pub fn one(x: u32, vid: u64) -> Acc {
        Acc {
            n: 1,
            h: crate::rng::splitmix(x as u64 ^ vid.rotate_left(32)),
            p: B,
            w: weight(x, vid),
            mx: score(x, vid) + 1,
        }
    }
    pub fn then(self, o: Acc) -> Acc {
        Acc {
            n: self.n + o.n,
            h: self.h.wrapping_mul(o.p).wrapping_add(o.h),
            p: self.p.wrapping_mul(o.p),
            w: self.w + o.w,
            mx: self.mx.max(o.mx),
        }
    }
}

#[derive(Clone)]
pub struct Seg {
    size: usize,
    t: Vec<Acc>,
}

impl Seg {
    pub fn new(dom: usize) -> Self {
        let size = dom.max(1).next_power_of_two();
        Seg { size, t: vec![Acc::ZERO; 2 * size] }
    }
    pub fn from(dom: usize, entries: &[(u32, u64)]) -> Self {
        let mut s = Seg::new(dom);
        for &(x, v) in entries {
            s.t[s.size + x as usize] = Acc::one(x, v);
        }
        for i in (1..s.size).rev() {
            s.t[i] = s.t[2 * i].then(s.t[2 * i + 1]);
        }
        s
    }
    pub fn set(&mut self, x: u32, vid: Option<u64>) {
        let mut i = self.size + x as usize;
        self.t[i] = vid.map(|v| Acc::one(x, v)).unwrap_or(Acc::ZERO);
        while i > 1 {
            i /= 2;
            self.t[i] = self.t[2 * i].then(self.t[2 * i + 1]);
        }
    }
    pub fn all(&self) -> Acc {
        self.t[1]
    }
    /// fold over keys lo..hi
    pub fn range(&self, lo: usize, hi: usize) -> Acc {
        let (mut l, mut r) = (lo + self.size, hi.min(self.size) + self.size);
        let (mut a, mut b) = (Acc::ZERO, Acc::ZERO);
        while l < r {
            if l & 1 == 1 {
                a = a.then(self.t[l]);
                l += 1;
            }
            if r & 1 == 1 {
                r -= 1;
                b = self.t[r].then(b);
            }
            l /= 2;
            r /= 2;
        }
        a.then(b)
    }
    /// smallest key whose prefix fold (up to and including it) satisfies `f`;
    /// `f` must be monotone
    pub fn first_where(&self, f: impl Fn(&Acc) -> bool) -> Option<u32> {
        if !f(&self.t[1]) {
            return None;
        }
        let mut acc = Acc::ZERO;
        let mut i = 1;
        while i < self.size {
            let l = acc.then(self.t[2 * i]);
            if f(&l) {
                i *= 2;
            } else {
                acc = l;
                i = 2 * i + 1;
            }
        }
        Some((i - self.size) as u32)
    }
    /// largest key whose suffix fold (from it on) satisfies the monotone `f`
    pub fn last_where(&self, f: impl Fn(&Acc) -> bool) -> Option<u32> {
        if !f(&self.t[1]) {
            return None;
        }
        let mut acc = Acc::ZERO;
        let mut i = 1;
        while i < self.size {
            let r = self.t[2 * i + 1].then(acc);
            if f(&r) {
                i = 2 * i + 1;
            } else {
                acc = r;
                i *= 2;
            }
        }
        Some((i - self.size) as u32)
    }
}
