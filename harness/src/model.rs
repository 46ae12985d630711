//! The reference model: an ordered dictionary over the dense domain 0..dom,
//! with order statistics by a Fenwick tree. Deliberately nothing like a B+ tree.

#[derive(Clone)]
pub struct Model {
    dom: usize,
    /// 0 = absent, otherwise value id + 1
    val: Vec<u64>,
    fen: Vec<u32>,
    n: usize,
    top: usize,
}

impl Model {
    pub fn new(dom: usize) -> Self {
        let dom = dom.max(1);
        let mut top = 1;
        while top * 2 <= dom {
            top *= 2;
        }
        Model { dom, val: vec![0; dom], fen: vec![0; dom + 1], n: 0, top }
    }
    pub fn dom(&self) -> usize {
        self.dom
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    #[inline]
    pub fn get(&self, x: u32) -> Option<u64> {
        let v = self.val[x as usize];
        if v == 0 {
            None
        } else {
            Some(v - 1)
        }
    }
    fn add(&mut self, x: u32, up: bool) {
        let mut i = x as usize + 1;
        while i <= self.dom {
            if up {
                self.fen[i] += 1;
            } else {
                self.fen[i] -= 1;
            }
            i += i & i.wrapping_neg();
        }
    }
    pub fn set(&mut self, x: u32, vid: u64) -> Option<u64> {
        let old = self.get(x);
        self.val[x as usize] = vid + 1;
        if old.is_none() {
            self.n += 1;
            self.add(x, true);
        }
        old
    }
    pub fn remove(&mut self, x: u32) -> Option<u64> {
        let old = self.get(x);
        if old.is_some() {
            self.val[x as usize] = 0;
            self.n -= 1;
            self.add(x, false);
        }
        old
    }
    pub fn clear(&mut self) {
        *self = Model::new(self.dom);
    }
    /// number of present keys smaller than x
    pub fn rank(&self, x: u32) -> usize {
        let mut i = (x as usize).min(self.dom);
        let mut s = 0usize;
        while i > 0 {
            s += self.fen[i] as usize;
            i -= i & i.wrapping_neg();
        }
        s
    }
    /// the i-th smallest present key
    pub fn select(&self, i: usize) -> Option<u32> {
        if i >= self.n {
            return None;
        }
        let mut pos = 0;
        let mut rem = i as u32;
        let mut step = self.top;
        while step > 0 {
            if pos + step <= self.dom && self.fen[pos + step] <= rem {
                pos += step;
                rem -= self.fen[pos];
            }
            step /= 2;
        }
        Some(pos as u32)
    }
    /// smallest present key > x
    pub fn succ(&self, x: u32) -> Option<u32> {
        let r = self.rank(x) + self.get(x).is_some() as usize;
        self.select(r)
    }
    /// largest present key < x
    pub fn pred(&self, x: u32) -> Option<u32> {
        let r = self.rank(x);
        if r == 0 {
            None
        } else {
            self.select(r - 1)
        }
    }
    pub fn first(&self) -> Option<u32> {
        self.select(0)
    }
    pub fn last(&self) -> Option<u32> {
        if self.n == 0 {
            None
        } else {
            self.select(self.n - 1)
        }
    }
    /// all entries in ascending order
    pub fn entries(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::with_capacity(self.n);
        for (i, x) in self.val.iter().enumerate() {
            if *x != 0 {
                v.push((i as u32, *x - 1));
            }
        }
        v
    }
}
