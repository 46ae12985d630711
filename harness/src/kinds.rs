//! Key and value families. `of` is strictly monotone, so the dense domain of
//! the model maps onto every key type; values carry the id of the write.

use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::Debug;

pub trait TKey: Clone + Ord + Debug + Borrow<Self::Q> {
    type Q: ?Sized + Ord;
    fn of(x: u32) -> Self;
    fn ix(&self) -> u32;
    fn q(&self) -> &Self::Q {
        self.borrow()
    }
}

pub trait TVal: Clone + Debug {
    fn of(vid: u64) -> Self;
    /// is this the value written by `vid`
    fn is(&self, vid: u64) -> bool;
    /// overwrite in place
    fn put(&mut self, vid: u64) {
        *self = Self::of(vid);
    }
}

macro_rules! plain_key {
    ($t:ty, $of:expr, $ix:expr) => {
        impl TKey for $t {
            type Q = $t;
            fn of(x: u32) -> Self {
                $of(x)
            }
            fn ix(&self) -> u32 {
                $ix(self)
            }
        }
    };
}
plain_key!(u32, |x: u32| x, |k: &u32| *k);
plain_key!(u64, |x: u32| x as u64 * 3 + 7, |k: &u64| ((*k - 7) / 3) as u32);
plain_key!(i64, |x: u32| x as i64 - 500, |k: &i64| (*k + 500) as u32);
plain_key!((u32, u32), |x: u32| (x / 7, x % 7), |k: &(u32, u32)| k.0 * 7 + k.1);
plain_key!([u8; 3], |x: u32| [(x >> 16) as u8, (x >> 8) as u8, x as u8], |k: &[u8; 3]| (k[0]
    as u32)
    << 16
    | (k[1] as u32) << 8
    | k[2] as u32);

/// ordered the other way round than its content, and large
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wide {
    pub pad: [u64; 4],
    pub n: u32,
}
impl PartialOrd for Wide {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Wide {
    fn cmp(&self, o: &Self) -> Ordering {
        o.n.cmp(&self.n)
    }
}
plain_key!(Wide, |x: u32| Wide { pad: [x as u64; 4], n: u32::MAX - x }, |k: &Wide| {
    assert!(k.pad == [(u32::MAX - k.n) as u64; 4], "torn key");
    u32::MAX - k.n
});

/// over-aligned
#[repr(align(64))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Al(pub u32);
plain_key!(Al, |x: u32| Al(x), |k: &Al| {
    assert!(k as *const Al as usize % 64 == 0, "misaligned key");
    k.0
});

impl TKey for String {
    type Q = str;
    fn of(x: u32) -> Self {
        format!("key-{:07}", x)
    }
    fn ix(&self) -> u32 {
        self[4..].parse().expect("corrupt string key")
    }
}

impl TKey for Box<u32> {
    type Q = u32;
    fn of(x: u32) -> Self {
        Box::new(x)
    }
    fn ix(&self) -> u32 {
        **self
    }
}

impl TVal for u64 {
    fn of(vid: u64) -> Self {
        vid
    }
    fn is(&self, vid: u64) -> bool {
        *self == vid
    }
}
impl TVal for () {
    fn of(_: u64) -> Self {}
    fn is(&self, _: u64) -> bool {
        true
    }
}
impl TVal for u8 {
    fn of(vid: u64) -> Self {
        vid as u8
    }
    fn is(&self, vid: u64) -> bool {
        *self == vid as u8
    }
}
impl TVal for String {
    fn of(vid: u64) -> Self {
        format!("v{vid}")
    }
    fn is(&self, vid: u64) -> bool {
        *self == <String as TVal>::of(vid)
    }
}
impl TVal for Box<u64> {
    fn of(vid: u64) -> Self {
        Box::new(vid)
    }
    fn is(&self, vid: u64) -> bool {
        **self == vid
    }
}
impl TVal for [u64; 5] {
    fn of(vid: u64) -> Self {
        [vid; 5]
    }
    fn is(&self, vid: u64) -> bool {
        *self == [vid; 5]
    }
}
#[repr(align(32))]
#[derive(Clone, Debug)]
pub struct AlV(pub u64);
impl TVal for AlV {
    fn of(vid: u64) -> Self {
        AlV(vid)
    }
    fn is(&self, vid: u64) -> bool {
        self as *const AlV as usize % 32 == 0 && self.0 == vid
    }
}
