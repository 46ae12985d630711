//! User augmentations used by several checks: order-respecting folds of the
//! entries, one plain, one owning heap memory, one the free monoid itself.

use crate::kinds::*;
use crate::model::Model;
use crate::seg::{Acc, Seg};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::Key;

/// The write id a value was made from, as far as the value can tell.
pub trait Vid {
    fn vid(&self) -> u64;
    /// what `vid()` of the value written by `vid` is
    fn norm(vid: u64) -> u64 {
        vid
    }
}
impl Vid for u64 {
    fn vid(&self) -> u64 {
        *self
    }
}
impl Vid for String {
    fn vid(&self) -> u64 {
        self[1..].parse().expect("corrupt value")
    }
}
impl Vid for () {
    fn vid(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
impl Vid for [u64; 5] {
    fn vid(&self) -> u64 {
        self[3]
    }
}

impl Vid for crate::tok::VTok {
    fn vid(&self) -> u64 {
        self.i.check().expect("value shown to a summary");
        self.v
    }
}

pub fn fold_leaf<K: TKey, V: Vid>(keys: &[K], values: &[V]) -> Acc {
    assert!(keys.len() == values.len(), "a leaf shows {} keys and {} values", keys.len(), values.len());
    keys.iter().zip(values).fold(Acc::ZERO, |a, (k, v)| a.then(Acc::one(k.ix(), v.vid())))
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Fold(pub Acc);
impl<K: TKey + Key, V: Vid> Augmentation<K, V> for Fold {
    fn from_inner(_keys: &[K], a: &[Self]) -> Self {
        Fold(a.iter().fold(Acc::ZERO, |x, y| x.then(y.0)))
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        Fold(fold_leaf(keys, values))
    }
}

/// position of the n-th entry, for removal by position
macro_rules! by_position {
    ($t:ty, $n:expr) => {
        impl<K: TKey + Key, V: Vid> SearchAugmentation<K, V> for $t {
            type Query = usize;
            fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
                (q < keys.len()).then_some(q)
            }
            fn locate_in_inner(mut q: usize, _: &[K], a: &[Self]) -> Option<(usize, usize)> {
                for (i, x) in a.iter().enumerate() {
                    let n: usize = $n(x);
                    if q < n {
                        return Some((i, q));
                    }
                    q -= n;
                }
                None
            }
        }
    };
}
by_position!(Fold, |x: &Fold| x.0.n as usize);
by_position!(HeapFold, |x: &HeapFold| x.acc[0].n as usize);
by_position!(List, |x: &List| x.0.len());

/// owns heap memory and depends on first and last key
#[derive(Clone, Debug)]
pub struct HeapFold {
    pub acc: Box<[Acc; 1]>,
    pub ends: Option<(String, String)>,
}
impl Default for HeapFold {
    fn default() -> Self {
        HeapFold { acc: Box::new([Acc::ZERO]), ends: None }
    }
}
fn name(x: u32) -> String {
    format!("{x}")
}
impl<K: TKey + Key, V: Vid> Augmentation<K, V> for HeapFold {
    fn from_inner(_keys: &[K], a: &[Self]) -> Self {
        let lo = a.iter().filter_map(|x| x.ends.as_ref()).next();
        let hi = a.iter().rev().filter_map(|x| x.ends.as_ref()).next();
        HeapFold {
            acc: Box::new([a.iter().fold(Acc::ZERO, |x, y| x.then(y.acc[0]))]),
            ends: lo.map(|l| (l.0.clone(), hi.unwrap().1.clone())),
        }
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        HeapFold {
            acc: Box::new([fold_leaf(keys, values)]),
            ends: keys.first().map(|k| (name(k.ix()), name(keys[keys.len() - 1].ix()))),
        }
    }
}

/// the free monoid: all entries
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct List(pub Vec<(u32, u64)>);
impl<K: TKey + Key, V: Vid> Augmentation<K, V> for List {
    fn from_inner(_keys: &[K], a: &[Self]) -> Self {
        List(a.iter().flat_map(|x| x.0.iter().copied()).collect())
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        assert!(keys.len() == values.len());
        List(keys.iter().zip(values).map(|(k, v)| (k.ix(), v.vid())).collect())
    }
}

/// An augmentation whose value the model can predict.
pub trait Known<K: TKey, V: Vid>:
    Augmentation<K, V> + SearchAugmentation<K, V, Query = usize> + std::fmt::Debug
{
    fn same(&self, o: &Self) -> bool;
    fn of_model(m: &Model, seg: &Seg) -> Self;
}
impl<K: TKey, V: Vid> Known<K, V> for Fold {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn of_model(_: &Model, seg: &Seg) -> Self {
        Fold(seg.all())
    }
}
impl<K: TKey, V: Vid> Known<K, V> for HeapFold {
    fn same(&self, o: &Self) -> bool {
        self.acc == o.acc && self.ends == o.ends
    }
    fn of_model(m: &Model, seg: &Seg) -> Self {
        HeapFold { acc: Box::new([seg.all()]), ends: m.first().map(|f| (name(f), name(m.last().unwrap()))) }
    }
}
impl<K: TKey, V: Vid> Known<K, V> for List {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn of_model(m: &Model, _: &Seg) -> Self {
        List(m.entries().into_iter().map(|(x, v)| (x, V::norm(v))).collect())
    }
}

/// Rank as an order-sensitive fold over the entries before the key. The leaf
/// step is shown the keys only, so it folds keys (with a constant value).
#[derive(Clone, Copy, Debug, Default)]
pub struct KeyFold(pub Acc);
impl<K: TKey + Key, V> Augmentation<K, V> for KeyFold {
    fn from_inner(_keys: &[K], a: &[Self]) -> Self {
        KeyFold(a.iter().fold(Acc::ZERO, |x, y| x.then(y.0)))
    }
    fn from_leaf(keys: &[K], _: &[V]) -> Self {
        KeyFold(keys.iter().fold(Acc::ZERO, |a, k| a.then(Acc::one(k.ix(), 0))))
    }
}
impl<K: TKey + Key, V> RankAugmentation<K, V> for KeyFold {
    type Rank = Acc;
    fn initial_value() -> Acc {
        // not the neutral element: it must be passed in exactly once, first
        Acc::one(u32::MAX, 1)
    }
    fn fold_inner(_k: &K, rank: Acc, a: &[Self]) -> Acc {
        a.iter().fold(rank, |x, y| x.then(y.0))
    }
    fn fold_leaf(k: &K, rank: Acc, slot: Result<usize, usize>, keys: &[K]) -> Result<Acc, Acc> {
        let n = match slot {
            Ok(i) => i,
            Err(i) => i,
        };
        let r = keys[..n].iter().fold(rank, |a, k| a.then(Acc::one(k.ix(), 0)));
        match slot {
            Ok(i) => {
                assert!(keys[i] == *k, "the slot shown is not the key");
                Ok(r)
            }
            Err(_) => Err(r),
        }
    }
}
