//! C09: user-defined search and rank augmentations against a linear rule.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::*;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::seg::{score, weight, Acc, Seg};
use harness::*;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::{BPlusTree, BPlusTreeMap, Key};

/// Summary with everything the queries below need; `name` owns memory.
#[derive(Clone, Debug, Default)]
struct Ix {
    a: Acc,
    keys: Acc,
    max_key: Option<Box<u32>>,
}
impl<K: TKey + Key, V: Vid> Augmentation<K, V> for Ix {
    fn from_inner(_: &[K], s: &[Self]) -> Self {
        Ix {
            a: s.iter().fold(Acc::ZERO, |x, y| x.then(y.a)),
            keys: s.iter().fold(Acc::ZERO, |x, y| x.then(y.keys)),
            max_key: s.iter().rev().filter_map(|x| x.max_key.clone()).next(),
        }
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        Ix {
            a: fold_leaf(keys, values),
            keys: keys.iter().fold(Acc::ZERO, |a, k| a.then(Acc::one(k.ix(), 0))),
            max_key: keys.last().map(|k| Box::new(k.ix())),
        }
    }
}

#[derive(Clone, Debug)]
enum Q {
    /// first / last entry in key order with at least this score (a value index)
    FirstScore(u64),
    LastScore(u64),
    /// entry in which the running weight passes this amount (zero weights are skipped)
    Weight(u64),
    /// n-th from either end
    Nth(u64),
    NthBack(u64),
    /// exact key, routed by the separator keys
    Exact(u32),
    /// smallest key not below, routed by the largest key of each child
    AtLeast(u32),
    /// owns heap memory while it is being routed
    Labelled(Box<str>, u64),
}

impl<K: TKey + Key, V: Vid> SearchAugmentation<K, V> for Ix {
    type Query = Q;
    fn locate_in_leaf(q: Q, keys: &[K], values: &[V]) -> Option<usize> {
        let e = |i: usize| (keys[i].ix(), values[i].vid());
        let n = keys.len();
        match q {
            Q::FirstScore(s) => (0..n).find(|&i| score(e(i).0, e(i).1) >= s),
            Q::LastScore(s) => (0..n).rev().find(|&i| score(e(i).0, e(i).1) >= s),
            Q::Weight(mut w) | Q::Labelled(_, mut w) => (0..n).find(|&i| {
                let x = weight(e(i).0, e(i).1);
                if w < x {
                    true
                } else {
                    w -= x;
                    false
                }
            }),
            Q::Nth(i) => (i < n as u64).then_some(i as usize),
            Q::NthBack(i) => (i < n as u64).then(|| n - 1 - i as usize),
            Q::Exact(x) => keys.binary_search(&K::of(x)).ok(),
            Q::AtLeast(x) => {
                let i = keys.partition_point(|k| k.ix() < x);
                (i < n).then_some(i)
            }
        }
    }
    fn locate_in_inner(q: Q, keys: &[K], s: &[Self]) -> Option<(usize, Q)> {
        let n = s.len();
        match q {
            Q::FirstScore(x) => (0..n).find(|&i| s[i].a.mx > x).map(|i| (i, q)),
            Q::LastScore(x) => (0..n).rev().find(|&i| s[i].a.mx > x).map(|i| (i, q)),
            Q::Weight(mut w) => {
                for i in 0..n {
                    if w < s[i].a.w {
                        return Some((i, Q::Weight(w)));
                    }
                    w -= s[i].a.w;
                }
                None
            }
            Q::Labelled(l, mut w) => {
                for i in 0..n {
                    if w < s[i].a.w {
                        return Some((i, Q::Labelled(format!("{l}/{i}").into(), w)));
                    }
                    w -= s[i].a.w;
                }
                None
            }
            Q::Nth(mut w) => {
                for i in 0..n {
                    if w < s[i].a.n {
                        return Some((i, Q::Nth(w)));
                    }
                    w -= s[i].a.n;
                }
                None
            }
            Q::NthBack(mut w) => {
                for i in (0..n).rev() {
                    if w < s[i].a.n {
                        return Some((i, Q::NthBack(w)));
                    }
                    w -= s[i].a.n;
                }
                None
            }
            Q::Exact(x) => Some((keys.partition_point(|k| k.ix() <= x), q)),
            Q::AtLeast(x) => {
                (0..n).find(|&i| s[i].max_key.as_ref().map_or(false, |m| **m >= x)).map(|i| (i, q))
            }
        }
    }
}
impl<K: TKey + Key, V: Vid> RankAugmentation<K, V> for Ix {
    type Rank = (Acc, Vec<u32>);
    fn initial_value() -> Self::Rank {
        (Acc::one(u32::MAX, 1), vec![7])
    }
    fn fold_inner(_k: &K, mut r: Self::Rank, s: &[Self]) -> Self::Rank {
        r.0 = s.iter().fold(r.0, |x, y| x.then(y.keys));
        r
    }
    fn fold_leaf(k: &K, mut r: Self::Rank, slot: Result<usize, usize>, keys: &[K]) -> Result<Self::Rank, Self::Rank> {
        let n = slot.unwrap_or_else(|e| e);
        assert!(keys[..n].iter().all(|x| x < k), "keys before the slot are not smaller");
        r.0 = keys[..n].iter().fold(r.0, |a, k| a.then(Acc::one(k.ix(), 0)));
        r.1.push(n as u32);
        match slot {
            Ok(i) => {
                assert!(keys[i] == *k, "the slot shown does not hold the key");
                Ok(r)
            }
            Err(i) => {
                assert!(i == keys.len() || keys[i] > *k, "the key at the insertion slot is not larger");
                Err(r)
            }
        }
    }
}

/// a value the summaries know nothing about, so it may be edited in place
#[derive(Clone, Debug)]
struct Opaque(u64);
impl Vid for Opaque {
    fn vid(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
impl TVal for Opaque {
    fn of(vid: u64) -> Self {
        Opaque(vid)
    }
    fn is(&self, vid: u64) -> bool {
        self.0 == vid
    }
}

trait Find<K: TKey, V: TVal + Vid>: Dict<K, V> {
    fn find(&self, q: Q) -> Option<(&K, &V)>;
    fn find_mut(&mut self, q: Q) -> Option<&mut V>;
    fn take(&mut self, q: Q) -> Option<(K, V)>;
    fn rank(&self, k: &K) -> Result<(Acc, Vec<u32>), (Acc, Vec<u32>)>;
    fn root(&self) -> &Ix;
}
macro_rules! find {
    ($t:ident) => {
        fn find(&self, q: Q) -> Option<(&K, &V)> {
            $t::get_by_augmentation(self, q)
        }
        fn find_mut(&mut self, q: Q) -> Option<&mut V> {
            $t::get_mut_by_augmentation(self, q)
        }
        fn take(&mut self, q: Q) -> Option<(K, V)> {
            $t::remove_by_augmentation(self, q)
        }
        fn rank(&self, k: &K) -> Result<(Acc, Vec<u32>), (Acc, Vec<u32>)> {
            $t::rank_by_augmentation(self, k)
        }
        fn root(&self) -> &Ix {
            $t::root_augmentation(self)
        }
    };
}
impl<K: TKey, V: TVal + Vid> Find<K, V> for Tree<K, V, Ix> {
    find!(BPlusTree);
}
impl<K: TKey, V: TVal + Vid> Find<K, V> for BPlusTreeMap<K, V, Ix> {
    find!(BPlusTreeMap);
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    seg: Seg,
    keys: Seg,
    hits: u64,
    by_query: u64,
    editable: bool,
}

impl<K: TKey, V: TVal + Vid, D: Find<K, V>> S<K, V, D> {
    fn want(&self, m: &Model, q: &Q) -> Option<u32> {
        match q {
            Q::FirstScore(s) => self.seg.first_where(|a| a.mx > *s),
            Q::LastScore(s) => self.seg.last_where(|a| a.mx > *s),
            Q::Weight(w) | Q::Labelled(_, w) => self.seg.first_where(|a| a.w > *w),
            Q::Nth(i) => m.select(*i as usize),
            Q::NthBack(i) => (*i < m.len() as u64).then(|| m.select(m.len() - 1 - *i as usize).unwrap()),
            Q::Exact(x) => m.get(*x).map(|_| *x),
            Q::AtLeast(x) => m.select(m.rank(*x)),
        }
    }
    /// the same by scanning, to check the oracle itself
    fn scan(m: &Model, q: &Q) -> Option<u32> {
        let e = m.entries();
        let norm = |v: u64| V::norm(v);
        match q {
            Q::FirstScore(s) => e.iter().find(|(x, v)| score(*x, norm(*v)) >= *s).map(|x| x.0),
            Q::LastScore(s) => e.iter().rev().find(|(x, v)| score(*x, norm(*v)) >= *s).map(|x| x.0),
            Q::Weight(w) | Q::Labelled(_, w) => {
                let mut sum = 0;
                e.iter()
                    .find(|(x, v)| {
                        sum += weight(*x, norm(*v));
                        sum > *w
                    })
                    .map(|x| x.0)
            }
            Q::Nth(i) => e.get(*i as usize).map(|x| x.0),
            Q::NthBack(i) => e.iter().rev().nth(*i as usize).map(|x| x.0),
            Q::Exact(x) => e.iter().find(|y| y.0 == *x).map(|x| x.0),
            Q::AtLeast(x) => e.iter().find(|y| y.0 >= *x).map(|x| x.0),
        }
    }
    fn query(&self, m: &Model, last: u32, rng: &mut Rng) -> Q {
        let x = Hist::interesting(m, last, rng);
        let s = match rng.below(4) {
            // the score of something present, just above it, or any
            0 | 1 => score(x, V::norm(m.get(x).unwrap_or(0))) + rng.below(2) as u64,
            2 => self.seg.all().mx.saturating_sub(rng.below(3) as u64),
            _ => 1_000_000 - rng.skew(1, 1_000_000) as u64,
        };
        let total = self.seg.all().w;
        let w = match rng.below(5) {
            0 => total + rng.below(2) as u64,
            1 => total.saturating_sub(1),
            2 => self.seg.range(0, x as usize).w,
            _ => rng.below(total as usize + 1) as u64,
        };
        let i = match rng.below(4) {
            0 => m.len() as u64 + rng.below(2) as u64,
            _ => rng.below(m.len() + 1) as u64,
        };
        match rng.below(8) {
            0 => Q::FirstScore(s),
            1 => Q::LastScore(s),
            2 => Q::Weight(w),
            3 => Q::Nth(i),
            4 => Q::NthBack(i),
            5 => Q::Exact(x),
            6 => Q::AtLeast(x),
            _ => Q::Labelled("q".into(), w),
        }
    }
    fn look(&mut self, m: &Model, q: Q) -> R {
        let want = self.want(m, &q);
        if m.len() < 60 {
            let s = Self::scan(m, &q);
            assert!(s == want, "the oracle disagrees with itself on {q:?}: {s:?} {want:?}");
        }
        self.hits += want.is_some() as u64;
        match (self.core.d.find(q.clone()), want) {
            (None, None) => Ok(()),
            (Some((k, v)), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => Ok(()),
            (g, w) => Err(format!("{q:?} over {} entries found {g:?}, should be key {w:?}", m.len())),
        }
    }
    fn key(&self, m: &Model, x: u32) -> R {
        let fold = Acc::one(u32::MAX, 1).then(self.keys.range(0, x as usize));
        let (found, got) = match self.core.d.rank(&K::of(x)) {
            Ok(r) => (true, r),
            Err(r) => (false, r),
        };
        ensure!(found == m.get(x).is_some(), "rank of key {x} says found = {found}");
        ensure!(
            got.0 == fold,
            "rank of key {x} folded {} entries, should be {} (or in another order)",
            got.0.n,
            fold.n
        );
        ensure!(got.1.len() == 2 && got.1[0] == 7, "rank of key {x} did not start from the initial value");
        Ok(())
    }
}

impl<K: TKey, V: TVal + Vid, D: Find<K, V>> Sink for S<K, V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.seg.set(x, Some(V::norm(vid)));
        self.keys.set(x, Some(0));
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.seg.set(x, None);
        self.keys.set(x, None);
        self.core.remove(m, x)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.seg = Seg::new(m.dom());
        self.keys = Seg::new(m.dom());
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        for _ in 0..rng.range(1, 3) {
            let q = self.query(m, last, rng);
            self.look(m, q)?;
            self.key(m, Hist::interesting(m, last, rng))?;
        }
        if rng.below(20) == 0 {
            self.core.probe(m, last, rng)?;
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.len(m.len())?;
        ensure!(self.core.d.root().a == self.seg.all(), "the root summary is not the fold of the contents");
        for _ in 0..200 {
            let q = self.query(m, rng.below(m.dom()) as u32, rng);
            self.look(m, q)?;
        }
        let step = m.dom() / 1000 + 1;
        let mut x = rng.below(step);
        while x < m.dom() {
            self.key(m, x as u32)?;
            self.look(m, if x % 2 == 0 { Q::Exact(x as u32) } else { Q::AtLeast(x as u32) })?;
            x += step;
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        let n = match op.ub() % 4 {
            0 => h.m.len(),
            _ => op.ub() / 4 % (h.m.len() / 2 + 12),
        };
        // one kind of query throughout, or all
        for _ in 0..n.min(20_000) {
            let mut rng = h.rng.clone();
            let q = match op.ua() % 8 {
                0 => Q::FirstScore(rng.pick(&[0u64, 500_000, 900_000])),
                1 => Q::LastScore(rng.pick(&[0u64, 500_000, 900_000])),
                2 => Q::Weight(0),
                3 => Q::FirstScore(self.seg.all().mx.saturating_sub(1)),
                4 => Q::AtLeast((op.ud() % h.m.dom()) as u32),
                5 => Q::NthBack(op.ud() as u64 % 70),
                _ => self.query(&h.m, h.last, &mut rng),
            };
            let want = self.want(&h.m, &q);
            if op.c == SP0 {
                let got = self.core.d.take(q.clone());
                match (&got, want) {
                    (None, None) => {}
                    (Some((k, v)), Some(x)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
                    _ => return Err(format!("removing by {q:?} gave {got:?}, should be key {want:?}")),
                }
                if let Some(x) = want {
                    h.m.remove(x);
                    self.seg.set(x, None);
                    self.keys.set(x, None);
                    h.last = x;
                    self.by_query += 1;
                }
                self.core.len(h.m.len())?;
                if self.core.d.root().a != self.seg.all() {
                    return Err("the root summary is not the fold of the contents".into());
                }
            } else {
                let vid = h.next_vid();
                match (self.core.d.find_mut(q.clone()), want) {
                    (None, None) => {}
                    (Some(v), Some(x)) if v.is(h.m.get(x).unwrap()) => {
                        if self.editable {
                            v.put(vid);
                            h.m.set(x, vid);
                        }
                    }
                    (v, w) => return Err(format!("mutable access by {q:?} gave {v:?}, should be key {w:?}")),
                }
            }
            h.steps += 1;
            h.rng = rng;
            if want.is_none() && op.ua() % 8 < 6 {
                break;
            }
            if h.rng.below(16) == 0 {
                let l = h.last;
                let mut rng = h.rng.clone();
                self.probe(&h.m, l, &mut rng)?;
            }
        }
        Ok(())
    }
}

fn go<K: TKey, V: TVal + Vid, D: Find<K, V>>(case: &Case, cx: &mut Cx, editable: bool) -> R {
    let dom = case.param(0).clamp(1, 1 << 22) as usize;
    let mut s: S<K, V, D> =
        S { core: Core::new(D::new()), seg: Seg::new(dom), keys: Seg::new(dom), hits: 0, by_query: 0, editable };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.by_query > 0 {
        cx.label("removals by query");
    }
    if h.max_n > 64 && s.hits >= 5 && (s.by_query > 0 || s.core.removals) {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C09";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on trees and maps with a user augmentation offering eight kinds of query (first/last entry with a score of its value, running weight, position from either end, exact key by separators, smallest key not below, a query owning memory) and an order-sensitive rank; lookup, mutable access and removal by query compared with a segment tree over the model (itself compared with a linear scan on small contents). Non-trivial: more than one leaf (>64 entries), removals, and at least five queries that hit.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 16000, 8000, 5000, 2000, 900, 20))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 5,
                touch: false,
                specials: &[(SP0, 10), (SP1, 4)],
                densities: &[8, 32, 256],
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64, Ix>>(case, cx, false),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64, Ix>>(case, cx, false),
            2 => go::<String, String, Tree<String, String, Ix>>(case, cx, false),
            3 => go::<i64, Opaque, BPlusTreeMap<i64, Opaque, Ix>>(case, cx, true),
            _ => go::<(u32, u32), Opaque, Tree<(u32, u32), Opaque, Ix>>(case, cx, true),
        }
    }
}
fn main() {
    runner::main::<P>();
}
