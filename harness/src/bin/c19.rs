//! C19: the same history on two collections, one of which is read all the
//! time in every way there is, the other one never.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::*;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};

/// what is at a key, as one way of reading sees it
type Seen = Option<(u32, u64)>;

trait Ways<K: TKey, V: TVal + Vid>: Dict<K, V> {
    /// number of ways of reading one key
    const KEY_WAYS: usize;
    /// read key x by the given way; `m` is only used to get at positions
    fn by(&mut self, x: u32, way: usize, m: &Model) -> Result<Seen, String>;
    /// a reading that is just noise
    fn noise(&mut self, x: u32, n: usize, rng: &mut Rng);
    /// positions of the boundaries between leaves and the root summary, as far as visible
    fn shape(&self) -> String;
    fn back(&self, f: &mut dyn FnMut(&K, &V) -> bool);
}

fn found<K: TKey, V: Vid>(x: u32, v: Option<&V>) -> Seen {
    let _ = std::marker::PhantomData::<K>;
    v.map(|v| (x, v.vid()))
}

/// looks for a key by the separators alone
struct Find<'a, K>(&'a K);
impl<'a, K: TKey, V: Vid, A> DescendVisit<K, V, A> for Find<'a, K> {
    type Result = (u32, u64);
    fn visit_inner(&mut self, keys: &[K], _: &[A]) -> DescendVisitResult<(u32, u64)> {
        DescendVisitResult::GoDown(keys.iter().filter(|k| *k <= self.0).count())
    }
    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<(u32, u64)> {
        keys.iter().position(|k| k == self.0).map(|i| (keys[i].ix(), values[i].vid()))
    }
}
/// sizes of the nodes on the left-most, right-most and a middle path
struct Trace(usize, Vec<usize>);
impl<K, V, A> DescendVisit<K, V, A> for Trace {
    type Result = Vec<usize>;
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<Vec<usize>> {
        self.1.push(a.len());
        DescendVisitResult::GoDown(match self.0 {
            0 => 0,
            1 => a.len() - 1,
            w => (w * 31 + self.1.len() * 17) % a.len(),
        })
    }
    fn visit_leaf(&mut self, k: &[K], _: &[V]) -> Option<Vec<usize>> {
        self.1.push(k.len());
        Some(std::mem::take(&mut self.1))
    }
}

/// augmentation specific ways
trait Order<K: TKey, V: TVal>: Augmentation<K, V> + std::fmt::Debug {
    fn rank(_t: &Tree<K, V, Self>, _x: u32) -> Option<Result<usize, usize>> {
        None
    }
    fn nth(_t: &mut Tree<K, V, Self>, _i: usize, _mutable: bool) -> Option<Option<(Option<u32>, V)>> {
        None
    }
    fn more(_t: &Tree<K, V, Self>, _rng: &mut Rng) {}
}
impl<K: TKey, V: TVal> Order<K, V> for () {}
impl<K: TKey, V: TVal> Order<K, V> for Count {
    fn rank(t: &Tree<K, V, Self>, x: u32) -> Option<Result<usize, usize>> {
        Some(t.rank_by_augmentation(&K::of(x)))
    }
    fn nth(t: &mut Tree<K, V, Self>, i: usize, mutable: bool) -> Option<Option<(Option<u32>, V)>> {
        Some(if mutable {
            t.get_mut_by_augmentation(i).map(|v| (None, v.clone()))
        } else {
            t.get_by_augmentation(i).map(|(k, v)| (Some(k.ix()), v.clone()))
        })
    }
}
macro_rules! by_nth {
    ($t:ty) => {
        impl<K: TKey, V: TVal + Vid> Order<K, V> for $t {
            fn nth(t: &mut Tree<K, V, Self>, i: usize, mutable: bool) -> Option<Option<(Option<u32>, V)>> {
                Some(if mutable {
                    t.get_mut_by_augmentation(i).map(|v| (None, v.clone()))
                } else {
                    t.get_by_augmentation(i).map(|(k, v)| (Some(k.ix()), v.clone()))
                })
            }
        }
    };
}
by_nth!(Fold);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct G20(u32);
impl FromRef<u32> for G20 {
    fn from_ref(k: &u32) -> Self {
        G20(k / 20)
    }
}
impl Order<u32, u64> for GroupCount<G20> {
    fn rank(t: &Tree<u32, u64, Self>, x: u32) -> Option<Result<usize, usize>> {
        let r = t.rank_by_augmentation(&x);
        // offset within the group: comparable to the total rank through the group's first key
        let _ = std::hint::black_box(r);
        None
    }
    fn more(t: &Tree<u32, u64, Self>, rng: &mut Rng) {
        let g = rng.below(50) as u32;
        std::hint::black_box(t.descend_visit(ExtractGroupSize::new(G20(g))));
        std::hint::black_box(t.get_by_augmentation((G20(g), rng.below(21))));
        std::hint::black_box(t.root_augmentation().max_group());
    }
}

impl<K: TKey, V: TVal + Vid, A: Order<K, V>> Ways<K, V> for Tree<K, V, A> {
    const KEY_WAYS: usize = 14;
    fn by(&mut self, x: u32, way: usize, m: &Model) -> Result<Seen, String> {
        let k = K::of(x);
        // a cursor made at a neighbour, stepped onto x if x is there
        let near = |c: Option<Cursor<K>>| c.map(|c| c.key().ix());
        Ok(match way {
            0 => found::<K, V>(x, BPlusTree::get::<K>(self, &k)),
            1 => found::<K, V>(x, BPlusTree::get::<K::Q>(self, k.q())),
            2 => found::<K, V>(x, BPlusTree::get_mut::<K>(self, &k).map(|v| &*v)),
            3 => found::<K, V>(x, BPlusTree::get_mut::<K::Q>(self, k.q()).map(|v| &*v)),
            4 => match self.get_cursor(&k) {
                Some((c, v)) => {
                    ensure!(c.key().ix() == x, "get_cursor({x}) is on {:?}", c.key());
                    found::<K, V>(x, v)
                }
                None => None,
            },
            5 => self.get_cursor(&k).and_then(|(c, _)| c.value(self).map(|v| (c.key().ix(), v.vid()))),
            6 => match m.pred(x) {
                Some(p) => self
                    .get_cursor(&K::of(p))
                    .and_then(|(c, _)| c.next_with_value(self))
                    .filter(|(c, _)| c.key().ix() == x)
                    .map(|(c, v)| (c.key().ix(), v.vid())),
                None => Cursor::first(self).filter(|(c, _)| c.key().ix() == x).map(|(c, v)| (c.key().ix(), v.vid())),
            },
            7 => match m.succ(x) {
                Some(p) => self
                    .get_cursor(&K::of(p))
                    .and_then(|(c, _)| c.prev_with_value(self))
                    .filter(|(c, _)| c.key().ix() == x)
                    .map(|(c, v)| (c.key().ix(), v.vid())),
                None => Cursor::last(self).filter(|(c, _)| c.key().ix() == x).map(|(c, v)| (c.key().ix(), v.vid())),
            },
            8 => {
                // from the absent or present key itself: there and back
                let c = self.get_cursor(&k).map(|c| c.0);
                match c {
                    None => None,
                    Some(c) => match (near(c.next(self)), near(c.prev(self))) {
                        (n, p) => {
                            ensure!(n == m.succ(x), "the cursor on {x} steps to {n:?}, not {:?}", m.succ(x));
                            ensure!(p == m.pred(x), "the cursor on {x} steps back to {p:?}, not {:?}", m.pred(x));
                            if c.exists(self) {
                                c.value(self).map(|v| (x, v.vid()))
                            } else {
                                None
                            }
                        }
                    },
                }
            }
            9 => self.descend_visit(Find(&k)),
            10 => {
                let i = m.rank(x);
                self.iter().nth(i).filter(|e| e.0.ix() == x).map(|(k, v)| (k.ix(), v.vid()))
            }
            11 => {
                let i = m.len() - m.rank(x) - m.get(x).is_some() as usize;
                self.iter().rev().nth(i).filter(|e| e.0.ix() == x).map(|(k, v)| (k.ix(), v.vid()))
            }
            w => {
                let i = match A::rank(self, x) {
                    Some(r) => {
                        ensure!(
                            r.is_ok() == m.get(x).is_some(),
                            "rank says {r:?}, the key {x} is there: {}",
                            m.get(x).is_some()
                        );
                        r.unwrap_or_else(|e| e)
                    }
                    None => m.rank(x),
                };
                match A::nth(self, i, w == 13) {
                    Some(r) => {
                        let here = m.get(x).is_some();
                        r.filter(|(k, _)| here && *k.as_ref().unwrap_or(&x) == x).map(|(_, v)| (x, v.vid()))
                    }
                    None => found::<K, V>(x, BPlusTree::get::<K>(self, &k)),
                }
            }
        })
    }
    fn noise(&mut self, x: u32, n: usize, rng: &mut Rng) {
        let k = K::of(x);
        match rng.below(10) {
            0 => {
                std::hint::black_box(self.iter().take(rng.below(n + 2)).count());
            }
            1 => {
                let mut it = self.iter();
                for _ in 0..rng.below(100) {
                    std::hint::black_box((it.next().is_some(), it.next_back().is_some()));
                }
            }
            2 => {
                let mut c = self.get_cursor(&k).map(|c| c.0);
                for _ in 0..rng.below(80) {
                    c = match c {
                        Some(c) => {
                            std::hint::black_box(c.value(self).is_some());
                            c.next(self)
                        }
                        None => break,
                    };
                }
            }
            3 => {
                let mut c = Cursor::last(self).map(|c| c.0);
                for _ in 0..rng.below(80) {
                    c = match c {
                        Some(c) => c.prev(self),
                        None => break,
                    };
                }
            }
            4 => {
                std::hint::black_box((BPlusTree::first(self).is_some(), BPlusTree::last(self).is_some()));
                std::hint::black_box((self.cursor_first().is_some(), self.statistic().rotate_left_leaf));
            }
            5 => {
                drop(self.clone());
            }
            6 => A::more(self, rng),
            7 => {
                std::hint::black_box(self.descend_visit(Trace(rng.below(9), vec![])));
            }
            8 => {
                // mutable, but nothing is written
                let i = rng.below(n + 2);
                std::hint::black_box(A::nth(self, i, true).is_some());
                std::hint::black_box(BPlusTree::get_mut::<K>(self, &k).is_some());
            }
            _ => {
                for i in 0..rng.below(30) as u32 {
                    std::hint::black_box(BPlusTree::get::<K>(self, &K::of(x.saturating_add(i))).is_some());
                }
            }
        }
    }
    fn shape(&self) -> String {
        let mut s = format!("{:?} {}", BPlusTree::root_augmentation(self), BPlusTree::len(self));
        for w in 0..6 {
            s += &format!(" {:?}", self.descend_visit(Trace(w, vec![])));
        }
        s
    }
    fn back(&self, f: &mut dyn FnMut(&K, &V) -> bool) {
        for (k, v) in self.iter().rev() {
            if !f(k, v) {
                break;
            }
        }
    }
}

impl<K: TKey, V: TVal + Vid> Ways<K, V> for BPlusTreeMap<K, V, Count> {
    const KEY_WAYS: usize = 9;
    fn by(&mut self, x: u32, way: usize, m: &Model) -> Result<Seen, String> {
        let k = K::of(x);
        Ok(match way {
            0 => found::<K, V>(x, BPlusTreeMap::get::<K>(self, &k)),
            1 => found::<K, V>(x, BPlusTreeMap::get::<K::Q>(self, k.q())),
            2 => found::<K, V>(x, BPlusTreeMap::get_mut::<K>(self, &k).map(|v| &*v)),
            3 => found::<K, V>(x, BPlusTreeMap::get_mut::<K::Q>(self, k.q()).map(|v| &*v)),
            4 => self.iter().nth(m.rank(x)).filter(|e| e.0.ix() == x).map(|(k, v)| (k.ix(), v.vid())),
            5 => {
                let i = m.len() - m.rank(x) - m.get(x).is_some() as usize;
                self.iter().rev().nth(i).filter(|e| e.0.ix() == x).map(|(k, v)| (k.ix(), v.vid()))
            }
            6 => self.descend_visit(Find(&k)),
            _ => {
                let r: Result<usize, usize> = self.rank_by_augmentation(&k);
                match r {
                    Ok(i) if way == 7 => self.get_by_augmentation(i).map(|(k, v)| (k.ix(), v.vid())),
                    Ok(i) => self.get_mut_by_augmentation(i).map(|v| (x, v.vid())),
                    Err(_) => None,
                }
            }
        })
    }
    fn noise(&mut self, x: u32, n: usize, rng: &mut Rng) {
        match rng.below(4) {
            0 => {
                std::hint::black_box(self.iter().take(rng.below(n + 2)).count());
            }
            1 => {
                std::hint::black_box(self.get_mut_by_augmentation(rng.below(n + 2)).is_some());
            }
            2 => {
                let r: Result<usize, usize> = self.rank_by_augmentation(&K::of(x));
                std::hint::black_box(r.is_ok());
            }
            _ => {
                std::hint::black_box(BPlusTreeMap::get::<K>(self, &K::of(x)).is_some());
            }
        }
    }
    fn shape(&self) -> String {
        let mut s = format!("{} {}", BPlusTreeMap::root_augmentation(self).count(), BPlusTreeMap::len(self));
        for w in 0..6 {
            s += &format!(" {:?}", self.descend_visit(Trace(w, vec![])));
        }
        s
    }
    fn back(&self, f: &mut dyn FnMut(&K, &V) -> bool) {
        for (k, v) in self.iter().rev() {
            if !f(k, v) {
                break;
            }
        }
    }
}

impl<K: TKey> Ways<K, ()> for BPlusTreeSet<K> {
    const KEY_WAYS: usize = 5;
    fn by(&mut self, x: u32, way: usize, m: &Model) -> Result<Seen, String> {
        let k = K::of(x);
        Ok(match way {
            0 => self.contains::<K>(&k).then_some((x, 0)),
            1 => self.contains::<K::Q>(k.q()).then_some((x, 0)),
            2 => self.iter().nth(m.rank(x)).filter(|e| e.ix() == x).map(|k| (k.ix(), 0)),
            3 => {
                let i = m.len() - m.rank(x) - m.get(x).is_some() as usize;
                self.iter().rev().nth(i).filter(|e| e.ix() == x).map(|k| (k.ix(), 0))
            }
            _ => {
                let e = BPlusTreeSet::new();
                let i = m.rank(x);
                let r = self.union(&e).nth(i).filter(|e| e.ix() == x).map(|k| (k.ix(), 0));
                r
            }
        })
    }
    fn noise(&mut self, x: u32, n: usize, rng: &mut Rng) {
        match rng.below(4) {
            0 => {
                std::hint::black_box(self.iter().take(rng.below(n + 2)).count());
            }
            1 => {
                std::hint::black_box(self.union(self).take(rng.below(n + 2)).count());
            }
            2 => {
                std::hint::black_box((BPlusTreeSet::first(self).is_some(), BPlusTreeSet::last(self).is_some()));
            }
            _ => {
                std::hint::black_box(BPlusTreeSet::contains::<K>(self, &K::of(x)));
            }
        }
    }
    fn shape(&self) -> String {
        format!("{}", BPlusTreeSet::len(self))
    }
    fn back(&self, f: &mut dyn FnMut(&K, &()) -> bool) {
        for k in self.iter().rev() {
            if !f(k, &()) {
                break;
            }
        }
    }
}

struct S<K, V, D> {
    /// read all the time
    core: Core<K, V, D>,
    /// never read
    quiet: D,
    reads: u64,
    since: u64,
}

impl<K: TKey, V: TVal + Vid, D: Ways<K, V>> S<K, V, D> {
    fn reads(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        for _ in 0..rng.below(4) {
            let x = Hist::interesting(m, last, rng);
            self.core.d.noise(x, m.len(), rng);
            self.reads += 1;
        }
        let x = Hist::interesting(m, last, rng);
        let want = m.get(x).map(|v| (x, V::norm(v)));
        // all ways, from a random one on
        let cheap = m.len() < 3000;
        let from = rng.below(D::KEY_WAYS);
        let n = if rng.bool() { D::KEY_WAYS } else { 2 };
        for i in 0..n {
            let w = (from + i) % D::KEY_WAYS;
            if !cheap && i > 2 {
                break;
            }
            let got = self.core.d.by(x, w, m)?;
            ensure!(got == want, "reading key {x} in way {w} gives {got:?}, others say {want:?}");
            self.reads += 1;
        }
        if rng.below(3) == 0 {
            self.core.ends(m)?;
        }
        Ok(())
    }
    fn compare(&mut self, m: &Model) -> R {
        let (a, b) = (self.core.d.shape(), self.quiet.shape());
        ensure!(a == b, "reading changed the collection: {a} with, {b} without");
        let mut x: Vec<(u32, u64)> = Vec::with_capacity(m.len());
        let mut y = x.clone();
        let cap = m.len() + 3;
        self.core.d.walk(&mut |k, v| {
            x.push((k.ix(), v.vid()));
            x.len() < cap
        });
        self.core.d.back(&mut |k, v| {
            y.push((k.ix(), v.vid()));
            y.len() < cap
        });
        y.reverse();
        ensure!(x == y, "both directions of iteration disagree ({} and {} entries)", x.len(), y.len());
        let want: Vec<(u32, u64)> = m.entries().into_iter().map(|(x, v)| (x, V::norm(v))).collect();
        ensure!(x == want, "iteration gives {} entries, or others, than there are ({})", x.len(), want.len());
        Ok(())
    }
    fn final_compare(&mut self, m: &Model) -> R {
        self.compare(m)?;
        // now the quiet one is read for the first time
        let want = m.entries();
        let mut i = 0;
        let mut bad = None;
        self.quiet.walk(&mut |k, v| {
            if i >= want.len() || k.ix() != want[i].0 || !v.is(want[i].1) {
                bad = Some(format!("entry {i} of the collection that was never read is {k:?} {v:?}"));
            }
            i += 1;
            bad.is_none()
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(i == want.len(), "the collection that was never read has {i} of {} entries", want.len());
        for x in 0..m.dom().min(2000) as u32 {
            let got = self.quiet.by(x, 0, m)?;
            let want = m.get(x).map(|v| (x, V::norm(v)));
            ensure!(got == want, "key {x} of the collection that was never read: {got:?}, should be {want:?}");
        }
        Ok(())
    }
}

impl<K: TKey, V: TVal + Vid, D: Ways<K, V>> Sink for S<K, V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.since += 1;
        let a = self.core.d.insert(K::of(x), V::of(vid)).map(|v| v.vid());
        let b = self.quiet.insert(K::of(x), V::of(vid)).map(|v| v.vid());
        ensure!(a == b, "insert({x}) gives {a:?} with reads before, {b:?} without");
        let want = m.get(x).map(V::norm);
        ensure!(a == want, "insert({x}) gives {a:?}, reading it gave {want:?}");
        Ok(())
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.since += 1;
        let k = K::of(x);
        let (a, b) = if x % 2 == 0 {
            (self.core.d.remove(&k), self.quiet.remove(&k))
        } else {
            (self.core.d.remove_q(k.q()), self.quiet.remove_q(k.q()))
        };
        let (a, b) = (a.map(|v| v.vid()), b.map(|v| v.vid()));
        ensure!(a == b, "remove({x}) gives {a:?} with reads before, {b:?} without");
        let want = m.get(x).map(V::norm);
        ensure!(a == want, "remove({x}) gives {a:?}, reading it gave {want:?}");
        Ok(())
    }
    fn clear(&mut self, _: &Model) -> R {
        self.core.d.clear();
        self.quiet.clear();
        Ok(())
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        let items = || -> Vec<(K, V)> { m.entries().into_iter().map(|(x, v)| (K::of(x), V::of(v))).collect() };
        self.core.d = D::bulk(items(), mode);
        self.quiet = D::bulk(items(), mode);
        Ok(())
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.reads(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        let x = m.first().unwrap_or(0);
        self.reads(m, x, rng)?;
        self.compare(m)
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        // warm a place, change around it, read it again: in all orders of magnitude
        let x = Hist::interesting(&h.m, h.last, &mut h.rng);
        let w = h.rng.below(D::KEY_WAYS);
        for _ in 0..o.ub() % 40 + 1 {
            let m = h.m.clone();
            let got = self.core.d.by(x, w, &m)?;
            let want = m.get(x).map(|v| (x, V::norm(v)));
            ensure!(got == want, "reading key {x} in way {w} gives {got:?}, should be {want:?}");
            self.reads += 1;
            let r = h.m.rank(x);
            for _ in 0..h.rng.below(12) {
                if o.ua() % 3 == 0 || h.m.is_empty() {
                    let y = (x as usize + h.rng.below(20)) % h.m.dom();
                    h.insert(self, y as u32)?;
                } else if o.ua() % 3 == 1 {
                    let i = r.saturating_sub(h.rng.below(8)).min(h.m.len() - 1);
                    let y = h.m.select(i).unwrap();
                    h.remove(self, y)?;
                } else {
                    let i = (r + h.rng.below(8)).min(h.m.len() - 1);
                    let y = h.m.select(i).unwrap();
                    h.remove(self, y)?;
                }
            }
        }
        Ok(())
    }
}

fn go<K: TKey, V: TVal + Vid, D: Ways<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s: S<K, V, D> = S { core: Core::new(D::new()), quiet: D::new(), reads: 0, since: 0 };
    let h = run_hist(case, &mut s, cx)?;
    s.final_compare(&h.m)?;
    if h.max_n > 64 && s.reads > 20 && s.since > 20 {
        cx.nontrivial();
    }
    cx.steps += s.reads;
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C19";
    const RULE: &'static str = "The same history over seven size classes (0 to 2.4M entries) on two trees, maps or sets, one of which is read between the steps in every way (owned and borrowed, shared and mutable, cursors with fresh and neighbouring keys, both iteration directions, rank and position, visitors, partial iterations, clones, ends), the other never: every result, and at checkpoints length, summary and the shape shown to visitors, must be equal, and all ways of reading one key must agree. Non-trivial: more than one leaf (>64 entries), more than 20 reads and 20 changes.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 9000, 4500, 3500, 1500, 500, 10))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 9,
                specials: &[(SP0, 15)],
                densities: &[16, 64, 200],
                touch: false,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64>>(case, cx),
            1 | 2 => go::<u32, u64, Tree<u32, u64, Count>>(case, cx),
            3 => go::<String, String, Tree<String, String, Count>>(case, cx),
            4 => go::<u64, u64, Tree<u64, u64, Fold>>(case, cx),
            5 => go::<u32, u64, Tree<u32, u64, GroupCount<G20>>>(case, cx),
            6 => go::<u32, u64, BPlusTreeMap<u32, u64, Count>>(case, cx),
            7 => go::<Wide, [u64; 5], BPlusTreeMap<Wide, [u64; 5], Count>>(case, cx),
            _ => go::<String, (), BPlusTreeSet<String>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
