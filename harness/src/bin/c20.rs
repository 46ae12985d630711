//! C20: memory. A cycle of operations that comes back to the same contents is
//! repeated many times; the bytes the collection holds, counted by the
//! allocator around every call, are bounded by its contents throughout.

use harness::alloc::{usage, Counting};
use harness::dict::Dict;
use harness::kinds::*;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::hint::black_box;
use std::mem::size_of;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, Key};

#[global_allocator]
static ALLOC: Counting = Counting;

/// a summary that holds memory of its own
#[derive(Clone, Debug)]
struct BoxSum(Box<[usize; 6]>);
impl Default for BoxSum {
    fn default() -> Self {
        BoxSum(Box::new([0; 6]))
    }
}
impl<K: Key, V> Augmentation<K, V> for BoxSum {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        BoxSum(Box::new([a.iter().map(|x| x.0[0]).sum(); 6]))
    }
    fn from_leaf(keys: &[K], _: &[V]) -> Self {
        BoxSum(Box::new([keys.len(); 6]))
    }
}
impl<K: Key, V> SearchAugmentation<K, V> for BoxSum {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
        (q < keys.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _: &[K], a: &[Self]) -> Option<(usize, usize)> {
        for (i, x) in a.iter().enumerate() {
            if q < x.0[0] {
                return Some((i, q));
            }
            q -= x.0[0];
        }
        None
    }
}

/// a wide summary
#[derive(Clone, Debug, Default)]
struct WideSum([u64; 24]);
impl<K: Key, V> Augmentation<K, V> for WideSum {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        WideSum([a.iter().map(|x| x.0[7]).sum(); 24])
    }
    fn from_leaf(keys: &[K], _: &[V]) -> Self {
        WideSum([keys.len() as u64; 24])
    }
}

trait Mem<K: TKey, V: TVal>: Dict<K, V> {
    /// bytes a summary takes, with what it points to
    const SUM: usize;
    fn copy(&self) -> Option<Self> {
        None
    }
    /// consume it, after taking some entries off both ends
    fn eat(self, front: usize, back: usize);
    /// remove by position; None where there is no such operation
    fn take_at(&mut self, _i: usize) -> Option<bool> {
        None
    }
    fn reads(&self, k: &K, n: usize);
}
fn eat<T>(mut it: impl DoubleEndedIterator<Item = T>, front: usize, back: usize) {
    for _ in 0..front {
        drop(it.next());
    }
    for _ in 0..back {
        drop(it.next_back());
    }
}
macro_rules! mem_tree {
    ($a:ty, $sum:expr, $($x:tt)*) => {
        impl<K: TKey, V: TVal> Mem<K, V> for Tree<K, V, $a> {
            const SUM: usize = $sum;
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
            fn eat(self, f: usize, b: usize) {
                eat(BPlusTree::into_iter(self), f, b)
            }
            fn reads(&self, k: &K, n: usize) {
                let mut c = self.get_cursor(k).map(|c| c.0).or_else(|| self.cursor_first());
                for _ in 0..n {
                    c = match c {
                        Some(c) => c.next(self),
                        None => break,
                    };
                }
                let mut c = Cursor::last(self).map(|c| c.0);
                for _ in 0..n {
                    c = match c {
                        Some(c) => c.prev(self),
                        None => break,
                    };
                }
                black_box(self.iter().rev().take(n).count());
                black_box(self.root_augmentation());
            }
            $($x)*
        }
        impl<K: TKey, V: TVal> Mem<K, V> for BPlusTreeMap<K, V, $a> {
            const SUM: usize = $sum;
            fn eat(self, _: usize, _: usize) {
                drop(self);
            }
            fn reads(&self, _: &K, n: usize) {
                black_box(self.iter().rev().take(n).count());
            }
            $($x)*
        }
    };
}
mem_tree!((), 0,);
mem_tree!(WideSum, size_of::<WideSum>(),);
mem_tree!(Count, size_of::<Count>(),
    fn take_at(&mut self, i: usize) -> Option<bool> {
        Some(self.remove_by_augmentation(i).is_some())
    }
);
mem_tree!(BoxSum, size_of::<BoxSum>() + 48,
    fn take_at(&mut self, i: usize) -> Option<bool> {
        Some(self.remove_by_augmentation(i).is_some())
    }
);
impl<K: TKey> Mem<K, ()> for BPlusTreeSet<K> {
    const SUM: usize = 0;
    fn eat(self, f: usize, b: usize) {
        eat(BPlusTreeSet::into_iter(self), f, b)
    }
    fn reads(&self, _: &K, n: usize) {
        black_box(self.iter().rev().take(n).count());
    }
}

struct S<K, V, D> {
    d: Option<D>,
    m: Model,
    rng: Rng,
    vid: u64,
    /// bytes held by `d`
    bytes: i64,
    /// most entries it ever had
    peak: usize,
    low: usize,
    removed: u64,
    steps: u64,
    sum: usize,
    p: std::marker::PhantomData<(K, V)>,
}

impl<K: TKey, V: TVal, D: Mem<K, V>> S<K, V, D> {
    /// What a tree of `n` entries may hold: nodes of 64 entries at least an
    /// eighth full, a few more for the unfilled right edge that bulk loading
    /// leaves, and for every node of the largest size ever reached the places
    /// in the tables of nodes.
    fn bound(&self, n: usize) -> i64 {
        let leaf = 64 * (size_of::<K>() + size_of::<V>()) + 192;
        let inner = 64 * size_of::<K>() + 65 * (16 + self.sum) + 192;
        let leaves = n / 8 + 2;
        let inners = leaves / 8 + 3;
        (leaves * leaf + inners * inner + self.sum + 3 * self.peak + 1024) as i64
    }
    fn within(&self, what: &str) -> R {
        let n = self.m.len();
        let max = self.bound(n);
        ensure!(
            self.bytes <= max,
            "{} bytes are held {what} for {n} entries (never more than {}); even at an eighth full that is at most {max}",
            self.bytes,
            self.peak
        );
        Ok(())
    }
    fn on<T>(&mut self, f: impl FnOnce(&mut D) -> T) -> T {
        let b = usage().0;
        let r = f(self.d.as_mut().unwrap());
        self.bytes += usage().0 - b;
        self.steps += 1;
        r
    }
    fn add(&mut self, x: u32) -> R {
        self.vid += 1;
        let v = self.vid;
        let old = self.on(|d| d.insert(K::of(x), V::of(v)).is_some());
        let had = self.m.set(x, v).is_some();
        self.peak = self.peak.max(self.m.len());
        ensure!(old == had, "insert(key {x}) found it: {old}, should be {had}");
        Ok(())
    }
    fn del(&mut self, x: u32, by_pos: bool) -> R {
        let at = self.m.rank(x);
        let got = self.on(|d| {
            if by_pos {
                if let Some(g) = d.take_at(at) {
                    return g;
                }
            }
            let k = K::of(x);
            if x % 2 == 0 {
                d.remove(&k).is_some()
            } else {
                d.remove_q(k.q()).is_some()
            }
        });
        let had = self.m.remove(x).is_some();
        self.removed += had as u64;
        ensure!(got == had, "remove(key {x}) found it: {got}, should be {had}");
        Ok(())
    }
    fn absent(&mut self) -> Option<u32> {
        let dom = self.m.dom();
        if self.m.len() == dom {
            return None;
        }
        let mut x = self.rng.below(dom) as u32;
        while self.m.get(x).is_some() {
            x = (x + 1) % dom as u32;
        }
        Some(x)
    }
    fn present(&mut self) -> Option<u32> {
        let n = self.m.len();
        if n == 0 {
            return None;
        }
        let i = self.rng.below(n);
        self.m.select(i)
    }
    fn build(&mut self, mode: usize) -> R {
        let old = self.d.take();
        let b = usage().0;
        drop(old);
        let freed = b - usage().0;
        ensure!(
            freed == self.bytes,
            "dropping it gave {freed} bytes back, {} were held",
            self.bytes
        );
        let entries = self.m.entries();
        let b = usage().0;
        let items: Vec<(K, V)> = entries.iter().map(|(x, v)| (K::of(*x), V::of(*v))).collect();
        let d = D::bulk(items, mode);
        self.bytes = usage().0 - b;
        self.d = Some(d);
        ensure!(self.d.as_ref().unwrap().len() == self.m.len(), "a rebuilt collection has another length");
        Ok(())
    }
    fn op(&mut self, o: &Op) -> R {
        let dom = self.m.dom();
        match o.c {
            INS => {
                let mut at = self.rng.below(dom);
                for i in 0..o.ub() {
                    let x = match o.ua() % 5 {
                        // on at the top, on at the bottom
                        0 => self.m.last().map_or(0, |x| x as usize + 1),
                        1 => match self.m.first() {
                            Some(0) => dom,
                            Some(x) => x as usize - 1,
                            None => dom - 1,
                        },
                        2 => self.absent().map_or(dom, |x| x as usize),
                        3 => {
                            at = (at + 1) % dom;
                            at
                        }
                        _ => {
                            at = (at + dom - 1) % dom;
                            at
                        }
                    };
                    if x < dom {
                        self.add(x as u32)?;
                    } else if let Some(x) = self.absent() {
                        self.add(x)?;
                    }
                    if i % 256 == 0 {
                        self.within("between insertions")?;
                    }
                }
            }
            DEL => {
                let mut at = self.present();
                for i in 0..o.ub() {
                    let x = match o.ua() % 5 {
                        0 => self.m.first(),
                        1 => self.m.last(),
                        2 => self.present(),
                        3 => {
                            at = at.and_then(|x| self.m.succ(x));
                            at
                        }
                        _ => {
                            at = at.and_then(|x| self.m.pred(x));
                            at
                        }
                    };
                    let Some(x) = x else {
                        at = self.present();
                        continue;
                    };
                    self.del(x, o.ud() % 2 == 1)?;
                    if i % 256 == 0 {
                        self.within("between removals")?;
                    }
                }
            }
            // down to nothing
            SP2 => {
                while let Some(x) = if o.ua() % 2 == 0 { self.m.first() } else { self.m.last() } {
                    self.del(x, o.ud() % 2 == 1)?;
                }
                self.within("after removing everything")?;
            }
            CLR => {
                self.on(|d| d.clear());
                self.m.clear();
                self.within("after clear()")?;
            }
            BLD => self.build(o.ua())?,
            // what changes no contents takes no memory, when done again
            UPD | PRB => {
                let mut xs = vec![];
                for _ in 0..o.ub() % 200 {
                    xs.extend(self.present());
                    xs.extend(self.absent());
                }
                for round in 0..3 {
                    let b = self.bytes;
                    for x in &xs {
                        let x = *x;
                        let had = self.m.get(x).is_some();
                        let k = K::of(x);
                        if o.c == PRB {
                            self.on(|d| {
                                black_box(d.get(&k));
                                black_box(d.get_q(k.q()));
                                black_box(d.first());
                                black_box(d.last());
                                d.reads(&k, 5);
                            });
                        } else if had {
                            self.add(x)?;
                            self.on(|d| {
                                black_box(d.get_mut(&k).is_some());
                            });
                        } else {
                            self.del(x, false)?;
                            let n = self.m.len();
                            self.on(|d| d.take_at(n));
                        }
                    }
                    ensure!(
                        round == 0 || self.bytes <= b,
                        "{} more bytes are held after {}, done before and now again",
                        self.bytes - b,
                        if o.c == PRB { "reading" } else { "overwriting keys, and removing keys that are not there" }
                    );
                }
            }
            // a clone takes its place
            SP0 => {
                let b = usage().0;
                let c = self.d.as_ref().unwrap().copy();
                if let Some(c) = c {
                    let took = usage().0 - b;
                    let b = usage().0;
                    self.d = None;
                    let freed = b - usage().0;
                    ensure!(
                        freed == self.bytes,
                        "dropping the original of a clone gave {freed} bytes back, {} were held",
                        self.bytes
                    );
                    self.d = Some(c);
                    self.bytes = took;
                }
            }
            // consumed, wholly or in part
            SP1 => {
                let n = self.m.len();
                let (f, b) = (self.rng.below(n + 2), self.rng.below(n / 2 + 2));
                let d = self.d.take().unwrap();
                let u = usage().0;
                d.eat(f, b);
                let freed = u - usage().0;
                ensure!(freed == self.bytes, "consuming it gave {freed} bytes back, {} were held", self.bytes);
                let u = usage().0;
                self.d = Some(D::new());
                self.bytes = usage().0 - u;
                self.m.clear();
            }
            _ => {}
        }
        self.low = self.low.min(self.m.len());
        self.within("after a step")
    }
    /// back to the contents `base`
    fn restore(&mut self, base: &[u32], how: usize) -> R {
        let mut want = vec![false; self.m.dom()];
        for x in base {
            want[*x as usize] = true;
        }
        let mut extra: Vec<u32> = self.m.entries().into_iter().map(|e| e.0).filter(|x| !want[*x as usize]).collect();
        let mut missing: Vec<u32> = base.iter().copied().filter(|x| self.m.get(*x).is_none()).collect();
        match how % 3 {
            0 => {}
            1 => {
                extra.reverse();
                missing.reverse();
            }
            _ => {
                dict::scramble(&mut extra, how);
                dict::scramble(&mut missing, how);
            }
        }
        if how % 2 == 0 {
            for x in &missing {
                self.add(*x)?;
            }
        }
        for x in extra {
            self.del(x, false)?;
        }
        if how % 2 == 1 {
            for x in &missing {
                self.add(*x)?;
            }
        }
        self.within("after a cycle")
    }
}

fn go<K: TKey, V: TVal, D: Mem<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let dom = (case.param(0).max(8)) as usize;
    let base_n = (case.param(4).max(0) as usize).min(dom);
    let cycles = case.param(5).clamp(1, 20_000) as usize;
    let total = case.param(6).clamp(1_000, 5_000_000) as u64;
    let b = usage().0;
    let d = D::new();
    let bytes = usage().0 - b;
    let mut s: S<K, V, D> = S {
        d: Some(d),
        m: Model::new(dom),
        rng: Rng::new(case.param(1) as u64),
        vid: 0,
        bytes,
        peak: 0,
        low: usize::MAX,
        removed: 0,
        steps: 0,
        sum: D::SUM,
        p: std::marker::PhantomData,
    };
    s.within("by an empty one")?;
    let mut all: Vec<u32> = (0..dom as u32).collect();
    dict::scramble(&mut all, case.param(1) as usize & 0xffff);
    let mut base: Vec<u32> = all[..base_n].to_vec();
    base.sort();
    let mode = case.param(2) as usize;
    if mode % 4 < 2 {
        for x in &base {
            s.m.set(*x, 0);
        }
        s.peak = base_n;
        s.build(mode)?;
    } else {
        s.restore(&base, mode)?;
    }
    s.within("after the start")?;
    let mut done = 0;
    for i in 0..cycles {
        for o in &case.ops {
            s.op(o)?;
        }
        s.restore(&base, mode / 4 + if case.param(2) % 3 == 0 { i } else { 0 })?;
        done += 1;
        if s.steps > total {
            break;
        }
    }
    let last = s.d.take();
    let b = usage().0;
    drop(last);
    let freed = b - usage().0;
    ensure!(freed == s.bytes, "dropping it gave {freed} bytes back, {} were held", s.bytes);
    cx.steps += s.steps;
    if s.low == 0 {
        cx.label("down to nothing");
    }
    if s.peak > 4160 {
        cx.label("three levels");
    }
    if base_n <= 64 && s.peak > 64 {
        cx.label("root comes and goes");
    }
    if done >= 100 {
        cx.label("100 cycles and more");
    }
    if done >= 8 && s.removed > 2_000 && s.peak > s.low + 64 {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C20";
    const RULE: &'static str = "A base content (empty to 20000 entries, around the sizes at which the root comes and goes) and a cycle of one to five steps (runs of insertions and removals in five patterns, by key and by position, removal of everything, clear, rebuild, clone, owning iterators, overwrites, reads) with the way back to the base content, repeated up to thousands of times on tree, map and set with four kinds of summary; the allocator is read around every call and the bytes held must stay below what the contents need in nodes an eighth full, dropping must give every byte back, and repeated reads, overwrites and failing removals must take none. Non-trivial: at least 8 cycles, 2000 removals, and sizes differing by more than a leaf.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 14 } else { 1 };
        vec![
            stage("huge", 40 * f),
            stage("large", 160 * f),
            stage("medium", 300 * f),
            stage("small", 500 * f),
            stage("edge", 600 * f),
            stage("tiny", 300 * f),
        ]
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        let (base, amp, total) = match stage {
            "tiny" => (rng.below(40), rng.range(1, 200), 120_000),
            "edge" => (rng.range(10, 140), rng.range(1, 160), 150_000),
            "small" => (rng.below(1000), rng.range(20, 1500), 200_000),
            "medium" => (rng.below(5000), rng.range(50, 3000), 300_000),
            "large" => (rng.range(1500, 5000), rng.range(500, 6000), 400_000),
            _ => (rng.range(0, 20000), rng.range(2000, 20000), 700_000),
        };
        let dom = (base + 2 * amp + 10) * rng.pick(&[1, 1, 3]);
        let mut ops = vec![];
        for _ in 0..rng.range(1, 5) {
            let n = if rng.bool() { amp } else { rng.range(1, amp) };
            let x = match rng.weighted(&[10, 10, 3, 1, 2, 2, 2, 2, 1]) {
                0 => op(INS, rng.below(5), n, 0),
                1 => op(DEL, rng.below(5), n, rng.below(2)),
                2 => op(SP2, rng.below(2), 0, rng.below(2)),
                3 => op(CLR, 0, 0, 0),
                4 => op(BLD, rng.below(4), 0, 0),
                5 => op(UPD, 0, rng.range(1, 60), 0),
                6 => op(PRB, 0, rng.range(1, 60), 0),
                7 => op(SP0, 0, 0, 0),
                _ => op(SP1, 0, 0, 0),
            };
            ops.push(x);
        }
        // what throws the collection away hides what piles up: only in some
        if rng.pct(60) {
            for o in ops.iter_mut() {
                if matches!(o.c, CLR | BLD | SP0 | SP1) {
                    *o = op(if rng.bool() { INS } else { DEL }, rng.below(5), amp, 0);
                }
            }
        }
        Case {
            stage: stage.into(),
            params: vec![
                dom as i64,
                (rng.next() >> 2) as i64,
                rng.below(96) as i64,
                rng.below(12) as i64,
                base as i64,
                20_000,
                total,
            ],
            ops,
        }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 | 1 => go::<u32, u64, Tree<u32, u64>>(case, cx),
            2 => go::<u32, u64, Tree<u32, u64, Count>>(case, cx),
            3 => go::<u64, [u64; 5], Tree<u64, [u64; 5], BoxSum>>(case, cx),
            4 => go::<u32, u8, Tree<u32, u8, WideSum>>(case, cx),
            5 => go::<Wide, u64, Tree<Wide, u64, Count>>(case, cx),
            6 => go::<u32, u64, BPlusTreeMap<u32, u64>>(case, cx),
            7 => go::<(u32, u32), u64, BPlusTreeMap<(u32, u32), u64, Count>>(case, cx),
            8 => go::<u32, u64, BPlusTreeMap<u32, u64, BoxSum>>(case, cx),
            9 => go::<u64, (), BPlusTreeSet<u64>>(case, cx),
            10 => go::<u32, (), Tree<u32, ()>>(case, cx),
            _ => go::<Wide, (), BPlusTreeSet<Wide>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
