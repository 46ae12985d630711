//! C17: height, uniform leaf depth, the number of comparisons, summary
//! computations and node visits of each single operation, and its time on large
//! collections next to the standard library's tree.

use harness::hist::{sizes, Class, Hist};
use harness::count::{CKey, CSum, CMPS, NODES, SUMS};
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::collections::BTreeMap;
use std::time::Instant;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};

#[cfg(feature = "store")]
type T<A> = BPlusTree<harness::count::store::Counting<u64, A>>;
#[cfg(not(feature = "store"))]
type T<A> = BPlusTree<sweep_bptree::NodeStoreVec<CKey, u64, A>>;

fn new_tree<A: Augmentation<CKey, u64>>() -> T<A> {
    BPlusTree::new(Default::default())
}

/// walks the given path and tells what is there: number of children, or none
struct Shape<'a>(&'a [usize], usize);
impl<'a, K, V, A> DescendVisit<K, V, A> for Shape<'a> {
    type Result = (usize, usize);
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<(usize, usize)> {
        if self.1 == self.0.len() {
            return DescendVisitResult::Complete((a.len(), 0));
        }
        self.1 += 1;
        DescendVisitResult::GoDown(self.0[self.1 - 1])
    }
    fn visit_leaf(&mut self, k: &[K], _: &[V]) -> Option<(usize, usize)> {
        Some((0, k.len()))
    }
}
/// walks along the left edge, the right edge or somewhere, counting levels
struct Levels(usize, u64, usize);
impl<K, V, A> DescendVisit<K, V, A> for Levels {
    type Result = usize;
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<usize> {
        self.2 += 1;
        self.1 = rng::splitmix(self.1);
        DescendVisitResult::GoDown(match self.0 {
            0 => 0,
            1 => a.len() - 1,
            _ => (self.1 >> 16) as usize % a.len(),
        })
    }
    fn visit_leaf(&mut self, _: &[K], _: &[V]) -> Option<usize> {
        Some(self.2 + 1)
    }
}

/// The most levels a tree of n entries may have: a node keeps at least a
/// quarter of its 64 keys, which gives 16 * 17^(l-2) or more entries; this
/// allows for less than half of that.
fn max_levels(n: usize) -> usize {
    let mut l = 1;
    let mut need = 8usize;
    while n >= need {
        l += 1;
        need *= 16;
    }
    l
}

struct S<A: Augmentation<CKey, u64>> {
    d: T<A>,
    /// positions can be asked for
    deepest: usize,
    shrank: bool,
    worst: [u64; 3],
    i: u64,
}

trait Ask {
    fn ask(&mut self, _m: &Model, _x: u32, _i: usize, _how: usize) -> R {
        Ok(())
    }
    fn take(&mut self, _i: usize) -> Option<Option<u32>> {
        None
    }
}
impl Ask for T<()> {}
impl Ask for T<CSum> {
    fn ask(&mut self, m: &Model, x: u32, i: usize, how: usize) -> R {
        match how {
            0 => {
                let r = self.rank_by_augmentation(&CKey(x)).unwrap_or_else(|e| e);
                ensure!(r == m.rank(x), "rank of {x} is {r}");
            }
            1 => {
                let r = self.get_by_augmentation(i).map(|x| x.0 .0);
                ensure!(r == m.select(i), "position {i} is {r:?}");
            }
            _ => {
                let r = self.get_mut_by_augmentation(i).is_some();
                ensure!(r == (i < m.len()), "position {i}");
            }
        }
        Ok(())
    }
    fn take(&mut self, i: usize) -> Option<Option<u32>> {
        Some(self.remove_by_augmentation(i).map(|x| x.0 .0))
    }
}

impl<A: Augmentation<CKey, u64>> S<A>
where
    T<A>: Ask,
{
    /// measure one operation; n is the larger of the sizes before and after
    fn measured<R0>(&mut self, what: &str, n: usize, f: impl FnOnce(&mut T<A>) -> R0) -> Result<R0, String> {
        let (c0, s0) = (CMPS.with(|c| c.get()), SUMS.with(|c| c.get()));
        let v0 = NODES.with(|c| c.get());
        let r = f(&mut self.d);
        let v = NODES.with(|c| c.get()) - v0;
        let c = CMPS.with(|c| c.get()) - c0;
        let s = SUMS.with(|c| c.get()) - s0;
        let h = max_levels(n) as u64;
        // a node is at most 64 keys: two linear searches per level and some
        let (cmax, smax) = (100 * h + 40, 6 * h + 12);
        let vmax = 16 * h + 24;
        self.worst[2] = self.worst[2].max(v * 1000 / vmax);
        self.worst[0] = self.worst[0].max(c * 1000 / cmax);
        self.worst[1] = self.worst[1].max(s * 1000 / smax);
        ensure!(c <= cmax, "{what} made {c} key comparisons with {n} entries (at most {cmax} are accepted)");
        ensure!(s <= smax, "{what} computed {s} summaries with {n} entries (at most {smax} are accepted)");
        ensure!(v <= vmax, "{what} visited nodes {v} times with {n} entries (at most {vmax} are accepted)");
        Ok(r)
    }
    fn height(&mut self, n: usize) -> R {
        self.i += 1;
        let way = (self.i % 3) as usize;
        let l = self.d.descend_visit(Levels(way, self.i, 0)).ok_or("a visit gave nothing")?;
        let max = max_levels(n);
        ensure!(l <= max, "the tree has {l} levels with {n} entries (at most {max} are accepted)");
        self.shrank |= l < self.deepest;
        self.deepest = self.deepest.max(l);
        Ok(())
    }
    /// all leaves at the same depth, none empty
    fn uniform(&mut self, n: usize) -> R {
        let mut path: Vec<usize> = vec![];
        let mut depth = None;
        let mut total = 0;
        // (number of children, next child) of the inner nodes on the path
        let mut open: Vec<(usize, usize)> = vec![];
        loop {
            let (kids, entries) = self.d.descend_visit(Shape(&path, 0)).ok_or("a visit gave nothing")?;
            if kids > 0 {
                ensure!(path.len() < 40, "endless path");
                open.push((kids, 0));
                path.push(0);
                continue;
            }
            total += entries;
            let d = *depth.get_or_insert(path.len());
            ensure!(
                d == path.len(),
                "leaves at depth {d} and {} with {n} entries (path {path:?})",
                path.len()
            );
            // next path
            loop {
                match open.last_mut() {
                    None => {
                        ensure!(total == n, "the leaves hold {total} of {n} entries");
                        let l = depth.unwrap_or(0) + 1;
                        let max = max_levels(n);
                        ensure!(l <= max, "{l} levels with {n} entries (at most {max} are accepted)");
                        return Ok(());
                    }
                    Some((kids, at)) => {
                        *at += 1;
                        if *at < *kids {
                            *path.last_mut().unwrap() = *at;
                            break;
                        }
                        open.pop();
                        path.pop();
                    }
                }
            }
        }
    }
    fn changed(&mut self, n: usize) -> R {
        if self.i % 4 == 0 || n < 40 {
            self.height(n)
        } else {
            self.i += 1;
            Ok(())
        }
    }
}

impl<A: Augmentation<CKey, u64>> Sink for S<A>
where
    T<A>: Ask,
{
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        let r = self.measured("insert", m.len() + 1, |d| BPlusTree::insert(d, CKey(x), vid))?;
        ensure!(r == m.get(x), "insert returned {r:?}");
        self.changed(m.len() + r.is_none() as usize)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        let r = self.measured("remove", m.len(), |d| BPlusTree::remove(d, &CKey(x)))?;
        ensure!(r == m.get(x), "remove returned {r:?}");
        self.changed(m.len() - r.is_some() as usize)
    }
    fn clear(&mut self, _: &Model) -> R {
        self.d.clear();
        self.height(0)
    }
    fn rebuild(&mut self, m: &Model, _: usize) -> R {
        self.d = BPlusTree::bulk_load(m.entries().into_iter().map(|(x, v)| (CKey(x), v)).collect());
        self.uniform(m.len())
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        let x = Hist::interesting(m, last, rng);
        let n = m.len();
        let k = CKey(x);
        match rng.below(10) {
            9 => {
                self.measured("an iterator's first steps", n, |d| {
                    let mut i = BPlusTree::iter(d);
                    std::hint::black_box((i.next(), i.next_back(), i.len(), i.next(), i.next_back()));
                })?;
                let l = self.measured("len and root summary", n, |d| {
                    std::hint::black_box(d.root_augmentation());
                    std::hint::black_box(d.is_empty());
                    d.len()
                })?;
                ensure!(l == n, "len is {l}, should be {n}");
            }
            0 => {
                let r = self.measured("get", n, |d| BPlusTree::get(d, &k).copied())?;
                ensure!(r == m.get(x), "get gave {r:?}");
            }
            1 => {
                let r = self.measured("get_mut", n, |d| BPlusTree::get_mut(d, &k).copied())?;
                ensure!(r == m.get(x), "get_mut gave {r:?}");
            }
            2 => {
                self.measured("first and last", n, |d| {
                    std::hint::black_box((BPlusTree::first(d), BPlusTree::last(d)));
                })?;
            }
            3 | 4 => {
                let c = self.measured("get_cursor", n, |d| d.get_cursor(&k).map(|c| c.0))?;
                self.cursor(c, m, rng)?;
            }
            5 => {
                let back = rng.bool();
                let c = self.measured("cursor at an end", n, |d| {
                    if back { Cursor::last(d) } else { Cursor::first(d) }.map(|c| c.0)
                })?;
                self.cursor(c, m, rng)?;
            }
            h => {
                let i = rng.below(n + 2);
                self.measured("a rank or position query", n, |d| d.ask(m, x, i, h - 6))??;
            }
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, _: &mut Rng) -> R {
        self.uniform(m.len())
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        match o.c {
            // an old cursor used after changes: hints are stale
            SP0 => {
                let x = Hist::interesting(&h.m, h.last, &mut h.rng);
                let n = h.m.len();
                let c = self.measured("get_cursor", n, |d| d.get_cursor(&CKey(x)).map(|c| c.0))?;
                let r = h.m.rank(x);
                for _ in 0..o.ub() % 200 {
                    match h.m.select(r.saturating_sub(20)) {
                        Some(y) => h.remove(self, y)?,
                        None => break,
                    }
                }
                let m = h.m.clone();
                self.cursor(c, &m, &mut h.rng)
            }
            // removals by position
            _ => {
                for _ in 0..o.ub() % (h.m.len() / 2 + 10) {
                    let n = h.m.len();
                    let i = match o.ua() % 4 {
                        0 => 0,
                        1 => h.rng.below(n + 1),
                        2 => n.saturating_sub(1),
                        _ => n / 2,
                    };
                    let r = self.measured("removal by position", n, |d| d.take(i))?;
                    let Some(r) = r else { return Ok(()) };
                    ensure!(r == h.m.select(i), "removing position {i} gave {r:?}");
                    if let Some(x) = r {
                        h.m.remove(x);
                    }
                    self.changed(h.m.len())?;
                }
                Ok(())
            }
        }
    }
}

impl<A: Augmentation<CKey, u64>> S<A>
where
    T<A>: Ask,
{
    /// some steps
    fn cursor(&mut self, c: Option<Cursor<CKey>>, m: &Model, rng: &mut Rng) -> R {
        let Some(mut c) = c else { return Ok(()) };
        let n = m.len();
        for _ in 0..rng.below(6) {
            let x = c.key().0;
            match rng.below(4) {
                0 => {
                    let c2 = c.clone();
                    let r = self.measured("cursor value", n, |d| c2.value(d).copied())?;
                    ensure!(r == m.get(x), "cursor value is {r:?}");
                }
                1 => {
                    let c2 = c.clone();
                    match self.measured("cursor prev", n, |d| c2.prev(d))? {
                        Some(p) => {
                            ensure!(Some(p.key().0) == m.pred(x), "prev of {x} is {:?}", p.key());
                            c = p
                        }
                        None => break,
                    }
                }
                _ => {
                    let c2 = c.clone();
                    match self.measured("cursor next", n, |d| c2.next(d))? {
                        Some(p) => {
                            ensure!(Some(p.key().0) == m.succ(x), "next of {x} is {:?}", p.key());
                            c = p
                        }
                        None => break,
                    }
                }
            }
        }
        Ok(())
    }
}

fn go<A: Augmentation<CKey, u64>>(case: &Case, cx: &mut Cx) -> R
where
    T<A>: Ask,
{
    let mut s: S<A> = S {
        d: new_tree(),
        deepest: 0,
        shrank: false,
        worst: [0; 3],
        i: 0,
    };
    let h = run_hist(case, &mut s, cx)?;
    s.uniform(h.m.len())?;
    let t = s.d.statistic();
    for (n, l) in [
        (t.rotate_left_leaf, "leaf borrowed from the right"),
        (t.rotate_right_leaf, "leaf borrowed from the left"),
        (t.merge_with_left_leaf, "leaf merged with left"),
        (t.merge_with_right_leaf, "leaf merged with right"),
        (t.rotate_left_inner, "inner borrowed from the right"),
        (t.rotate_right_inner, "inner borrowed from the left"),
        (t.merge_with_left_inner, "inner merged with left"),
        (t.merge_with_right_inner, "inner merged with right"),
    ] {
        if n > 0 {
            cx.label(l);
        }
    }
    if std::env::var("WORST").is_ok() {
        eprintln!("WORST {} {} {} {} levels {}", case.stage, s.worst[0], s.worst[1], s.worst[2], s.deepest);
    }
    match s.deepest {
        3 => cx.label("3 levels seen"),
        4 => cx.label("4 levels seen"),
        5.. => cx.label("5 or more levels seen"),
        _ => {}
    }
    if s.shrank {
        cx.label("height shrank");
    }
    if h.max_n > 1000 {
        cx.nontrivial();
    }
    Ok(())
}

/// remove in a pattern that leaves nodes as empty as they get
fn thin(rng: &mut Rng, stage: &str) -> Case {
    let n = match stage {
        "giant" => sizes(rng, Class::Giant),
        "huge" => rng.range(70_000, 130_000),
        "large" => rng.range(2200, 20_000),
        _ => rng.range(300, 2200),
    };
    let mut ops = vec![op(INS, 0, n, rng.pick(&[0usize, 1, 2]) | 1 << 3)];
    if rng.bool() {
        ops.push(op(BLD, 0, 0, 0));
    }
    // keep every (k+1)-th, or first thin by half and so on
    let mut left = n;
    for _ in 0..rng.range(1, 4) {
        let k = rng.pick(&[1usize, 1, 2, 3]);
        if rng.bool() {
            // take k out of k + 1: remove one, skip none, k times in one place
            for j in 0..k.min(3) {
                let c = left / (k - j + 1) + 1;
                ops.push(op(DEL, 0, c, 2 | (k - j) << 3));
                left = left.saturating_sub(c);
            }
        } else {
            let c = left / (k + 1) + 1;
            ops.push(op(DEL, rng.below(20), c, 2 | k << 3));
            left = left.saturating_sub(c);
        }
        ops.push(op(CHK, 0, 0, 0));
    }
    ops.push(op(PRB, 0, 60, 0));
    for _ in 0..rng.range(1, 3) {
        let c = rng.range(1, left.max(1));
        ops.push(op(DEL, rng.below(left.max(1)), c, rng.pick(&[0usize, 1, 5])));
        left = left.saturating_sub(c);
        ops.push(op(CHK, 0, 0, 0));
    }
    ops.push(op(DEL, 0, n, rng.pick(&[0usize, 1, 3, 5])));
    Case {
        stage: stage.into(),
        params: vec![n as i64, (rng.next() >> 1) as i64, 2, rng.below(3) as i64],
        ops,
    }
}

/// Large collections whose operations are timed next to lookups in the
/// standard library's tree of the same size.
struct Timed {
    tree: BPlusTree<sweep_bptree::NodeStoreVec<u64, u64, Count>>,
    map: BPlusTreeMap<u64, u64>,
    set: BPlusTreeSet<u64>,
    std: BTreeMap<u64, u64>,
    n: u64,
    cur: Cursor<u64>,
}
/// entries are the even numbers below 2n
const TIMED: [&str; 27] = [
    "tree get", "tree get_mut", "tree insert of a new key and its removal", "tree overwrite", "tree first and last",
    "cursor_first", "Cursor::last", "get_cursor", "next of a new cursor", "prev of a new cursor", "value of a cursor",
    "next of an old cursor", "rank", "entry by position", "mutable entry by position", "removal by position",
    "first steps of an iterator", "tree len", "map get", "map insert of a new key and its removal",
    "map iterator's ends", "set contains", "set insert and remove", "set first and last", "first steps of a union",
    "absent get", "visit",
];
impl Timed {
    fn new(n: u64, how: usize, seed: u64) -> Timed {
        let mut keys: Vec<u64> = (0..n).map(|x| 2 * x).collect();
        if how == 0 {
            crate::dict::scramble(&mut keys, seed as usize % 1000);
        }
        let (mut tree, mut map, mut set) = (BPlusTree::new(Default::default()), BPlusTreeMap::new(), BPlusTreeSet::new());
        let std: BTreeMap<u64, u64> = keys.iter().map(|&k| (k, k)).collect();
        if how == 2 {
            tree = BPlusTree::bulk_load(keys.iter().map(|&k| (k, k)).collect());
            map = keys.iter().map(|&k| (k, k)).collect();
            set = keys.iter().copied().collect();
        } else {
            for &k in &keys {
                tree.insert(k, k);
                map.insert(k, k);
                set.insert(k);
            }
        }
        let cur = tree.get_cursor(&(n / 2 * 2)).expect("cursor").0;
        Timed { tree, map, set, std, n, cur }
    }
    /// what the operation gives must depend on all of its work; `x < n`
    fn go(&mut self, what: usize, x: u64) -> u64 {
        let (t, k, odd) = (&mut self.tree, 2 * x, 2 * x + 1);
        match what {
            0 => *t.get(&k).unwrap(),
            1 => *t.get_mut(&k).unwrap(),
            2 => t.insert(odd, 1).is_none() as u64 + t.remove(&odd).unwrap(),
            3 => t.insert(k, k).unwrap(),
            4 => t.first().unwrap().0 + t.last().unwrap().0,
            5 => *t.cursor_first().unwrap().key(),
            6 => *Cursor::last(t).unwrap().0.key(),
            7 => *t.get_cursor(&odd).unwrap().0.key(),
            8 => t.get_cursor(&k).unwrap().0.next(t).map_or(0, |c| *c.key()),
            9 => t.get_cursor(&odd).unwrap().0.prev(t).map_or(0, |c| *c.key()),
            10 => *t.get_cursor(&k).unwrap().0.value(t).unwrap(),
            // moved far away now and then, its leaf is known or was split
            11 => {
                self.cur = self.cur.next(t).unwrap_or_else(|| t.cursor_first().unwrap());
                if x % 8 == 0 {
                    t.insert(odd, 1);
                    t.remove(&odd);
                }
                *self.cur.key()
            }
            12 => t.rank_by_augmentation(&odd).unwrap_or_else(|e| e) as u64,
            13 => *t.get_by_augmentation(x as usize).unwrap().0,
            14 => *t.get_mut_by_augmentation(x as usize).unwrap(),
            15 => {
                let (k, v) = t.remove_by_augmentation(x as usize).unwrap();
                t.insert(k, v);
                v
            }
            16 => {
                let mut i = t.iter();
                *i.next().unwrap().0 + *i.next_back().unwrap().0 + i.len() as u64 + *i.next().unwrap().0
            }
            17 => t.len() as u64 + t.is_empty() as u64 + t.root_augmentation().count() as u64,
            18 => *self.map.get(&k).unwrap(),
            19 => self.map.insert(odd, 1).is_none() as u64 + self.map.remove(&odd).unwrap(),
            20 => {
                let mut i = self.map.iter();
                *i.next().unwrap().0 + *i.next_back().unwrap().0 + i.len() as u64 + self.map.len() as u64
            }
            21 => self.set.contains(&k) as u64,
            22 => self.set.insert(odd) as u64 + self.set.remove(&odd) as u64,
            23 => self.set.first().unwrap() + self.set.last().unwrap() + self.set.len() as u64,
            24 => {
                let mut u = self.set.union(&self.set);
                *u.next().unwrap() + *u.next().unwrap() + u.size_hint().0 as u64
            }
            25 => t.get(&odd).is_none() as u64,
            _ => t.descend_visit(Levels(2, x, 0)).unwrap() as u64,
        }
    }
    /// the least time of an operation in ns, over some batches, and of a lookup in the standard tree
    fn measure(&mut self, what: usize, rng: &mut Rng) -> (f64, f64) {
        let (mut a, mut b) = (f64::MAX, f64::MAX);
        let per = 64;
        for _ in 0..6 {
            let xs: Vec<u64> = (0..per).map(|_| rng.below(self.n as usize) as u64).collect();
            let t = Instant::now();
            let mut sum = 0u64;
            for &x in &xs {
                sum = sum.wrapping_add(*self.std.get(&(2 * x)).unwrap());
            }
            b = b.min(t.elapsed().as_nanos() as f64 / per as f64);
            let xs: Vec<u64> = (0..per).map(|_| rng.below(self.n as usize) as u64).collect();
            let t = Instant::now();
            for &x in &xs {
                sum = sum.wrapping_add(self.go(what, x));
            }
            a = a.min(t.elapsed().as_nanos() as f64 / per as f64);
            std::hint::black_box(sum);
        }
        (a, b)
    }
}
fn timed(case: &Case, cx: &mut Cx) -> R {
    let n = case.param(0).clamp(1000, 1 << 20) as u64;
    let mut rng = Rng::new(case.param(1) as u64);
    let mut t = Timed::new(n, case.param(2) as usize % 3, case.param(1) as u64);
    for o in &case.ops {
        let what = o.ua() % TIMED.len();
        let mut worst = String::new();
        // only what is slow again and again
        let mut slow = 0;
        while slow < 4 {
            let (a, b) = t.measure(what, &mut rng);
            if std::env::var("WORST").is_ok() {
                eprintln!("TIME {:40} {a:8.0} ns, std lookup {b:6.0} ns, {:5.1}", TIMED[what], a / b);
            }
            // a walk over all nodes takes some hundred times as long as a lookup
            if a < 50.0 * b + 500.0 {
                break;
            }
            worst = format!("{} takes {a:.0} ns with {n} entries, a lookup in a BTreeMap of that size takes {b:.0} ns", TIMED[what]);
            slow += 1;
        }
        ensure!(slow < 4, "{worst}");
        cx.steps += 384;
    }
    cx.nontrivial();
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C17";
    const RULE: &'static str = "Histories over size classes up to 130000 entries, including thinning patterns that leave every node as empty as it gets, on a tree whose keys count their comparisons and whose summary counts its computations. After operations the number of levels along the left edge, right edge and a random path is bounded by the size, at checkpoints all leaves are visited and must have one depth; every insert, remove (by key and position), get, cursor step, rank and position query is bounded in comparisons and summaries computed by a multiple of the height bound. Non-trivial: more than 1000 entries.";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        let mut v = vec![];
        if profile == "release" {
            // few cases: they take long
            v.push(stage("timed", 2 * f));
        }
        v.extend([
            stage("giant", 4 * f),
            stage("huge", 160 * f),
            stage("large", 4500 * f),
            stage("medium", 10000 * f),
            stage("small", 12000 * f),
            stage("tiny", 8000 * f),
        ]);
        v
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        if stage == "timed" {
            return Case {
                stage: stage.into(),
                params: vec![rng.range(250_000, 400_000) as i64, (rng.next() >> 1) as i64, rng.below(3) as i64],
                ops: (0..TIMED.len()).map(|i| op(SP2, i, 0, 0)).collect(),
            };
        }
        if stage != "tiny" && rng.pct(40) {
            return thin(rng, stage);
        }
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 3,
                specials: &[(SP0, 4), (SP1, 5)],
                densities: &[8, 32],
                touch: false,
                drain_pct: 40,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        if case.stage == "timed" {
            return timed(case, cx);
        }
        match case.param(3) {
            0 => go::<()>(case, cx),
            _ => go::<CSum>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
