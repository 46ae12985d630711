//! C18: what visitors are shown, and what becomes of places that do not exist.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::Vid;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::seg::{Acc, Seg};
use harness::tok::{self, KTok, VTok};
use harness::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, BPlusTreeMap};

/// fold of the entries; queries follow a given route
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Sum(Acc);
impl<K: TKey, V: Vid> Augmentation<K, V> for Sum {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        Sum(a.iter().fold(Acc::ZERO, |x, y| x.then(y.0)))
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        Sum(harness::folds::fold_leaf(k, v))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Turn {
    At(usize),
    /// so many places beyond the last one
    Past(usize),
    /// from the end
    Last,
    Stop,
    Done,
}
impl Turn {
    fn place(self, n: usize) -> usize {
        match self {
            Turn::At(i) => i,
            Turn::Past(j) => n + j,
            Turn::Last => n.saturating_sub(1),
            _ => 0,
        }
    }
}

/// What was shown on the way.
#[derive(Clone, Debug)]
enum Shown {
    Inner(Vec<u32>, Vec<Acc>),
    Leaf(Vec<u32>, Vec<u64>),
}
#[derive(Clone)]
struct Route {
    turns: Rc<Vec<Turn>>,
    seen: Rc<RefCell<Vec<Shown>>>,
    /// fixed random choices where the route says nothing
    seed: u64,
}
impl Route {
    fn new(turns: Vec<Turn>, seed: u64) -> Self {
        Route { turns: Rc::new(turns), seen: Rc::default(), seed }
    }
    /// the turn at this level, where there are n places
    fn turn(&self, level: usize, n: usize) -> Turn {
        self.turns.get(level).copied().unwrap_or(Turn::At(
            (rng::splitmix(self.seed ^ level as u64) >> 20) as usize % n.max(1),
        ))
    }
    fn inner<K: TKey>(&self, keys: &[K], a: &[Sum]) {
        self.seen
            .borrow_mut()
            .push(Shown::Inner(keys.iter().map(|k| k.ix()).collect(), a.iter().map(|x| x.0).collect()));
    }
    fn leaf<K: TKey, V: Vid>(&self, keys: &[K], values: &[V]) {
        self.seen
            .borrow_mut()
            .push(Shown::Leaf(keys.iter().map(|k| k.ix()).collect(), values.iter().map(|v| v.vid()).collect()));
    }
    fn level(&self) -> usize {
        self.seen.borrow().len()
    }
}
impl<K: TKey, V: Vid> DescendVisit<K, V, Sum> for Route {
    type Result = (bool, usize);
    fn visit_inner(&mut self, keys: &[K], a: &[Sum]) -> DescendVisitResult<(bool, usize)> {
        let l = self.level();
        self.inner(keys, a);
        match self.turn(l, a.len()) {
            Turn::Stop => DescendVisitResult::Cancel,
            Turn::Done => DescendVisitResult::Complete((false, l)),
            t => DescendVisitResult::GoDown(t.place(a.len())),
        }
    }
    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<(bool, usize)> {
        let l = self.level();
        self.leaf(keys, values);
        (self.turn(l, 1) != Turn::Stop).then_some((true, l))
    }
}
impl<K: TKey, V: Vid> SearchAugmentation<K, V> for Sum {
    type Query = Route;
    fn locate_in_leaf(q: Route, keys: &[K], values: &[V]) -> Option<usize> {
        let l = q.level();
        q.leaf(keys, values);
        match q.turn(l, keys.len()) {
            Turn::Stop | Turn::Done => None,
            t => Some(t.place(keys.len())),
        }
    }
    fn locate_in_inner(q: Route, keys: &[K], a: &[Self]) -> Option<(usize, Route)> {
        let l = q.level();
        q.inner(keys, a);
        match q.turn(l, a.len()) {
            Turn::Stop | Turn::Done => None,
            t => Some((t.place(a.len()), q)),
        }
    }
}

trait Look<K: TKey, V: TVal>: Dict<K, V> {
    fn root(&self) -> Acc;
    fn visit(&self, r: Route) -> Option<(bool, usize)>;
    fn find(&self, r: Route) -> Option<(u32, u64)>;
    fn find_mut(&mut self, r: Route) -> Option<u64>;
    fn take(&mut self, r: Route) -> Option<(u32, u64)>;
}
macro_rules! look {
    ($t:ident) => {
        fn root(&self) -> Acc {
            $t::root_augmentation(self).0
        }
        fn visit(&self, r: Route) -> Option<(bool, usize)> {
            $t::descend_visit(self, r)
        }
        fn find(&self, r: Route) -> Option<(u32, u64)> {
            $t::get_by_augmentation(self, r).map(|(k, v)| (k.ix(), v.vid()))
        }
        fn find_mut(&mut self, r: Route) -> Option<u64> {
            $t::get_mut_by_augmentation(self, r).map(|v| v.vid())
        }
        fn take(&mut self, r: Route) -> Option<(u32, u64)> {
            $t::remove_by_augmentation(self, r).map(|(k, v)| (k.ix(), v.vid()))
        }
    };
}
impl<K: TKey, V: TVal + Vid> Look<K, V> for Tree<K, V, Sum> {
    look!(BPlusTree);
}
impl<K: TKey, V: TVal + Vid> Look<K, V> for BPlusTreeMap<K, V, Sum> {
    look!(BPlusTreeMap);
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    seg: Seg,
    /// a separator may equal the first key right of it, or the last one left
    /// of it, but it is always the same of the two
    right_incl: bool,
    left_incl: bool,
    refused: u64,
    paths: u64,
    inner: u64,
}

/// (first index, one past the last) of the model entries with lo <= key < hi
fn run_of(m: &Model, lo: usize, hi: usize) -> (usize, usize) {
    let r = |x: usize| if x >= m.dom() { m.len() } else { m.rank(x as u32) };
    (r(lo), r(hi))
}

impl<K: TKey, V: TVal + Vid, D: Look<K, V>> S<K, V, D> {
    fn intact(&mut self, m: &Model, full: bool) -> R {
        self.core.len(m.len())?;
        ensure!(
            m.is_empty() || self.core.d.root() == self.seg.all(),
            "the summary of the tree has changed"
        );
        if full {
            let want = m.entries();
            let mut i = 0;
            let mut bad = None;
            self.core.d.walk(&mut |k, v| {
                let ok = i < want.len() && want[i].0 == k.ix() && v.is(want[i].1);
                if !ok {
                    bad = Some(format!("entry {i} is now {k:?} {v:?}, should be {:?}", want.get(i)));
                }
                i += 1;
                ok
            });
            if let Some(b) = bad {
                return Err(b);
            }
            ensure!(i == want.len(), "there are {i} entries now, should be {}", want.len());
        }
        if let Some(e) = tok::error() {
            return Err(e);
        }
        Ok(())
    }
    /// Check what was shown along a path against the contents. `turns` are the
    /// places that were gone to.
    fn shown(&mut self, m: &Model, seen: &[Shown], route: &Route) -> R {
        // keys of the subtree: lo..hi by either reading of the separators
        let (mut lo, mut hi) = (0usize, m.dom());
        let (mut lo2, mut hi2) = (0usize, m.dom());
        let mut want = None;
        for (l, s) in seen.iter().enumerate() {
            match s {
                Shown::Inner(keys, augs) => {
                    self.inner += 1;
                    ensure!(
                        augs.len() == keys.len() + 1,
                        "level {l} shows {} separators and {} summaries",
                        keys.len(),
                        augs.len()
                    );
                    ensure!(
                        keys.windows(2).all(|w| w[0] < w[1]),
                        "the separators at level {l} are not ascending: {keys:?}"
                    );
                    // each child's summary against the entries between its separators
                    let mut right = true;
                    let mut left = true;
                    for i in 0..augs.len() {
                        let a = if i == 0 { lo } else { keys[i - 1] as usize };
                        let b = if i == keys.len() { hi } else { keys[i] as usize };
                        right &= a <= b && self.seg.range(a, b) == augs[i];
                        let a = if i == 0 { lo2 } else { keys[i - 1] as usize + 1 };
                        let b = if i == keys.len() { hi2 } else { keys[i] as usize + 1 };
                        left &= a <= b && self.seg.range(a, b) == augs[i];
                    }
                    self.right_incl &= right;
                    self.left_incl &= left;
                    ensure!(
                        self.right_incl || self.left_incl,
                        "at level {l} separators and summaries do not fit the contents: {keys:?}, {:?} entries",
                        augs.iter().map(|a| a.n).collect::<Vec<_>>()
                    );
                    let total = augs.iter().fold(Acc::ZERO, |x, y| x.then(*y));
                    if let Some(w) = want {
                        ensure!(total == w, "level {l} does not add up to the summary shown above");
                    }
                    let i = route.turn(l, augs.len()).place(augs.len());
                    if i < augs.len() {
                        want = Some(augs[i]);
                        if i > 0 {
                            lo = keys[i - 1] as usize;
                            lo2 = lo + 1;
                        }
                        if i < keys.len() {
                            hi = keys[i] as usize;
                            hi2 = hi + 1;
                        }
                    }
                }
                Shown::Leaf(keys, values) => {
                    ensure!(l + 1 == seen.len(), "something was shown after the leaf");
                    ensure!(
                        keys.len() == values.len(),
                        "the leaf shows {} keys and {} values",
                        keys.len(),
                        values.len()
                    );
                    let (a, b) = if self.right_incl { run_of(m, lo, hi) } else { run_of(m, lo2, hi2) };
                    ensure!(
                        b.saturating_sub(a) == keys.len(),
                        "the leaf shows {} entries, there are {} between its separators",
                        keys.len(),
                        b.saturating_sub(a)
                    );
                    for (i, (k, v)) in keys.iter().zip(values).enumerate() {
                        let x = m.select(a + i).unwrap();
                        ensure!(
                            *k == x && *v == V::norm(m.get(x).unwrap()),
                            "entry {i} of the leaf is ({k}, {v}), should be key {x}"
                        );
                    }
                }
            }
        }
        Ok(())
    }
    /// one descent with a visitor
    fn descent(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.paths += 1;
        let turns: Vec<Turn> = match rng.below(5) {
            0 => vec![Turn::At(0); 12],
            1 => vec![Turn::Last; 12],
            _ => vec![],
        };
        let r = Route::new(turns, rng.next());
        let out = self.core.d.visit(r.clone());
        let seen = r.seen.borrow().clone();
        self.shown(m, &seen, &r)?;
        let depth = seen.len() - 1;
        ensure!(matches!(seen[depth], Shown::Leaf(..)), "the visit did not end at a leaf");
        ensure!(out == Some((true, depth)), "the visit returned {out:?}, not what the visitor answered at the leaf");

        // the same route, ended early in some way
        let l = rng.below(depth + 1);
        let mut t: Vec<Turn> = (0..l).map(|i| r.turn(i, kids(&seen[i]))).collect();
        let n = kids(&seen[l]);
        let kind = rng.below(4);
        let leaf = l == depth;
        t.push(match kind {
            0 => Turn::Stop,
            1 if !leaf => Turn::Done,
            _ if leaf => Turn::Stop,
            2 => Turn::Past(rng.pick(&[0usize, 0, 1, 2, 63, 1000])),
            _ => Turn::At(rng.pick(&[n, n + 1, 64.max(n), 65.max(n), 66.max(n), usize::MAX, usize::MAX / 2, 1 << 32])),
        });
        let last = t[l];
        let r2 = Route::new(t, r.seed);
        let d = &self.core.d;
        let out = catch_unwind(AssertUnwindSafe(|| d.visit(r2.clone())));
        let again = r2.seen.borrow().clone();
        ensure!(
            again.len() == l + 1,
            "{last:?} at level {l}: the visitor was called {} times, not {}",
            again.len(),
            l + 1
        );
        self.shown(m, &again, &r2)?;
        match (last, out) {
            (Turn::Stop, Ok(None)) => {}
            (Turn::Done, Ok(Some((false, x)))) if x == l => {}
            (Turn::Stop | Turn::Done, o) => {
                return Err(format!("{last:?} at level {l} (leaf: {leaf}) returned {:?}", o.map_err(|_| runner::last_panic())))
            }
            // refused: nothing, or a panic
            (_, Ok(None)) | (_, Err(_)) => {
                self.refused += 1;
                self.intact(m, m.len() < 400)?;
            }
            (_, o) => return Err(format!("going to {last:?} of {n} children at level {l} returned {:?}", o.ok())),
        }
        Ok(())
    }
    /// one query by route; returns the key if it was removed
    fn query(&mut self, m: &Model, rng: &mut Rng, how: usize) -> Result<Option<u32>, String> {
        self.paths += 1;
        // find out what there is along a random route
        let probe = Route::new(vec![], rng.next());
        self.core.d.visit(probe.clone()).ok_or("a visit gave nothing")?;
        let seen = probe.seen.borrow().clone();
        let depth = seen.len() - 1;
        let n_leaf = kids(&seen[depth]);
        let mut t: Vec<Turn> = (0..depth).map(|i| probe.turn(i, kids(&seen[i]))).collect();
        let kind = rng.below(6);
        let bad = |n: usize, rng: &mut Rng| match rng.below(3) {
            0 => Turn::Past(rng.pick(&[0usize, 0, 1, 60])),
            1 => Turn::At(n.max(rng.pick(&[0usize, 1, 15, 16, 63, 64, 65]))),
            _ => Turn::At(rng.pick(&[usize::MAX, 1 << 16, (1 << 16) + 1, 1 << 32, usize::MAX / 2 + 1]).max(n)),
        };
        let mut ok = None;
        match kind {
            0 if depth > 0 => {
                // a child that does not exist
                let l = rng.below(depth);
                t.truncate(l);
                t.push(bad(kids(&seen[l]), rng));
            }
            1 | 2 => t.push(bad(n_leaf, rng)),
            3 => {
                let l = rng.below(depth + 1);
                t.truncate(l);
                t.push(Turn::Stop);
            }
            _ => {
                let i = rng.below(n_leaf.max(1));
                t.push(Turn::At(i));
                if let Shown::Leaf(k, v) = &seen[depth] {
                    ok = k.get(i).map(|k| (*k, v[i]));
                }
            }
        }
        let stopped = t.last() == Some(&Turn::Stop);
        let last = t[t.len() - 1];
        let q = Route::new(t, probe.seed);
        let d = &mut self.core.d;
        let out: Result<Option<(Option<u32>, u64)>, String> = catch_unwind(AssertUnwindSafe(|| match how {
            0 => d.find(q.clone()).map(|(k, v)| (Some(k), v)),
            1 => d.find_mut(q.clone()).map(|v| (None, v)),
            _ => d.take(q.clone()).map(|(k, v)| (Some(k), v)),
        }))
        .map_err(|_| runner::last_panic());
        let shown = q.seen.borrow().clone();
        self.shown(m, &shown, &q)?;
        let name = ["get", "get_mut", "remove"][how.min(2)];
        match (ok, out) {
            (Some((x, v)), Ok(Some((k, w)))) if k.unwrap_or(x) == x && v == w => {
                if how == 2 {
                    return Ok(Some(x));
                }
            }
            (Some(e), o) => return Err(format!("{name} at {last:?} gave {o:?}, should be {e:?}")),
            (None, Ok(None)) => self.refused += !stopped as u64,
            (None, Err(_)) if !stopped => self.refused += 1,
            (None, o) => return Err(format!("{name} at {last:?} (leaf of {n_leaf}) gave {o:?}, should be refused")),
        }
        self.intact(m, m.len() < 400 || how == 2 && m.len() < 3000)
            .map_err(|e| format!("after {name} at {last:?}: {e}"))?;
        Ok(None)
    }
    /// all leaves in order
    fn everything(&mut self, m: &Model) -> R {
        let mut path: Vec<Turn> = vec![];
        let mut open: Vec<(usize, usize)> = vec![];
        let mut at = 0;
        let small = m.len() < 3000;
        loop {
            let r = Route::new(path.iter().copied().chain([Turn::Done]).collect(), 0);
            let out = self.core.d.visit(r.clone());
            let seen = r.seen.borrow().clone();
            ensure!(seen.len() == path.len() + 1, "a visit of {path:?} was shown {} nodes", seen.len());
            ensure!(out.is_some(), "a visit of {path:?} gave nothing");
            if small {
                self.shown(m, &seen, &r)?;
            }
            match &seen[path.len()] {
                Shown::Inner(_, a) => {
                    open.push((a.len(), 0));
                    path.push(Turn::At(0));
                    ensure!(path.len() < 40, "endless path");
                    continue;
                }
                Shown::Leaf(k, v) => {
                    for (k, v) in k.iter().zip(v) {
                        let x = m.select(at);
                        ensure!(
                            x == Some(*k) && V::norm(m.get(*k).unwrap()) == *v,
                            "entry {at} in the order of the leaves is ({k}, {v}), should be key {x:?}"
                        );
                        at += 1;
                    }
                }
            }
            loop {
                match open.last_mut() {
                    None => {
                        ensure!(at == m.len(), "the leaves have {at} of {} entries", m.len());
                        return Ok(());
                    }
                    Some((n, i)) => {
                        *i += 1;
                        if *i < *n {
                            *path.last_mut().unwrap() = Turn::At(*i);
                            break;
                        }
                        open.pop();
                        path.pop();
                    }
                }
            }
        }
    }
}
fn kids(s: &Shown) -> usize {
    match s {
        Shown::Inner(_, a) => a.len(),
        Shown::Leaf(k, _) => k.len(),
    }
}

impl<K: TKey, V: TVal + Vid, D: Look<K, V>> Sink for S<K, V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.insert(m, x, vid)?;
        self.seg.set(x, Some(V::norm(vid)));
        Ok(())
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.core.remove(m, x)?;
        self.seg.set(x, None);
        Ok(())
    }
    fn clear(&mut self, m: &Model) -> R {
        self.seg = Seg::new(m.dom());
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, _: u32, rng: &mut Rng) -> R {
        self.descent(m, rng)?;
        let how = rng.below(2);
        self.query(m, rng, how)?;
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.everything(m)?;
        self.descent(m, rng)?;
        self.intact(m, true)
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        // removals by route, in between refused ones
        for _ in 0..o.ub() % 60 + 1 {
            let m = h.m.clone();
            if let Some(x) = self.query(&m, &mut h.rng, 2)? {
                h.m.remove(x);
                self.seg.set(x, None);
                let m = h.m.clone();
                self.intact(&m, false)?;
            }
        }
        let m = h.m.clone();
        self.intact(&m, true)?;
        self.descent(&m, &mut h.rng)
    }
}

fn go<K: TKey, V: TVal + Vid, D: Look<K, V>>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let mut s: S<K, V, D> = S {
        core: Core::new(D::new()),
        seg: Seg::new(case.param(0).clamp(1, 1 << 22) as usize),
        right_incl: true,
        left_incl: true,
        refused: 0,
        paths: 0,
        inner: 0,
    };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(9))?;
    for i in 0..3 {
        s.descent(&h.m, &mut Rng::new(i))?;
    }
    let (refused, inner) = (s.refused, s.inner);
    drop(s);
    if let Some(e) = tok::error() {
        return Err(e);
    }
    if refused > 0 {
        cx.label("refused places");
    }
    if inner > 0 && refused > 0 {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C18";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on tree and map with an order-sensitive summary. Visitors descend random, left-most and right-most routes and record all they are shown: separators and child summaries are compared with the contents level by level, the leaf with exactly the entries between its separators, and all leaves in turn with all contents. The same routes are then ended by Cancel, Complete or a child that does not exist, and queries by route name existing and missing children and slots for get, get_mut and remove; a refused one must return nothing (or panic) and change nothing. Non-trivial: an inner node was shown and a missing place refused.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 2, classes(tier, 9000, 4000, 2400, 800, 300, 6))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 5,
                specials: &[(SP0, 8)],
                densities: &[1, 4, 16, 64],
                touch: false,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64, Sum>>(case, cx),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64, Sum>>(case, cx),
            2 => go::<String, String, Tree<String, String, Sum>>(case, cx),
            3 => go::<Wide, [u64; 5], BPlusTreeMap<Wide, [u64; 5], Sum>>(case, cx),
            _ => go::<KTok, VTok, Tree<KTok, VTok, Sum>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
