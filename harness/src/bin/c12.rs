//! C12: panics out of key comparisons, copies, summaries and releases. Every crash point of an
//! operation is tried in turn: the fuse is set to the 1st, 2nd, 3rd ... user
//! call until the operation gets through.

use harness::core::Core;
use harness::dict::{scramble, Dict};
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, stage, Prop, Stage, Tier};
use harness::tok::{self, Inst};
use harness::*;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

const CMP: u32 = 1;
const COPY: u32 = 2;
const SUM: u32 = 4;
const DROP: u32 = 8;

thread_local! {
    /// which calls count, how many are let through, whether it went off
    static FUSE: Cell<(u32, usize, bool)> = const { Cell::new((0, 0, false)) };
    static BAD: Cell<bool> = const { Cell::new(false) };
}
fn tick(kind: u32) {
    let (mask, left, fired) = FUSE.with(|f| f.get());
    if mask & kind == 0 {
        return;
    }
    if left == 0 {
        FUSE.with(|f| f.set((0, 0, true)));
        panic!("fuse");
    }
    FUSE.with(|f| f.set((mask, left - 1, fired)));
}
fn off() -> bool {
    FUSE.with(|f| f.replace((0, 0, false))).2
}
/// a release; the ones a panic causes do not count, nobody can survive two
fn gone() {
    if !std::thread::panicking() {
        tick(DROP);
    }
}
/// no panic here, it would look like the fuse
fn seen(i: &Inst) {
    if i.check().is_err() {
        BAD.with(|b| b.set(true));
    }
}

#[derive(Debug)]
struct BKey {
    x: u32,
    i: Inst,
}
impl Clone for BKey {
    fn clone(&self) -> Self {
        seen(&self.i);
        tick(COPY);
        BKey { x: self.x, i: self.i.clone() }
    }
}
impl Drop for BKey {
    fn drop(&mut self) {
        gone()
    }
}
#[repr(transparent)]
struct BRef(BKey);
impl PartialEq for BKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for BKey {}
impl PartialOrd for BKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BKey {
    fn cmp(&self, o: &Self) -> Ordering {
        seen(&self.i);
        seen(&o.i);
        tick(CMP);
        self.x.cmp(&o.x)
    }
}
impl PartialEq for BRef {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for BRef {}
impl PartialOrd for BRef {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BRef {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Borrow<BRef> for BKey {
    fn borrow(&self) -> &BRef {
        // same layout by repr(transparent)
        unsafe { &*(self as *const BKey as *const BRef) }
    }
}
impl TKey for BKey {
    type Q = BRef;
    fn of(x: u32) -> Self {
        BKey { x, i: Inst::new(tok::KEY) }
    }
    fn ix(&self) -> u32 {
        seen(&self.i);
        self.x
    }
}
#[derive(Debug)]
struct BVal {
    v: u64,
    i: Inst,
}
impl Clone for BVal {
    fn clone(&self) -> Self {
        seen(&self.i);
        tick(COPY);
        BVal { v: self.v, i: self.i.clone() }
    }
}
impl Drop for BVal {
    fn drop(&mut self) {
        gone()
    }
}
impl TVal for BVal {
    fn of(vid: u64) -> Self {
        BVal { v: vid, i: Inst::new(tok::VAL) }
    }
    fn is(&self, vid: u64) -> bool {
        self.v == vid && self.i.check().is_ok()
    }
}

/// a count whose code may panic as well
#[derive(Debug)]
struct BSum {
    n: usize,
    /// the values, added up
    v: u64,
    i: Inst,
}
impl Drop for BSum {
    fn drop(&mut self) {
        gone()
    }
}
impl BSum {
    fn of(n: usize, v: u64) -> Self {
        tick(SUM);
        BSum { n, v, i: Inst::new(tok::AUG) }
    }
    fn n(&self) -> usize {
        seen(&self.i);
        self.n
    }
    fn count(&self) -> usize {
        self.n()
    }
}
impl Clone for BSum {
    fn clone(&self) -> Self {
        Self::of(self.n(), self.v)
    }
}
impl Default for BSum {
    fn default() -> Self {
        BSum { n: 0, v: 0, i: Inst::new(tok::AUG) }
    }
}
impl Augmentation<BKey, BVal> for BSum {
    fn from_inner(_: &[BKey], a: &[Self]) -> Self {
        Self::of(a.iter().map(|x| x.n()).sum(), a.iter().fold(0, |s, x| s.wrapping_add(x.v)))
    }
    fn from_leaf(keys: &[BKey], vals: &[BVal]) -> Self {
        for v in vals {
            seen(&v.i);
        }
        Self::of(keys.len(), vals.iter().fold(0, |s, x| s.wrapping_add(x.v)))
    }
}
impl SearchAugmentation<BKey, BVal> for BSum {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[BKey], _: &[BVal]) -> Option<usize> {
        tick(SUM);
        (q < keys.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _: &[BKey], a: &[Self]) -> Option<(usize, usize)> {
        tick(SUM);
        for (i, x) in a.iter().enumerate() {
            if q < x.n() {
                return Some((i, q));
            }
            q -= x.n();
        }
        None
    }
}
impl RankAugmentation<BKey, BVal> for BSum {
    type Rank = usize;
    fn initial_value() -> usize {
        tick(SUM);
        0
    }
    fn fold_inner(_: &BKey, r: usize, a: &[Self]) -> usize {
        tick(SUM);
        r + a.iter().map(|x| x.n()).sum::<usize>()
    }
    fn fold_leaf(_: &BKey, r: usize, s: Result<usize, usize>, _: &[BKey]) -> Result<usize, usize> {
        tick(SUM);
        s.map(|s| r + s).map_err(|s| r + s)
    }
}

/// What only some of the collections have.
trait Ext<V: TVal>: Dict<BKey, V> {
    fn copy(&self) -> Option<Self> {
        None
    }
    /// cursor operations around key x against the model
    fn cursor(&self, _m: &Model, _x: u32, _how: usize) -> R {
        Ok(())
    }
    fn rank(&self, _k: &BKey) -> Option<Result<usize, usize>> {
        None
    }
    fn at(&mut self, _i: usize, _mutable: bool) -> Option<Option<u32>> {
        None
    }
    fn take(&mut self, _i: usize) -> Option<Option<(BKey, V)>> {
        None
    }
    /// the count of the summary
    fn count(&self) -> Option<usize> {
        None
    }
    fn merge(&self, _o: &Self, _each: &mut dyn FnMut(&mut dyn Iterator<Item = u32>) -> R) -> R {
        Ok(())
    }
    fn eat(self) -> Vec<(u32, V)>;
    /// some steps of consuming it, from both ends
    fn nibble(self, _n: &mut usize) {}
    /// entries from the end to the start
    fn back(&self) -> Option<Vec<u32>> {
        None
    }
    /// the values added up in the summary, and those of one entry
    fn total(&self) -> Option<u64> {
        None
    }
    const SUMS: bool = false;
}

fn cursor<A: Augmentation<BKey, BVal>>(t: &Tree<BKey, BVal, A>, m: &Model, x: u32, how: usize) -> R {
    let k = BKey::of(x);
    let key = |c: Option<Cursor<BKey>>| c.map(|c| c.key().ix());
    let c = match how {
        0 => {
            let c = Cursor::first(t);
            ensure!(key(c.map(|c| c.0)) == m.first(), "first cursor");
            return Ok(());
        }
        1 => {
            let c = Cursor::last(t);
            ensure!(key(c.map(|c| c.0)) == m.last(), "last cursor");
            return Ok(());
        }
        _ => match t.get_cursor(&k) {
            Some((c, v)) => {
                ensure!(
                    match (v, m.get(x)) {
                        (Some(v), Some(w)) => v.is(w),
                        (None, None) => true,
                        _ => false,
                    },
                    "get_cursor({x}) gave {v:?}"
                );
                c
            }
            None => {
                ensure!(m.is_empty(), "get_cursor({x}) gave nothing");
                return Ok(());
            }
        },
    };
    let same = |v: Option<&BVal>| match (v, m.get(x)) {
        (Some(v), Some(w)) => v.is(w),
        (None, None) => true,
        _ => false,
    };
    match how {
        2 => {
            let n = key(c.next(t));
            ensure!(n == m.succ(x), "the entry after {x} is {n:?}, should be {:?}", m.succ(x));
        }
        3 => {
            let n = key(c.prev(t));
            ensure!(n == m.pred(x), "the entry before {x} is {n:?}, should be {:?}", m.pred(x));
        }
        4 => ensure!(c.exists(t) == m.get(x).is_some(), "exists({x}) is wrong"),
        _ => ensure!(same(c.value(t)), "value of the cursor at {x} is wrong"),
    }
    Ok(())
}

impl Ext<BVal> for Tree<BKey, BVal> {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn cursor(&self, m: &Model, x: u32, how: usize) -> R {
        cursor(self, m, x, how)
    }
    fn eat(self) -> Vec<(u32, BVal)> {
        self.into_iter().map(|(k, v)| (k.ix(), v)).collect()
    }
    fn nibble(self, n: &mut usize) {
        nibble(self.into_iter(), n)
    }
}
fn nibble<T>(mut i: impl DoubleEndedIterator<Item = T>, n: &mut usize) {
    for j in 0..*n {
        match j % 3 {
            0 => drop(i.next_back()),
            _ => drop(i.next()),
        }
    }
}
macro_rules! counted {
    ($($x:tt)*) => {
        fn rank(&self, k: &BKey) -> Option<Result<usize, usize>> {
            Some(self.rank_by_augmentation(k))
        }
        fn at(&mut self, i: usize, mutable: bool) -> Option<Option<u32>> {
            if mutable {
                Some(self.get_mut_by_augmentation(i).map(|v| v.v as u32))
            } else {
                Some(self.get_by_augmentation(i).map(|(k, _)| k.ix()))
            }
        }
        fn take(&mut self, i: usize) -> Option<Option<(BKey, BVal)>> {
            Some(self.remove_by_augmentation(i))
        }
        fn count(&self) -> Option<usize> {
            Some(self.root_augmentation().count())
        }
        $($x)*
    };
}
impl Ext<BVal> for Tree<BKey, BVal, Count> {
    counted! {
        fn copy(&self) -> Option<Self> {
            Some(self.clone())
        }
        fn cursor(&self, m: &Model, x: u32, how: usize) -> R {
            cursor(self, m, x, how)
        }
        fn eat(self) -> Vec<(u32, BVal)> {
            self.into_iter().map(|(k, v)| (k.ix(), v)).collect()
        }
        fn nibble(self, n: &mut usize) {
            nibble(self.into_iter(), n)
        }
    }
}
impl Ext<BVal> for BPlusTreeMap<BKey, BVal, Count> {
    counted! {
        fn eat(self) -> Vec<(u32, BVal)> {
            vec![]
        }
    }
}
impl Ext<BVal> for Tree<BKey, BVal, BSum> {
    counted! {
        const SUMS: bool = true;
        fn total(&self) -> Option<u64> {
            Some(self.root_augmentation().v)
        }
        fn copy(&self) -> Option<Self> {
            Some(self.clone())
        }
        fn cursor(&self, m: &Model, x: u32, how: usize) -> R {
            cursor(self, m, x, how)
        }
        fn eat(self) -> Vec<(u32, BVal)> {
            self.into_iter().map(|(k, v)| (k.ix(), v)).collect()
        }
        fn nibble(self, n: &mut usize) {
            nibble(self.into_iter(), n)
        }
        fn back(&self) -> Option<Vec<u32>> {
            Some(self.iter().rev().map(|x| x.0.ix()).collect())
        }
    }
}
impl Ext<BVal> for BPlusTreeMap<BKey, BVal, BSum> {
    counted! {
        const SUMS: bool = true;
        fn total(&self) -> Option<u64> {
            Some(self.root_augmentation().v)
        }
        fn eat(self) -> Vec<(u32, BVal)> {
            vec![]
        }
        fn back(&self) -> Option<Vec<u32>> {
            Some(self.iter().rev().map(|x| x.0.ix()).collect())
        }
    }
}
impl Ext<BVal> for BPlusTreeMap<BKey, BVal> {
    fn eat(self) -> Vec<(u32, BVal)> {
        vec![]
    }
}
impl Ext<()> for BPlusTreeSet<BKey> {
    fn merge(&self, o: &Self, each: &mut dyn FnMut(&mut dyn Iterator<Item = u32>) -> R) -> R {
        each(&mut self.union(o).map(|k| k.ix()))
    }
    fn eat(self) -> Vec<(u32, ())> {
        self.into_iter().map(|k| (k.ix(), ())).collect()
    }
    fn nibble(self, n: &mut usize) {
        nibble(self.into_iter(), n)
    }
}

/// the number a value stands for
trait Vid {
    fn vid(&self) -> u64;
}
impl Vid for BVal {
    fn vid(&self) -> u64 {
        self.v
    }
}
impl Vid for () {
    fn vid(&self) -> u64 {
        0
    }
}

struct S<V, D> {
    core: Core<BKey, V, D>,
    /// which user calls may panic in the current bombing
    mask: u32,
    bombing: bool,
    blasts: u64,
    late: bool,
    in_build: bool,
    in_remove: bool,
    sums: u64,
    drops: u64,
}

impl<V: TVal + Vid, D: Ext<V>> S<V, D> {
    fn sane() -> R {
        if let Some(e) = tok::error() {
            return Err(e);
        }
        ensure!(!BAD.with(|b| b.get()), "a key or value that is not alive was used");
        Ok(())
    }
    /// contents and length exactly as the model says, without user calls that panic
    fn intact(&mut self, m: &Model, full: bool) -> R {
        Self::sane()?;
        self.core.len(m.len())?;
        if let Some(c) = self.core.d.count() {
            ensure!(c == m.len(), "the summary counts {c} of {} entries", m.len());
        }
        if !full {
            return Ok(());
        }
        let want = m.entries();
        if let Some(c) = self.core.d.total() {
            let total = want.iter().fold(0u64, |s, x| s.wrapping_add(x.1));
            ensure!(c == total, "the summary of the values is {c} where recomputing it gives {total}");
        }
        let mut i = 0;
        let mut bad = None;
        self.core.d.walk(&mut |k, v| {
            let ok = i < want.len() && want[i].0 == k.ix() && v.is(want[i].1);
            if !ok {
                bad = Some(format!("entry {i} is now {k:?} {v:?}, should be {:?}", want.get(i)));
            }
            i += 1;
            ok
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(i == want.len(), "there are {i} entries now, should be {}", want.len());
        Ok(())
    }
    /// Run `f` with the fuse one call later each time until it gets through.
    fn blast(&mut self, m: &Model, what: &str, f: &mut dyn FnMut(&mut Self) -> R) -> R {
        let mut after = 0;
        loop {
            FUSE.with(|c| c.set((self.mask, after, false)));
            let r = catch_unwind(AssertUnwindSafe(|| f(self)));
            let fired = off();
            match r {
                Ok(r) => {
                    // getting through although the fuse went off would be odd: then the result counts
                    r.map_err(|e| format!("{e} (after {after} panics in {what})"))?;
                    return Self::sane();
                }
                Err(_) if !fired => return Err(runner::last_panic()),
                Err(_) => {}
            }
            self.blasts += 1;
            self.late |= after >= 4;
            let full = m.len() < 300 || after % 8 == 3 || after < 2;
            self.intact(m, full)
                .map_err(|e| format!("{e} (after a panic in user call {} of {what})", after + 1))?;
            after = if after < 40 { after + 1 } else { after + after / 3 };
        }
    }
    /// What a panic in summary code leaves: some of the entries there were, in
    /// order, in a collection that can be used.
    fn salvage(&mut self, old: &Model, new: Option<(u32, u64)>, rng: &mut Rng) -> R {
        for round in 0..3 {
            Self::sane()?;
            let mut left = vec![];
            let mut bad = None;
            let mut total = 0u64;
            self.core.d.walk(&mut |k, v| {
                let x = k.ix();
                total = total.wrapping_add(v.vid());
                let known = old.get(x).map_or(false, |w| v.is(w)) || new.map_or(false, |(y, w)| x == y && v.is(w));
                if round == 0 && !known || left.last().map_or(false, |l| *l >= x) {
                    bad = Some(format!("{k:?} {v:?} follows {:?}", left.last()));
                }
                left.push(x);
                bad.is_none() && left.len() < old.dom() + 9
            });
            if let Some(b) = bad {
                return Err(b);
            }
            self.core.len(left.len())?;
            if let Some(c) = self.core.d.count() {
                ensure!(c == left.len(), "the summary counts {c} of {} entries", left.len());
            }
            if let Some(c) = self.core.d.total() {
                ensure!(c == total, "the summary of the values is {c} where recomputing it gives {total}");
            }
            let (f, l) = (self.core.d.first().map(|x| x.0.ix()), self.core.d.last().map(|x| x.0.ix()));
            ensure!(f.as_ref() == left.first() && l.as_ref() == left.last(), "the ends are {f:?} and {l:?}");
            if let Some(mut b) = self.core.d.back() {
                b.reverse();
                ensure!(b == left, "backwards it has other entries");
            }
            for x in &left {
                ensure!(self.core.d.get(&BKey::of(*x)).is_some(), "entry {x} is not found");
            }
            match round {
                0 => {
                    for i in 0..rng.below(120) {
                        let x = rng.below(old.dom()) as u32;
                        let there = left.binary_search(&x).is_ok();
                        let k = BKey::of(x);
                        ensure!(self.core.d.get(&k).is_some() == there, "lookup of {x} before change {i}");
                        if rng.bool() {
                            ensure!(self.core.d.insert(k, V::of(0)).is_some() == there, "insertion of {x}");
                            if let Err(at) = left.binary_search(&x) {
                                left.insert(at, x);
                            }
                        } else {
                            ensure!(self.core.d.remove(&k).is_some() == there, "removal of {x}");
                            left.retain(|y| *y != x);
                        }
                    }
                }
                1 => {
                    for x in left {
                        ensure!(self.core.d.remove(&BKey::of(x)).is_some(), "removal of {x}");
                    }
                }
                _ => {}
            }
        }
        Self::sane()
    }
    fn bulk(items: Vec<(BKey, V)>, mode: usize) -> D {
        D::bulk(items, mode)
    }
}

impl<V: TVal + Vid, D: Ext<V>> Sink for S<V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        if !self.bombing {
            return self.core.insert(m, x, vid);
        }
        self.blast(m, "insert", &mut |s| s.core.insert(m, x, vid))
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        if !self.bombing {
            return self.core.remove(m, x);
        }
        self.in_remove = true;
        self.blast(m, "remove", &mut |s| s.core.remove(m, x))
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        if D::SUMS {
            // a value edited in place does not get into the summaries
            return self.insert(m, x, vid);
        }
        if !self.bombing {
            return self.core.touch(m, x, vid);
        }
        self.blast(m, "get_mut", &mut |s| s.core.touch(m, x, vid))
    }
    fn clear(&mut self, m: &Model) -> R {
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        if !self.bombing {
            return self.core.rebuild(m, mode);
        }
        // the new collection is made while the old one is looked after
        self.in_build = true;
        self.blast(m, "building", &mut |s| {
            let was = FUSE.with(|f| f.replace((0, 0, false)));
            let items: Vec<(BKey, V)> = m.entries().into_iter().map(|(x, v)| (BKey::of(x), V::of(v))).collect();
            FUSE.with(|f| f.set(was));
            let d = Self::bulk(items, mode);
            off();
            s.core.d = d;
            s.core.len(m.len())
        })
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        let x = Hist::interesting(m, last, rng);
        let how = rng.below(14);
        let was = self.mask;
        self.mask = rng.pick(&[CMP, COPY, CMP | COPY]) | if D::SUMS && rng.bool() { SUM } else { 0 };
        let i = rng.below(m.len() + 2);
        let r = self.blast(m, "a read", &mut |s| match how {
            0..=3 => s.core.read(m, x, how),
            4..=9 => s.core.d.cursor(m, x, how - 4),
            10 => {
                if let Some(r) = s.core.d.rank(&BKey::of(x)) {
                    let want = m.rank(x);
                    let want = if m.get(x).is_some() { Ok(want) } else { Err(want) };
                    ensure!(r == want, "rank of {x} is {r:?}, should be {want:?}");
                }
                Ok(())
            }
            11 | 12 => {
                if let Some(r) = s.core.d.at(i, how == 12) {
                    let want = m.select(i).map(|x| if how == 12 { m.get(x).unwrap() as u32 } else { x });
                    ensure!(r == want, "position {i} gives {r:?}, should be {want:?}");
                }
                Ok(())
            }
            _ => s.core.ends(m),
        });
        self.mask = was;
        r
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.intact(m, true)?;
        self.core.check(m, rng)?;
        Self::sane()
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        self.mask = [CMP, COPY, CMP | COPY, COPY][o.ua() % 4];
        if D::SUMS && matches!(o.c, SP2 | SP3) && o.ua() % 3 != 0 {
            self.mask |= SUM;
        }
        let r = self.explode(h, o);
        self.bombing = false;
        r
    }
}

impl<V: TVal + Vid, D: Ext<V>> S<V, D> {
    fn explode(&mut self, h: &mut Hist, o: &Op) -> R {
        let n = h.m.len();
        let runs = o.ub() % 90 + 1;
        self.bombing = true;
        match o.c {
            // a run of neighbouring insertions, removals, or both: crosses splits and merges
            SP0 => {
                let start = h.rng.below(h.m.dom());
                let mut x = start;
                for i in 0..runs {
                    match o.ud() % 4 {
                        0 => h.insert(self, x as u32)?,
                        1 => {
                            if let Some(y) = h.m.select(start.min(h.m.len().max(1) - 1)) {
                                h.remove(self, y)?
                            }
                        }
                        2 => h.remove(self, x as u32)?,
                        _ => {
                            if i % 2 == 0 {
                                h.insert(self, x as u32)?
                            } else {
                                h.touch_or_insert(self, x as u32)?
                            }
                        }
                    }
                    x = (x + 1 + o.ud() % 2) % h.m.dom();
                }
                Ok(())
            }
            // by position
            SP1 => {
                for _ in 0..runs {
                    let len = h.m.len();
                    let i = match o.ud() % 3 {
                        0 => 0,
                        1 => h.rng.below(len + 1),
                        _ => len.saturating_sub(1),
                    };
                    let want = h.m.select(i);
                    let mut out = None;
                    let m = h.m.clone();
                    self.in_remove = true;
                    self.blast(&m, "removal by position", &mut |s| {
                        out = s.core.d.take(i);
                        Ok(())
                    })?;
                    match (out, want) {
                        (None, _) => return Ok(()),
                        (Some(None), None) => {}
                        (Some(Some((k, v))), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => {
                            h.m.remove(x);
                        }
                        (g, w) => return Err(format!("removing position {i} gave {g:?}, should be key {w:?}")),
                    }
                }
                Ok(())
            }
            // copies
            SP2 => {
                let m = h.m.clone();
                let mut copy = None;
                self.in_build = true;
                self.blast(&m, "clone", &mut |s| {
                    copy = s.core.d.copy();
                    Ok(())
                })?;
                if let Some(mut c) = copy {
                    std::mem::swap(&mut self.core.d, &mut c);
                    self.intact(&m, true).map_err(|e| format!("the copy: {e}"))?;
                    if o.ud() % 2 == 0 {
                        let items = c.eat();
                        ensure!(items.len() == n || items.is_empty(), "the original gave {} of {n}", items.len());
                    }
                }
                Self::sane()
            }
            // built from unsorted input with repetitions, in the presence of the old one
            SP3 => {
                let dom = h.m.dom();
                let mut m = Model::new(dom);
                let k = o.ub() % (dom * 2 + 2);
                let mut xs: Vec<(u32, u64)> =
                    (0..k).map(|_| h.rng.below(dom) as u32).collect::<Vec<_>>().into_iter().map(|x| (x, h.next_vid())).collect();
                // the tree loads sorted input
                xs.sort_by_key(|x| x.0);
                for (x, v) in &xs {
                    m.set(*x, *v);
                }
                let mut made = None;
                let old = h.m.clone();
                self.in_build = true;
                self.blast(&old, "building", &mut |_| {
                    let was = FUSE.with(|f| f.replace((0, 0, false)));
                    let mut items: Vec<(BKey, V)> = xs.iter().map(|(x, v)| (BKey::of(*x), V::of(*v))).collect();
                    scramble(&mut items[..0], 0);
                    FUSE.with(|f| f.set(was));
                    made = Some(D::bulk(items, 0));
                    Ok(())
                })?;
                self.core.d = made.unwrap();
                h.m = m;
                h.max_n = h.max_n.max(h.m.len());
                let m = h.m.clone();
                self.intact(&m, true)
            }
            // panics in summary code, half way through changes
            SP5 => {
                self.bombing = false;
                for _ in 0..if D::SUMS { o.ub() % 6 + 1 } else { 0 } {
                    // up to some place where nodes are to be split or merged
                    let at = h.rng.below(h.m.len() + 1);
                    let dom = h.m.dom();
                    let mut x = h.rng.below(dom) as u32;
                    for _ in 0..h.rng.below(90) {
                        if o.ud() % 2 == 0 {
                            let Some(y) = h.m.select(at.min(h.m.len().max(1) - 1)) else { break };
                            h.remove(self, y)?;
                        } else {
                            h.insert(self, x)?;
                            x = (x + 1) % dom as u32;
                        }
                    }
                    let m = h.m.clone();
                    let i = at.min(m.len().max(1) - 1);
                    let y = m.select(i);
                    let vid = h.next_vid();
                    let how = h.rng.below(4);
                    let after = h.rng.below(9);
                    FUSE.with(|c| c.set((SUM, after, false)));
                    let r = catch_unwind(AssertUnwindSafe(|| match (how, y) {
                        (0, Some(y)) => self.core.remove(&m, y),
                        (1, Some(_)) => {
                            self.core.d.take(i);
                            Ok(())
                        }
                        (2, Some(y)) => self.core.insert(&m, y, vid),
                        _ => self.core.insert(&m, x, vid),
                    }));
                    let fired = off();
                    let what = ["remove", "removal by position", "overwrite", "insert"][how];
                    match r {
                        Err(_) if !fired => return Err(runner::last_panic()),
                        Ok(r) => {
                            r?;
                            match (how, y) {
                                (0 | 1, Some(y)) => {
                                    h.m.remove(y);
                                }
                                (2, Some(y)) => {
                                    h.m.set(y, vid);
                                }
                                _ => {
                                    h.m.set(x, vid);
                                }
                            }
                            h.max_n = h.max_n.max(h.m.len());
                        }
                        Err(_) => {
                            self.sums += 1;
                            let new = match (how, y) {
                                (0 | 1, Some(_)) => None,
                                (2, Some(y)) => Some((y, vid)),
                                _ => Some((x, vid)),
                            };
                            self.salvage(&m, new, &mut h.rng)
                                .map_err(|e| format!("{e} (after a panic in summary call {} of {what})", after + 1))?;
                            // back to where it was
                            let items: Vec<(BKey, V)> = m.entries().into_iter().map(|(x, v)| (BKey::of(x), V::of(v))).collect();
                            self.core.d = Self::bulk(items, 0);
                        }
                    }
                }
                Self::sane()
            }
            // panics while something is released
            SP6 => {
                self.bombing = false;
                for _ in 0..o.ub() % 6 + 1 {
                    let at = h.rng.below(h.m.len() + 1);
                    let dom = h.m.dom();
                    let mut x = h.rng.below(dom) as u32;
                    for _ in 0..h.rng.below(90) {
                        if o.ud() % 2 == 0 {
                            let Some(y) = h.m.select(at.min(h.m.len().max(1) - 1)) else { break };
                            h.remove(self, y)?;
                        } else {
                            h.insert(self, x)?;
                            x = (x + 1) % dom as u32;
                        }
                    }
                    let m = h.m.clone();
                    let i = at.min(m.len().max(1) - 1);
                    let y = m.select(i);
                    let vid = h.next_vid();
                    let how = h.rng.below(12);
                    let after = match how {
                        0..=7 => h.rng.below(7),
                        _ if h.rng.bool() => h.rng.below(7),
                        _ => h.rng.below(m.len() * 5 / 2 + 9),
                    };
                    let items: Vec<(BKey, V)> =
                        m.entries().into_iter().flat_map(|e| [e, e]).map(|(x, v)| (BKey::of(x), V::of(v))).collect();
                    let mut n = h.rng.below(m.len() + 2);
                    let d = &mut self.core.d;
                    FUSE.with(|c| c.set((DROP, after, false)));
                    let r = catch_unwind(AssertUnwindSafe(|| match (how, y) {
                        (0 | 1, Some(y)) => drop(d.remove(&BKey::of(y))),
                        (2 | 3, Some(_)) => drop(d.take(i)),
                        (4 | 5, Some(y)) => drop(d.insert(BKey::of(y), V::of(vid))),
                        (8, _) => drop(std::mem::replace(d, D::new())),
                        (9, _) => std::mem::replace(d, D::new()).nibble(&mut n),
                        (10, _) => d.clear(),
                        (11, _) => *d = D::bulk(items, after),
                        _ => drop(d.insert(BKey::of(x), V::of(vid))),
                    }));
                    let fired = off();
                    const WHAT: [&str; 8] = ["remove", "removal by position", "overwrite", "insert", "drop", "consuming", "clear", "building"];
                    let what = WHAT[if how < 8 { how / 2 } else { how - 4 }];
                    if r.is_err() && !fired {
                        return Err(runner::last_panic());
                    }
                    self.drops += fired as u64;
                    let new = match (how, y) {
                        (4 | 5, Some(y)) => Some((y, vid)),
                        (0..=3 | 8..=11, Some(_)) => None,
                        _ => Some((x, vid)),
                    };
                    self.salvage(&m, new, &mut h.rng)
                        .map_err(|e| format!("{e} (after a panic in release {} of {what})", after + 1))?;
                    let items: Vec<(BKey, V)> = m.entries().into_iter().map(|(x, v)| (BKey::of(x), V::of(v))).collect();
                    self.core.d = Self::bulk(items, 0);
                }
                Self::sane()
            }
            // union
            _ => {
                let mut other = D::new();
                let mut om = Model::new(h.m.dom());
                for _ in 0..o.ub() % 200 {
                    let x = h.rng.below(h.m.dom()) as u32;
                    om.set(x, 0);
                    other.insert(BKey::of(x), V::of(0));
                }
                let mut want: Vec<u32> = h.m.entries().iter().chain(&om.entries()).map(|x| x.0).collect();
                want.sort();
                want.dedup();
                let m = h.m.clone();
                let other = &other;
                let want = &want;
                let mut stage = 0;
                self.blast(&m, "union", &mut |s| {
                    s.core.d.merge(other, &mut |it| {
                        stage += 1;
                        // a panic in the middle, the rest is taken all the same
                        let was = FUSE.with(|f| f.get());
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut i = 0;
                            for x in &mut *it {
                                ensure!(want.get(i) == Some(&x), "union entry {i} is {x}");
                                i += 1;
                            }
                            ensure!(i == want.len(), "the union has {i} of {} entries", want.len());
                            Ok(())
                        }));
                        let _ = was;
                        match r {
                            Ok(r) => r,
                            Err(p) => {
                                for x in it.take(50) {
                                    std::hint::black_box(x);
                                }
                                std::panic::resume_unwind(p)
                            }
                        }
                    })
                })
            }
        }
    }
}

trait More {
    fn touch_or_insert<S: Sink>(&mut self, s: &mut S, x: u32) -> R;
}
impl More for Hist {
    fn touch_or_insert<S: Sink>(&mut self, s: &mut S, x: u32) -> R {
        if self.m.get(x).is_some() {
            self.touch(s, x)
        } else {
            self.insert(s, x)
        }
    }
}

fn go<V: TVal + Vid, D: Ext<V>>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    off();
    BAD.with(|b| b.set(false));
    let mut s: S<V, D> = S {
        core: Core::new(D::new()),
        mask: CMP,
        bombing: false,
        blasts: 0,
        late: false,
        in_build: false,
        in_remove: false,
        sums: 0,
        drops: 0,
    };
    let h = run_hist(case, &mut s, cx)?;
    S::<V, D>::sane()?;
    let (blasts, late, b, r, sums, drops) = (s.blasts, s.late, s.in_build, s.in_remove, s.sums, s.drops);
    // consumed or dropped: no entry is missing after all those panics
    let want = h.m.entries();
    if case.param(1) % 2 == 0 {
        let d = std::mem::replace(&mut s.core.d, D::new());
        let items = d.eat();
        if !items.is_empty() {
            ensure!(
                items.len() == want.len() && items.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1.is(b.1)),
                "consuming the collection does not give its contents"
            );
        }
    }
    drop(s);
    if let Some(e) = tok::error() {
        return Err(e);
    }
    if late {
        cx.label("panic in the 5th or a later user call");
    }
    if b && blasts > 0 {
        cx.label("panics while building or cloning");
    }
    if r && blasts > 0 {
        cx.label("panics in removals");
    }
    if sums > 0 {
        cx.label("panics in summary code during changes");
    }
    if drops > 0 {
        cx.label("panics while something was released");
    }
    if blasts + sums + drops > 0 && h.max_n > 64 {
        cx.nontrivial();
    }
    cx.steps += blasts;
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C12";
    const RULE: &'static str = "Histories over five size classes on tree, map and set, with and without the counting summary; in bombed stretches every operation (insert, overwrite, remove by key and by position, get, get_mut, cursor steps, rank, position lookups, union, clone, bulk build) is repeated with the panic moved to the 1st, 2nd, 3rd ... key comparison and/or copy until it gets through; after each caught panic length, summary and (mostly) all contents must be as before, tokens must be alive and released once. Panics in summary code half way through a change may cost entries: what is left must be some of the entries, in order both ways, found by lookups, in a collection that takes further changes; the same where a key, value or summary panics while it is released in an insertion, overwrite, removal, clear, drop, consumption or bulk build. Non-trivial: more than one leaf (>64 entries) and at least one panic raised inside the library.";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        match profile {
            "miri" => vec![stage("mini", if tier == Tier::Thorough { 600 } else { 24 })],
            _ => classes(tier, 3000, 1600, 1200, 300, 80, 0),
        }
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        let g = HistGen {
            variants: 9,
            specials: &[(SP0, 20), (SP1, 8), (SP2, 4), (SP3, 4), (SP4, 4), (SP5, 12), (SP6, 8)],
            densities: &[0, 2, 8],
            ..HistGen::default()
        };
        if st != "mini" {
            return gen_hist(rng, st, &g);
        }
        let n = rng.range(1, 140);
        let dom = n + rng.range(2, 40);
        let mut ops = vec![op(INS, 0, n, 2)];
        for _ in 0..rng.range(1, 3) {
            let c = rng.pick(&[SP0, SP0, SP0, SP1, SP2, SP3, SP4, SP5, SP5, SP6, SP6, DEL, BLD]);
            ops.push(if c == DEL {
                op(DEL, rng.below(n), rng.range(1, 60), 0)
            } else if c == BLD {
                op(BLD, 0, 0, rng.below(8))
            } else {
                op(c, rng.below(4), rng.range(1, 6), rng.below(100))
            });
        }
        ops.push(op(CHK, 0, 0, 0));
        Case { stage: st.into(), params: vec![dom as i64, (rng.next() >> 1) as i64, 4, rng.below(9) as i64], ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<BVal, Tree<BKey, BVal>>(case, cx),
            1 | 2 => go::<BVal, Tree<BKey, BVal, Count>>(case, cx),
            3 => go::<BVal, BPlusTreeMap<BKey, BVal, Count>>(case, cx),
            4 => go::<BVal, BPlusTreeMap<BKey, BVal>>(case, cx),
            5 | 6 => go::<BVal, Tree<BKey, BVal, BSum>>(case, cx),
            7 => go::<BVal, BPlusTreeMap<BKey, BVal, BSum>>(case, cx),
            _ => go::<(), BPlusTreeSet<BKey>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
