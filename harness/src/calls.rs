//! Lists of calls on trees, maps and sets, each of them measured (C26, C27).

use crate::case::*;
use crate::kinds::*;
use crate::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

/// the most any call used of what is measured
pub struct Meter {
    pub measure: fn(&mut dyn FnMut()) -> usize,
    /// of what a call that is given a sequence or makes one may use more, for
    /// each byte of it
    pub per_byte: usize,
    pub bound: usize,
    pub most: usize,
    pub what: &'static str,
    pub unit: &'static str,
    pub n: usize,
    pub calls: u64,
}
impl Meter {
    fn measured<T>(&mut self, what: &'static str, free: usize, f: &mut dyn FnMut() -> T) -> T {
        let mut out = None;
        let d = (self.measure)(&mut || {
            out = Some(f());
        });
        let d = d.saturating_sub(free.saturating_mul(self.per_byte));
        self.calls += 1;
        if d > self.most {
            self.most = d;
            self.what = what;
        }
        out.unwrap()
    }
    pub fn call<T>(&mut self, what: &'static str, mut f: impl FnMut() -> T) -> T {
        self.measured(what, 0, &mut f)
    }
    /// the same for something that is used up
    pub fn once<T, U>(&mut self, what: &'static str, x: T, f: impl FnOnce(T) -> U) -> U {
        self.build(what, 0, x, f)
    }
    /// the same for a call about a sequence of so many bytes
    pub fn build<T, U>(&mut self, what: &'static str, bytes: usize, x: T, f: impl FnOnce(T) -> U) -> U {
        let mut a = Some((x, f));
        self.measured(what, bytes, &mut || {
            let (x, f) = a.take().unwrap();
            f(x)
        })
    }
    pub fn check(&self) -> R {
        ensure!(
            self.most <= self.bound,
            "{} used {} {} with {} entries, allowed are {}",
            self.what,
            self.most,
            self.unit,
            self.n,
            self.bound
        );
        Ok(())
    }
}

fn bytes<T>(v: &[T]) -> usize {
    std::mem::size_of_val(v)
}

struct Edge(bool);
impl<K, V, A> DescendVisit<K, V, A> for Edge {
    type Result = usize;
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<usize> {
        DescendVisitResult::GoDown(if self.0 { 0 } else { a.len() - 1 })
    }
    fn visit_leaf(&mut self, keys: &[K], _: &[V]) -> Option<usize> {
        Some(keys.len())
    }
}

/// what size and shape: n entries after `cut` of every ten were taken out again
fn entries<K: TKey, V: TVal>(n: usize) -> Vec<(K, V)> {
    (0..n).map(|x| (K::of(2 * x as u32), V::of(x as u64))).collect()
}

fn iterate<T, I: DoubleEndedIterator<Item = T>>(me: &mut Meter, i: impl Fn() -> I, rng: &mut Rng, n: usize) {
    let a = rng.below(n + 2);
    match rng.below(9) {
        0 => drop(me.call("counting an iteration", || i().count())),
        1 => drop(me.call("the last of an iteration", || i().last().is_some())),
        2 => drop(me.call("nth of an iteration", || i().nth(a).is_some())),
        3 => drop(me.call("nth_back of an iteration", || i().nth_back(a).is_some())),
        4 => drop(me.call("folding backwards", || i().rev().count())),
        5 => drop(me.call("a fold", || i().fold(0usize, |s, _| s + 1))),
        6 => drop(me.build("collecting an iteration", n * size_of::<T>(), (), |_| i().collect::<Vec<_>>().len())),
        7 => drop(me.call("steps from both ends", || {
            let mut i = i();
            let mut k = 0;
            while i.next().is_some() && i.next_back().is_some() {
                k += 1;
            }
            k
        })),
        _ => drop(me.call("skipping", || i().skip(a).step_by(3).count())),
    }
}

fn eat<T>(me: &mut Meter, mut i: impl DoubleEndedIterator<Item = T>, rng: &mut Rng, n: usize) {
    let a = rng.below(n + 2);
    match rng.below(6) {
        0 => drop(me.once("consuming from the front", i, |i| i.count())),
        1 => drop(me.once("consuming from the back", i, |i| i.rev().count())),
        2 => drop(me.once("dropping an owning iterator", i, drop)),
        3 => {
            me.call("nth of an owning iterator", || drop(i.nth(a)));
            me.once("dropping the rest of an owning iterator", i, drop)
        }
        4 => {
            me.call("nth_back of an owning iterator", || drop(i.nth_back(a)));
            me.once("dropping the rest of an owning iterator", i, drop)
        }
        _ => drop(me.once("last of an owning iterator", i, |i| i.last().is_some())),
    }
}

fn cursor<K: TKey, V: TVal, A: Augmentation<K, V>>(me: &mut Meter, t: &Tree<K, V, A>, k: &K, rng: &mut Rng) {
    let Some((mut c, _)) = me.call("get_cursor", || t.get_cursor(k)) else { return };
    for _ in 0..rng.range(1, 200) {
        let back = rng.pct(30);
        let n = if back { me.call("prev", || c.prev(t)) } else { me.call("next", || c.next(t)) };
        me.call("value of a cursor", || c.value(t).is_some());
        c = match n {
            Some(c) => c,
            None => {
                let end = match rng.bool() {
                    true => me.call("Cursor::first", || Cursor::first(t)),
                    false => me.call("Cursor::last", || Cursor::last(t)),
                };
                match end {
                    Some((c, _)) => c,
                    None => return,
                }
            }
        };
    }
}

macro_rules! common {
    ($me:ident, $t:ident, $o:ident, $rng:ident, $n:ident, $K:ty, $V:ty) => {{
        let x = match $rng.below(4) {
            0 => $rng.below(4),
            1 => (2 * $n).saturating_sub($rng.below(4)),
            _ => $rng.below(2 * $n + 2),
        } as u32;
        let run = $o.ub() % 300;
        let k = <$K>::of(x);
        match $o.ua() % 6 {
            0 => {
                for i in 0..run {
                    let (k, v) = (<$K>::of(x + i as u32), <$V>::of(i as u64));
                    $me.once("insert", (k, v), |(k, v)| drop($t.insert(k, v)));
                }
            }
            1 => {
                for i in 0..run {
                    let k = <$K>::of(x + i as u32);
                    $me.call("remove", || drop($t.remove::<$K>(&k)));
                }
            }
            2 => drop($me.call("get", || $t.get::<$K>(&k).is_some())),
            3 => drop($me.call("get_mut", || $t.get_mut::<$K>(&k).is_some())),
            _ => iterate($me, || $t.iter(), $rng, $n),
        }
        k
    }};
}
macro_rules! positions {
    ($me:ident, $t:ident, $o:ident, $rng:ident, $n:ident, $k:ident) => {{
        let i = $rng.below($n + 2);
        match $o.ua() % 5 {
            0 => drop($me.call("get_by_augmentation", || $t.get_by_augmentation(i).is_some())),
            1 => drop($me.call("get_mut_by_augmentation", || $t.get_mut_by_augmentation(i).is_some())),
            2 => drop($me.call("rank", || $t.rank_by_augmentation(&$k).is_ok())),
            3 => {
                for _ in 0..$o.ub() % 300 {
                    $me.call("remove_by_augmentation", || drop($t.remove_by_augmentation(i)));
                }
            }
            _ => drop($me.call("descend_visit", || $t.descend_visit(Edge(i % 2 == 0)))),
        }
    }};
}

fn grown<K: TKey, V: TVal, A: Augmentation<K, V>>(me: &mut Meter, n: usize, how: usize) -> Tree<K, V, A> {
    let items = entries::<K, V>(n);
    match how % 3 {
        0 => me.build("bulk_load", bytes(&items), items, Tree::bulk_load),
        1 => {
            let mut t = Tree::new(Default::default());
            for (k, v) in items {
                t.insert(k, v);
            }
            t
        }
        // nodes as empty as they get
        _ => {
            let mut t = Tree::bulk_load(entries::<K, V>(n * 4));
            for x in 0..4 * n as u32 {
                if x % 4 != 1 {
                    t.remove::<K>(&K::of(2 * x));
                }
            }
            t
        }
    }
}

pub fn tree<K: TKey, V: TVal>(case: &Case, me: &mut Meter) -> R {
    let n = case.param(2) as usize;
    let mut t: Tree<K, V, Count> = grown(me, n, case.param(3) as usize);
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        me.n = t.len();
        let n = t.len();
        match o.c {
            SP0 => {
                common!(me, t, o, r, n, K, V);
            }
            SP1 => {
                let k = K::of(r.below(2 * n + 2) as u32);
                positions!(me, t, o, r, n, k);
            }
            SP2 => {
                let k = K::of(r.below(2 * n + 2) as u32);
                cursor(me, &t, &k, r)
            }
            SP3 => {
                let mut c = me.call("clone", || t.clone());
                match o.ua() % 3 {
                    0 => eat(me, c.into_iter(), r, n),
                    1 => me.once("drop", c, drop),
                    _ => me.call("clear", || c.clear()),
                }
            }
            _ => {
                let old = std::mem::replace(&mut t, grown(me, n, o.ua()));
                me.once("drop", old, drop);
            }
        }
        me.check()?;
    }
    me.n = t.len();
    if case.param(1) % 2 == 0 {
        me.once("drop", t, drop);
    } else {
        let n = t.len();
        eat(me, t.into_iter(), &mut Rng::new(case.param(1) as u64), n);
    }
    me.check()
}

pub fn map<K: TKey, V: TVal>(case: &Case, me: &mut Meter) -> R {
    let n = case.param(2) as usize;
    let mut items = entries::<K, V>(n);
    if case.param(3) % 2 == 1 {
        crate::dict::scramble(&mut items, 3);
    }
    let mut t: BPlusTreeMap<K, V, Count> = me.build("collect", bytes(&items), items, |i| i.into_iter().collect());
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        me.n = t.len();
        let n = t.len();
        let k = common!(me, t, o, r, n, K, V);
        positions!(me, t, o, r, n, k);
        me.check()?;
    }
    me.once("drop", t, drop);
    me.check()
}

pub fn set<K: TKey>(case: &Case, me: &mut Meter) -> R {
    let n = case.param(2) as usize;
    let items = |from: usize| {
        let mut v: Vec<K> = (0..n).map(|x| K::of((from + 2 * x) as u32)).collect();
        if case.param(3) % 2 == 1 {
            crate::dict::scramble(&mut v, 3);
        }
        v
    };
    let mut t: BPlusTreeSet<K> = me.build("collect", n * size_of::<K>(), items(0), |i| i.into_iter().collect());
    let other: BPlusTreeSet<K> = items([0, 1, n, 2 * n + 1][case.param(3) as usize % 4]).into_iter().collect();
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        me.n = t.len();
        let n = t.len();
        let x = r.below(2 * n + 2) as u32;
        match o.ua() % 6 {
            0 => {
                for i in 0..o.ub() % 300 {
                    me.once("insert", K::of(x + i as u32), |k| drop(t.insert(k)));
                }
            }
            1 => {
                for i in 0..o.ub() % 300 {
                    let k = K::of(x + i as u32);
                    me.call("remove", || drop(t.remove::<K>(&k)));
                }
            }
            2 => drop(me.call("contains", || t.contains::<K>(&K::of(x)))),
            3 => iterate(me, || t.iter(), r, n),
            4 => drop(me.call("union", || t.union(&other).count())),
            _ => drop(me.call("union, the other way", || other.union(&t).map(|k| k.ix()).last())),
        }
        me.check()?;
    }
    let n = t.len();
    match case.param(1) % 3 {
        0 => me.once("drop", t, drop),
        1 => me.call("clear", || t.clear()),
        _ => {
            let i = t.into_iter().collect::<Vec<_>>();
            drop(i);
            let again: BPlusTreeSet<K> = items(0).into_iter().collect();
            let mut i = again.into_iter();
            me.call("nth of a consumed set", || drop(i.nth(n / 2)));
            me.once("dropping the rest of a consumed set", i, drop);
        }
    }
    me.check()
}

/// what size, what kind, which calls
pub fn gen(st: &str, rng: &mut Rng) -> Case {
    let n = match st {
        "small" => rng.below(400),
        "medium" => rng.range(400, 9000),
        "giant" => rng.range(2_271_000, 2_420_000),
        _ if rng.pct(10) => rng.range(120_000, 500_000),
        _ => rng.range(9000, 120_000),
    };
    let kind = if st == "giant" { rng.pick(&[0usize, 3, 4, 6]) } else { rng.below(8) };
    let params = vec![kind as i64, (rng.next() >> 1) as i64, n as i64, rng.below(12) as i64];
    let ops = (0..rng.range(4, 24))
        .map(|_| {
            let c = rng.pick(&[SP0, SP0, SP0, SP1, SP1, SP2, SP3, SP3, SP4]);
            op(c, rng.below(60), rng.below(300), rng.below(1 << 30))
        })
        .collect();
    Case { stage: st.into(), params, ops }
}

/// what the kind says, with the bound it has
pub fn run(case: &Case, me: &mut Meter, bound: impl Fn(usize, usize, usize) -> usize) -> R {
    fn sized<K, V>(me: &mut Meter, bound: impl Fn(usize, usize, usize) -> usize) {
        me.bound = bound(size_of::<K>(), size_of::<V>(), size_of::<usize>());
    }
    match case.param(0) {
        0 => {
            sized::<u32, u64>(me, bound);
            tree::<u32, u64>(case, me)
        }
        1 => {
            sized::<String, u64>(me, bound);
            tree::<String, u64>(case, me)
        }
        2 => {
            sized::<Wide, u64>(me, bound);
            tree::<Wide, u64>(case, me)
        }
        3 => {
            sized::<u32, ()>(me, bound);
            tree::<u32, ()>(case, me)
        }
        4 => {
            sized::<u32, u64>(me, bound);
            map::<u32, u64>(case, me)
        }
        5 => {
            sized::<String, String>(me, bound);
            map::<String, String>(case, me)
        }
        6 => {
            sized::<u32, ()>(me, bound);
            set::<u32>(case, me)
        }
        _ => {
            sized::<String, ()>(me, bound);
            set::<String>(case, me)
        }
    }
}
