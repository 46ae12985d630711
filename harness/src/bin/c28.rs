//! C28: what going through, building, copying, merging and releasing a whole
//! collection costs, and how often keys and values are copied.

use harness::count::{counts, CKey, CSum, CVal};
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::collections::BTreeMap;
use std::hint::black_box;
use std::time::Instant;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};

#[cfg(feature = "store")]
type T<A> = BPlusTree<harness::count::store::Counting<CVal, A>>;
#[cfg(not(feature = "store"))]
type T<A> = BPlusTree<sweep_bptree::NodeStoreVec<CKey, CVal, A>>;

const NAMES: [&str; 5] = ["comparisons of keys", "computations of summaries", "visits of nodes", "copies of keys", "copies of values"];

/// levels a tree of n entries may have, generously
fn levels(n: usize) -> u64 {
    let (mut l, mut need) = (1, 8usize);
    while n >= need {
        l += 1;
        need *= 16;
    }
    l
}
/// what every call may do
fn single(n: usize) -> [u64; 5] {
    let h = levels(n);
    [100 * h + 40, 6 * h + 12, 16 * h + 24, h + 4, 0]
}
/// and for each entry so many sixteenths more
fn also(n: usize, per: [u64; 5]) -> [u64; 5] {
    let s = single(n);
    std::array::from_fn(|i| s[i] + (per[i] * n as u64).div_ceil(16))
}
const PASS: [u64; 5] = [0, 0, 48, 0, 0];
const COPY: [u64; 5] = [0, 2, 16, 20, 0];
const LOAD: [u64; 5] = [64, 2, 32, 8, 0];
const MERGE: [u64; 5] = [64, 0, 0, 0, 0];

struct Meter {
    worst: [u64; 5],
    calls: u64,
}
impl Meter {
    fn call<R0>(&mut self, what: &str, n: usize, most: [u64; 5], f: impl FnOnce() -> R0) -> Result<R0, String> {
        let a = counts();
        let r = f();
        let b = counts();
        self.calls += 1;
        for i in 0..5 {
            let c = b[i] - a[i];
            if most[i] > 0 {
                self.worst[i] = self.worst[i].max(c * 1000 / most[i]);
            }
            ensure!(c <= most[i], "{what} made {c} {} with {n} entries (at most {} are accepted)", NAMES[i], most[i]);
        }
        Ok(r)
    }
    /// collecting sorts first
    fn sorted(n: usize) -> [u64; 5] {
        let mut l = also(n, LOAD);
        l[0] += 2 * n as u64 * (usize::BITS - n.leading_zeros()) as u64;
        l
    }
    fn pass<T>(&mut self, n: usize, i: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, how: usize, rng: &mut Rng) -> R {
        let a = rng.below(n + 2);
        let all = also(n, PASS);
        let mut i = i;
        let got = match how % 8 {
            0 => self.call("going through from the front", n, all, || i.count())?,
            1 => self.call("going through from the back", n, all, || i.rev().count())?,
            2 => self.call("going through from both ends", n, all, || {
                let mut k = 0;
                loop {
                    let (x, y) = (i.next().is_some(), i.next_back().is_some());
                    k += x as usize + y as usize;
                    if !x || !y {
                        return k;
                    }
                }
            })?,
            3 => {
                let x = self.call("nth", a, also(n.min(a), PASS), || i.nth(a).is_some())?;
                ensure!(x == (a < n), "nth({a}) of {n}");
                let rest = n.saturating_sub(a + 1);
                self.call("the rest", n, also(rest, PASS), || i.count())? + n - rest
            }
            4 => {
                let x = self.call("nth_back", a, also(n.min(a), PASS), || i.nth_back(a).is_some())?;
                ensure!(x == (a < n), "nth_back({a}) of {n}");
                n
            }
            5 => self.call("last", n, all, || i.last().map_or(0, |_| n))?,
            6 => self.call("a fold", n, all, || i.fold(0, |k, _| k + 1))?,
            _ => {
                self.call("some steps", n, single(n), || black_box((i.next().is_some(), i.len(), i.next_back().is_some(), i.next().is_some())))?;
                self.call("len", n, single(n), || i.len())?;
                n
            }
        };
        ensure!(got == n, "{got} of {n} entries");
        Ok(())
    }
    /// an owning iterator, which releases what is left
    fn eat<T>(&mut self, n: usize, i: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, how: usize, rng: &mut Rng) -> R {
        let a = rng.below(n + 2);
        let all = also(n, PASS);
        let mut i = i;
        match how % 4 {
            0 => {
                let got = self.call("consuming from the front", n, all, || i.count())?;
                ensure!(got == n, "{got} of {n} entries");
            }
            1 => {
                let got = self.call("consuming from the back", n, all, || i.rev().count())?;
                ensure!(got == n, "{got} of {n} entries");
            }
            2 => {
                self.call("nth of an owning iterator", n, also(n.min(a), PASS), || drop(i.nth(a)))?;
                self.call("giving up an owning iterator", n, all, || drop(i))?;
            }
            _ => {
                self.call("nth_back of an owning iterator", n, also(n.min(a), PASS), || drop(i.nth_back(a)))?;
                self.call("giving up an owning iterator", n, all, || drop(i))?;
            }
        }
        Ok(())
    }
}

/// keys are the even numbers
fn entries(n: usize) -> Vec<(CKey, CVal)> {
    (0..n).map(|x| (CKey(2 * x as u32), CVal(x as u64))).collect()
}

fn tree<A: Augmentation<CKey, CVal>>(case: &Case, me: &mut Meter) -> R {
    let make = |me: &mut Meter, n: usize, how: usize| -> Result<T<A>, String> {
        let n = n.clamp(0, 3_000_000);
        Ok(match how % 3 {
            0 => {
                let e = entries(n);
                me.call("bulk_load", n, also(n, LOAD), || T::<A>::bulk_load(e))?
            }
            1 => {
                let mut t: T<A> = BPlusTree::new(Default::default());
                for (k, v) in entries(n) {
                    t.insert(k, v);
                }
                t
            }
            // nodes as empty as they get
            _ => {
                let n = n.min(600_000);
                let mut t = T::<A>::bulk_load(entries(4 * n));
                for x in 0..4 * n as u32 {
                    if x % 4 != 1 {
                        t.remove(&CKey(2 * x));
                    }
                }
                t
            }
        })
    };
    let mut t = make(me, case.param(2) as usize, case.param(3) as usize)?;
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        let n = t.len();
        let x = (r.below(2 * n + 4)) as u32;
        let one = single(n + 1);
        match o.c {
            SP0 => me.pass(n, t.iter(), o.ua(), r)?,
            SP1 => {
                let mut copy = also(n, COPY);
                copy[4] = n as u64;
                let mut c = me.call("clone", n, copy, || t.clone())?;
                match o.ub() % 4 {
                    0 => me.eat(n, c.into_iter(), o.ua(), r)?,
                    1 => me.call("clear", n, also(n, PASS), || c.clear())?,
                    2 => me.call("drop", n, also(n, PASS), || drop(c))?,
                    _ => t = c,
                }
            }
            SP2 => {
                let old = std::mem::replace(&mut t, make(me, n, o.ua())?);
                me.call("drop", n, also(n, PASS), || drop(old))?;
            }
            // single calls
            SP3 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("insert", n, one, || drop(t.insert(k, CVal(1))))?;
                }
            }
            SP4 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("remove", n, one, || drop(t.remove(&k)))?;
                }
            }
            _ => {
                let k = CKey(x);
                me.call("get", n, one, || t.get(&k).is_some())?;
                me.call("get_mut", n, one, || t.get_mut(&k).is_some())?;
                me.call("first and last", n, one, || (t.first().is_some(), t.last().is_some()))?;
                let c = me.call("get_cursor", n, one, || t.get_cursor(&k).map(|c| c.0))?;
                if let Some(c) = c {
                    me.call("value of a cursor", n, one, || c.value(&t).is_some())?;
                    me.call("next of a cursor", n, one, || c.next(&t).is_some())?;
                    me.call("prev of a cursor", n, one, || c.prev(&t).is_some())?;
                }
            }
        }
    }
    let n = t.len();
    me.eat(n, t.into_iter(), case.param(1) as usize, &mut Rng::new(case.param(1) as u64))
}

fn mixed<E>(mut v: Vec<E>, how: i64) -> Vec<E> {
    match how % 3 {
        0 => {}
        1 => v.reverse(),
        _ => dict::scramble(&mut v, how as usize % 1000),
    }
    v
}

/// some keys twice
fn twice(n: usize, how: i64) -> Vec<(CKey, CVal)> {
    let mut e = entries(n);
    if how % 4 == 3 {
        e.iter_mut().for_each(|e| e.0 .0 &= !2);
    }
    e
}

fn map(case: &Case, me: &mut Meter) -> R {
    let n = case.param(2) as usize;
    let e = mixed(twice(n, case.param(3)), case.param(3));
    let mut t: BPlusTreeMap<CKey, CVal, CSum> = me.call("collecting a map", n, Meter::sorted(n), || e.into_iter().collect())?;
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        let n = t.len();
        let x = (r.below(2 * n + 4)) as u32;
        let one = single(n + 1);
        match o.c {
            SP0 | SP1 => me.pass(n, t.iter(), o.ua(), r)?,
            SP2 => {
                let e = mixed(twice(n, o.d), o.ua() as i64);
                let old = std::mem::replace(&mut t, me.call("collecting a map", n, Meter::sorted(n), || e.into_iter().collect())?);
                me.call("dropping a map", n, also(n, PASS), || drop(old))?;
            }
            SP3 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("insert", n, one, || drop(t.insert(k, CVal(1))))?;
                }
            }
            SP4 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("remove", n, one, || drop(t.remove(&k)))?;
                }
            }
            _ => {
                let k = CKey(x);
                me.call("get", n, one, || t.get(&k).is_some())?;
                me.call("get_mut", n, one, || t.get_mut(&k).is_some())?;
                me.call("rank", n, one, || t.rank_by_augmentation(&k).is_ok())?;
                me.call("entry by position", n, one, || t.get_by_augmentation(x as usize / 2).is_some())?;
                me.call("removal by position", n, one, || drop(t.remove_by_augmentation(x as usize / 2)))?;
            }
        }
    }
    let n = t.len();
    me.call("dropping a map", n, also(n, PASS), || drop(t))
}

fn set(case: &Case, me: &mut Meter) -> R {
    let n = case.param(2) as usize;
    let keys = |from: u32, n: usize, how: i64| mixed(twice(n, how / 8).into_iter().map(|(k, _)| CKey(from + k.0)).collect::<Vec<_>>(), how);
    let e = keys(0, n, case.param(3));
    let mut t: BPlusTreeSet<CKey> = me.call("collecting a set", n, Meter::sorted(n), || e.into_iter().collect())?;
    for o in &case.ops {
        let r = &mut Rng::new(o.d as u64);
        let n = t.len();
        let x = (r.below(2 * n + 4)) as u32;
        let one = single(n + 1);
        match o.c {
            SP0 => me.pass(n, t.iter(), o.ua(), r)?,
            SP1 => {
                let m = [n, n / 2, 1, r.below(n + 1)][o.ub() % 4];
                let from = [0, 1, n as u32, 2 * n as u32 + 1][o.ua() % 4];
                let other: BPlusTreeSet<CKey> = keys(from, m, 0).into_iter().collect();
                let (a, b) = if r.bool() { (&t, &other) } else { (&other, &t) };
                let m = other.len();
                let got = me.call("going through a union", n + m, also(n + m, MERGE), || a.union(b).count())?;
                ensure!(got <= n + m && got >= n.max(m), "{got} in a union of {n} and {m}");
                let u = me.call("a union", n + m, one, || a.union(b))?;
                me.call("copying a union", n + m, one, || black_box(u.clone().size_hint()))?;
            }
            SP2 => {
                let e = keys(0, n, o.ua() as i64);
                let old = std::mem::replace(&mut t, me.call("collecting a set", n, Meter::sorted(n), || e.into_iter().collect())?);
                me.eat(n, old.into_iter(), o.ub(), r)?;
            }
            SP3 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("insert", n, one, || t.insert(k))?;
                }
            }
            SP4 => {
                for i in 0..o.ub() as u32 % 300 {
                    let k = CKey(x.wrapping_add(i));
                    me.call("remove", n, one, || t.remove(&k))?;
                }
            }
            _ => {
                let k = CKey(x);
                me.call("contains", n, one, || t.contains(&k))?;
                me.call("first and last", n, one, || (t.first().is_some(), t.last().is_some()))?;
            }
        }
    }
    let n = t.len();
    match case.param(1) % 3 {
        0 => me.call("clearing a set", n, also(n, PASS), || t.clear()),
        1 => me.call("dropping a set", n, also(n, PASS), || drop(t)),
        _ => me.eat(n, t.into_iter(), case.param(3) as usize, &mut Rng::new(case.param(1) as u64)),
    }
}

/// Large collections gone through, built, copied and released next to the
/// standard library's tree of the same size. Milliseconds of both.
const TIMED: [&str; 12] = [
    "bulk_load", "collecting a map", "collecting a set out of order", "going through a tree", "going through it backwards", "consuming a map's tree",
    "consuming it backwards", "clone", "drop", "clear", "going through a union", "giving up an owning iterator",
];
fn time<R0>(f: impl FnOnce() -> R0) -> (f64, R0) {
    let t = Instant::now();
    let r = black_box(f());
    (t.elapsed().as_secs_f64() * 1e3, r)
}
fn timed(case: &Case, cx: &mut Cx) -> R {
    type U = BPlusTree<sweep_bptree::NodeStoreVec<u32, u64, CSum>>;
    let n = case.param(0).clamp(1000, 1 << 20) as usize;
    let e = || (0..n).map(|x| (x as u32, x as u64)).collect::<Vec<_>>();
    let (bt, std): (U, BTreeMap<u32, u64>) = (U::bulk_load(e()), e().into_iter().collect());
    let k = || {
        let mut k: Vec<u32> = (0..n as u32).collect();
        dict::scramble(&mut k, case.param(1) as usize % 1000);
        k
    };
    let set: BPlusTreeSet<u32> = k().into_iter().collect();
    for o in &case.ops {
        let what = o.ua() % TIMED.len();
        let mut slow = 0;
        let mut worst = String::new();
        while slow < 3 {
            let (a, b) = match what {
                0 => {
                    let (x, y) = (e(), e());
                    (time(|| U::bulk_load(x)).0, time(|| y.into_iter().collect::<BTreeMap<_, _>>()).0)
                }
                1 => {
                    let (x, y) = (e(), e());
                    (time(|| x.into_iter().collect::<BPlusTreeMap<_, _>>()).0, time(|| y.into_iter().collect::<BTreeMap<_, _>>()).0)
                }
                2 => {
                    let (x, y) = (k(), k());
                    (
                        time(|| x.into_iter().collect::<BPlusTreeSet<_>>()).0,
                        time(|| y.into_iter().map(|k| (k, ())).collect::<BTreeMap<_, _>>()).0,
                    )
                }
                3 => (time(|| bt.iter().map(|x| x.1 ^ *x.0 as u64).sum::<u64>()).0, time(|| std.iter().map(|x| x.1 ^ *x.0 as u64).sum::<u64>()).0),
                4 => (
                    time(|| bt.iter().rev().map(|x| x.1 ^ *x.0 as u64).sum::<u64>()).0,
                    time(|| std.iter().rev().map(|x| x.1 ^ *x.0 as u64).sum::<u64>()).0,
                ),
                5 => {
                    let (x, y) = (bt.clone(), std.clone());
                    (time(|| x.into_iter().map(|x| x.1).sum::<u64>()).0, time(|| y.into_iter().map(|x| x.1).sum::<u64>()).0)
                }
                6 => {
                    let (x, y) = (bt.clone(), std.clone());
                    (time(|| x.into_iter().rev().map(|x| x.1).sum::<u64>()).0, time(|| y.into_iter().rev().map(|x| x.1).sum::<u64>()).0)
                }
                7 => (time(|| bt.clone()).0, time(|| std.clone()).0),
                8 => {
                    let (x, y) = (bt.clone(), std.clone());
                    (time(|| drop(x)).0, time(|| drop(y)).0)
                }
                9 => {
                    let (mut x, mut y) = (bt.clone(), std.clone());
                    (time(|| x.clear()).0, time(|| y.clear()).0)
                }
                10 => (
                    time(|| set.union(&set).map(|x| *x as u64).sum::<u64>()).0,
                    time(|| std.iter().zip(std.iter()).map(|x| *x.0 .1 ^ *x.1 .0 as u64).sum::<u64>()).0,
                ),
                _ => {
                    let (mut x, y) = (bt.clone().into_iter(), std.clone());
                    x.next();
                    x.next_back();
                    (time(|| drop(x)).0, time(|| drop(y)).0)
                }
            };
            if std::env::var("WORST").is_ok() {
                eprintln!("TIME {:40} {a:8.3} ms, std {b:8.3} ms", TIMED[what]);
            }
            if a < 40.0 * b + 150.0 {
                break;
            }
            slow += 1;
            worst = format!("{} takes {a:.0} ms with {n} entries, a BTreeMap of that size {b:.2} ms", TIMED[what]);
        }
        ensure!(slow < 3, "{worst}");
        cx.steps += 2 * n as u64;
    }
    cx.nontrivial();
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C28";
    const RULE: &'static str = "Trees (bulk-loaded, grown, thinned out, on a node store that counts visits), maps and sets of 0 to 2.4 million entries, with keys, values and summaries that count comparisons, computations and copies; for each call of a generated list the counts are compared with what is allowed: a constant per level for each single call (copies of keys included, of values none), and in addition for whole passes, consumption, clear and drop a constant number of node visits per entry, for a clone one copy of each entry and few more keys, for building few comparisons and copies of few keys, for unions few comparisons; collecting may sort. A stage with 300000 to 400000 entries times whole passes, building, cloning and releasing next to BTreeMap. Non-trivial: more than 1000 entries.";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        let g = if profile == "checked" { 3 } else { 1 };
        let mut v = vec![];
        if profile == "release" {
            v.push(stage("timed", 3 * f));
        }
        v.extend([
            stage("giant", 6 * f / g),
            stage("large", 300 * f / g),
            stage("medium", 6000 * f / g),
            stage("small", 12000 * f / g),
        ]);
        v
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        if st == "timed" {
            return Case {
                stage: st.into(),
                params: vec![rng.range(300_000, 400_000) as i64, (rng.next() >> 1) as i64],
                ops: (0..TIMED.len()).map(|i| op(SP2, i, 0, 0)).collect(),
            };
        }
        let n = match st {
            "small" => rng.below(400),
            "medium" => rng.range(400, 9000),
            "giant" => rng.range(2_271_000, 2_420_000),
            _ if rng.pct(10) => rng.range(120_000, 500_000),
            _ => rng.range(9000, 120_000),
        };
        let most = if st == "giant" { 10 } else { 24 };
        let params = vec![rng.below(5) as i64, (rng.next() >> 1) as i64, n as i64, rng.below(1200) as i64];
        let ops = (0..rng.range(4, most))
            .map(|_| {
                let c = rng.pick(&[SP0, SP0, SP0, SP1, SP1, SP2, SP3, SP3, SP4, SP4, SP5]);
                op(c, rng.below(60), rng.below(300), rng.below(1 << 30))
            })
            .collect();
        Case { stage: st.into(), params, ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        if case.stage == "timed" {
            return timed(case, cx);
        }
        let mut me = Meter { worst: [0; 5], calls: 0 };
        let r = match case.param(0) {
            0 => tree::<()>(case, &mut me),
            1 | 2 => tree::<CSum>(case, &mut me),
            3 => map(case, &mut me),
            _ => set(case, &mut me),
        };
        if std::env::var("WORST").is_ok() {
            eprintln!("WORST {:?} of 1000", me.worst);
        }
        r?;
        cx.steps += me.calls;
        if case.param(2) > 1000 {
            cx.nontrivial();
        }
        Ok(())
    }
}
fn main() {
    runner::main::<P>();
}
