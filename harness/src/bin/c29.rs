//! C29: operations within operations. What user code the library calls
//! (comparing, copying, releasing, summing, visiting) works on other
//! collections meanwhile, and reads the one that is being read.

use harness::hist::Hist;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::rc::Rc;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, Key, NodeStoreVec};

// ------------------------------------------------------------- user code

struct RKey(u32);
impl Clone for RKey {
    fn clone(&self) -> Self {
        hook(0);
        RKey(self.0)
    }
}
impl PartialEq for RKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for RKey {}
impl PartialOrd for RKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for RKey {
    fn cmp(&self, o: &Self) -> Ordering {
        hook(1);
        self.0.cmp(&o.0)
    }
}
impl Drop for RKey {
    fn drop(&mut self) {
        hook(2);
    }
}
struct RVal(u64);
impl Clone for RVal {
    fn clone(&self) -> Self {
        hook(0);
        RVal(self.0)
    }
}
impl Drop for RVal {
    fn drop(&mut self) {
        hook(2);
    }
}
#[derive(Default)]
struct RSum(usize);
impl Clone for RSum {
    fn clone(&self) -> Self {
        hook(0);
        RSum(self.0)
    }
}
impl Drop for RSum {
    fn drop(&mut self) {
        hook(2);
    }
}
impl<K: Key, V> Augmentation<K, V> for RSum {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        hook(3);
        RSum(a.iter().map(|x| x.0).sum())
    }
    fn from_leaf(keys: &[K], _: &[V]) -> Self {
        hook(3);
        RSum(keys.len())
    }
}
impl<K: Key, V> SearchAugmentation<K, V> for RSum {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
        hook(3);
        (q < keys.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _: &[K], a: &[Self]) -> Option<(usize, usize)> {
        hook(3);
        for (i, x) in a.iter().enumerate() {
            if q < x.0 {
                return Some((i, q));
            }
            q -= x.0;
        }
        None
    }
}
impl<K: Key, V> RankAugmentation<K, V> for RSum {
    type Rank = usize;
    fn initial_value() -> usize {
        hook(3);
        0
    }
    fn fold_inner(_: &K, r: usize, a: &[Self]) -> usize {
        hook(3);
        r + a.iter().map(|x| x.0).sum::<usize>()
    }
    fn fold_leaf(_: &K, r: usize, s: Result<usize, usize>, _: &[K]) -> Result<usize, usize> {
        hook(3);
        s.map(|s| r + s).map_err(|s| r + s)
    }
}
/// the first or the last key
struct Edge(bool);
impl<V, A> DescendVisit<RKey, V, A> for Edge {
    type Result = u32;
    fn visit_inner(&mut self, _: &[RKey], a: &[A]) -> DescendVisitResult<u32> {
        hook(4);
        DescendVisitResult::GoDown(if self.0 { a.len() - 1 } else { 0 })
    }
    fn visit_leaf(&mut self, keys: &[RKey], _: &[V]) -> Option<u32> {
        hook(4);
        if self.0 { keys.last() } else { keys.first() }.map(|k| k.0)
    }
}
const KINDS: [&str; 5] = ["copying", "comparing", "releasing", "summing and searching", "visiting and between steps"];

// ------------------------------------------------------------ the collections

type Tr = BPlusTree<NodeStoreVec<RKey, RVal, RSum>>;
type Mp = BPlusTreeMap<RKey, RVal, RSum>;
type St = BPlusTreeSet<RKey>;
enum Col {
    T(Tr),
    M(Mp),
    S(St),
}
struct Slot {
    col: UnsafeCell<Col>,
    model: RefCell<Model>,
    readers: Cell<u32>,
    writing: Cell<bool>,
}
struct World {
    slots: Vec<Slot>,
    depth: Cell<u32>,
    max_depth: u32,
    one_in: u64,
    seed: Cell<u64>,
    left: Cell<u32>,
    failure: RefCell<Option<String>>,
    path: RefCell<Vec<String>>,
    /// nested in all, reading what is being read, changing another
    did: [Cell<u32>; 3],
    kinds: [Cell<u32>; 5],
    dom: usize,
}
thread_local! {
    static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
}

fn hook(kind: usize) {
    let Ok(Some(w)) = WORLD.try_with(|w| w.borrow().clone()) else { return };
    let d = w.depth.get();
    if d == 0 || d > w.max_depth || w.left.get() == 0 || w.failure.borrow().is_some() || std::thread::panicking() {
        return;
    }
    let s = rng::splitmix(w.seed.get());
    w.seed.set(s);
    if (s >> 20) % w.one_in != 0 {
        return;
    }
    w.left.set(w.left.get() - 1);
    w.kinds[kind].set(w.kinds[kind].get() + 1);
    w.path.borrow_mut().push(KINDS[kind].to_string());
    act(&w, &mut Rng::new(s), None);
    if w.failure.borrow().is_none() {
        w.path.borrow_mut().pop();
    }
}

/// one operation somewhere
fn act(w: &World, rng: &mut Rng, ask: Option<(usize, bool, usize)>) {
    let busy: Vec<usize> = (0..w.slots.len()).filter(|&i| w.slots[i].readers.get() > 0).collect();
    let (i, write, what) = ask.unwrap_or_else(|| {
        let i = if !busy.is_empty() && rng.pct(60) { busy[rng.below(busy.len())] } else { rng.below(w.slots.len()) };
        (i, rng.bool(), rng.below(60))
    });
    let s = &w.slots[i];
    if s.writing.get() {
        return;
    }
    let d = w.depth.get();
    w.depth.set(d + 1);
    if d > 0 {
        w.did[0].set(w.did[0].get() + 1);
    }
    let r = if write && s.readers.get() == 0 {
        if d > 0 {
            w.did[2].set(w.did[2].get() + 1);
        }
        s.writing.set(true);
        let r = change(w, i, rng, what);
        s.writing.set(false);
        r
    } else {
        if d > 0 && s.readers.get() > 0 {
            w.did[1].set(w.did[1].get() + 1);
        }
        s.readers.set(s.readers.get() + 1);
        let r = read(w, i, rng, what);
        s.readers.set(s.readers.get() - 1);
        r
    };
    w.depth.set(d);
    if let Err(e) = r {
        let mut f = w.failure.borrow_mut();
        if f.is_none() {
            let of = match unsafe { &*s.col.get() } {
                Col::T(_) => "tree",
                Col::M(_) => "map",
                Col::S(_) => "set",
            };
            let path = w.path.borrow();
            let within = if path.is_empty() { String::new() } else { format!(", within {}", path.join(" within ")) };
            *f = Some(format!("{of} {i}: {e}{within}"));
        }
    }
}

fn walk<'a>(m: &Model, mut i: impl Iterator<Item = (&'a RKey, Option<u64>)>, back: bool, steps: usize) -> R {
    let mut want = if back { m.last() } else { m.first() };
    for _ in 0..steps {
        // between the steps too
        hook(4);
        let got = i.next();
        let g = got.map(|x| (x.0 .0, x.1));
        match (g, want) {
            (None, None) => return Ok(()),
            (Some((x, v)), Some(y)) => {
                ensure!(x == y, "an iteration gave {x}, should give {y}");
                ensure!(v.is_none() || v == m.get(x), "an iteration gave {x} with {v:?}");
                want = if back { m.pred(y) } else { m.succ(y) };
            }
            (g, y) => return Err(format!("an iteration gave {g:?}, should give {y:?}")),
        }
    }
    Ok(())
}

fn read(w: &World, i: usize, rng: &mut Rng, what: usize) -> R {
    let s = &w.slots[i];
    // nothing changes it as long as there are readers
    let col = unsafe { &*s.col.get() };
    let m: Model = if w.depth.get() == 1 || rng.pct(20) || s.model.borrow().len() < 500 {
        s.model.borrow().clone()
    } else {
        // no copies of large models within other operations
        return get(col, s.model.borrow().get(0), 0);
    };
    let last = rng.below(w.dom) as u32;
    let x = Hist::interesting(&m, last, rng);
    let most = if rng.pct(10) { m.len() + 2 } else { 40 };
    let steps = rng.below(most);
    match what % 12 {
        0 | 1 => get(col, m.get(x), x),
        2 => {
            let (a, b) = match col {
                Col::T(t) => (t.first().map(|k| k.0 .0), t.last().map(|k| k.0 .0)),
                Col::M(t) => (t.iter().next().map(|k| k.0 .0), t.iter().next_back().map(|k| k.0 .0)),
                Col::S(t) => (t.first().map(|k| k.0), t.last().map(|k| k.0)),
            };
            ensure!(a == m.first() && b == m.last(), "ends {a:?} and {b:?}");
            Ok(())
        }
        3 => match col {
            Col::T(t) => walk(&m, t.iter().map(|(k, v)| (k, Some(v.0))), false, steps),
            Col::M(t) => walk(&m, t.iter().map(|(k, v)| (k, Some(v.0))), false, steps),
            Col::S(t) => walk(&m, t.iter().map(|k| (k, None)), false, steps),
        },
        4 => match col {
            Col::T(t) => walk(&m, t.iter().rev().map(|(k, v)| (k, Some(v.0))), true, steps),
            Col::M(t) => walk(&m, t.iter().rev().map(|(k, v)| (k, Some(v.0))), true, steps),
            Col::S(t) => walk(&m, t.iter().rev().map(|k| (k, None)), true, steps),
        },
        5 | 6 => {
            let Col::T(t) = col else { return get(col, m.get(x), x) };
            let Some((mut c, v)) = t.get_cursor(&RKey(x)) else { return Ok(()) };
            ensure!(v.map(|v| v.0) == m.get(c.key().0), "a cursor at {} came with another value", c.key().0);
            for _ in 0..rng.below(8) {
                let k = c.key().0;
                hook(4);
                ensure!(c.value(t).map(|v| v.0) == m.get(k), "the value of a cursor at {k}");
                let back = rng.pct(40);
                let (n, want) = if back { (c.prev(t), m.pred(k)) } else { (c.next(t), m.succ(k)) };
                let got = n.as_ref().map(|c| c.key().0);
                ensure!(got == want, "a cursor went from {k} to {got:?}, should go to {want:?}");
                match n {
                    Some(n) => c = n,
                    None => break,
                }
            }
            Ok(())
        }
        7 => {
            let r = match col {
                Col::T(t) => t.rank_by_augmentation(&RKey(x)).unwrap_or_else(|e| e),
                Col::M(t) => t.rank_by_augmentation(&RKey(x)).unwrap_or_else(|e| e),
                Col::S(_) => return get(col, m.get(x), x),
            };
            ensure!(r == m.rank(x), "the rank of {x} is {r}, should be {}", m.rank(x));
            Ok(())
        }
        8 => {
            let p = rng.below(m.len() + 2);
            let r = match col {
                Col::T(t) => t.get_by_augmentation(p).map(|(k, v)| (k.0, v.0)),
                Col::M(t) => t.get_by_augmentation(p).map(|(k, v)| (k.0, v.0)),
                Col::S(_) => return get(col, m.get(x), x),
            };
            let want = m.select(p).map(|k| (k, m.get(k).unwrap()));
            ensure!(r == want, "at position {p} there is {r:?}, should be {want:?}");
            Ok(())
        }
        9 => {
            let back = rng.bool();
            let r = match col {
                Col::T(t) => t.descend_visit(Edge(back)),
                Col::M(t) => t.descend_visit(Edge(back)),
                Col::S(_) => return get(col, m.get(x), x),
            };
            let want = if back { m.last() } else { m.first() };
            ensure!(r == want, "a visitor found {r:?} at an edge, should find {want:?}");
            Ok(())
        }
        10 => {
            match col {
                Col::T(t) if m.len() < 400 || w.depth.get() == 1 => {
                    let mut c = t.clone();
                    if rng.bool() {
                        let r = c.remove(&RKey(x)).map(|v| v.0);
                        ensure!(r == m.get(x), "a clone has {r:?} for {x}");
                        if r.is_some() {
                            drop(c.insert(RKey(x), RVal(r.unwrap())));
                        }
                    }
                    ensure!(c.root_augmentation().0 == m.len(), "the summary of a clone is {}", c.root_augmentation().0);
                    let n = c.len();
                    ensure!(n == m.len(), "a clone has {n} entries");
                    let got: Vec<(u32, u64)> = c.into_iter().map(|(k, v)| (k.0, v.0)).collect();
                    ensure!(got == m.entries(), "a clone has other entries");
                }
                _ => {}
            }
            Ok(())
        }
        _ => {
            let n = match col {
                Col::T(t) => {
                    ensure!(t.root_augmentation().0 == m.len(), "the summary is {}", t.root_augmentation().0);
                    t.len()
                }
                Col::M(t) => {
                    ensure!(t.root_augmentation().0 == m.len(), "the summary is {}", t.root_augmentation().0);
                    t.len()
                }
                Col::S(t) => {
                    // with another set
                    let o = rng.below(w.slots.len());
                    let other = &w.slots[o];
                    if !other.writing.get() && (m.len() < 500 || w.depth.get() == 1) {
                        if let Col::S(u) = unsafe { &*other.col.get() } {
                            other.readers.set(other.readers.get() + 1);
                            let got: Vec<u32> = t.union(u).map(|k| k.0).collect();
                            other.readers.set(other.readers.get() - 1);
                            let want: BTreeSet<u32> =
                                m.entries().into_iter().chain(other.model.borrow().entries()).map(|e| e.0).collect();
                            ensure!(got.into_iter().eq(want), "a union with set {o} is another");
                        }
                    }
                    t.len()
                }
            };
            ensure!(n == m.len(), "len is {n}, should be {}", m.len());
            Ok(())
        }
    }
}

fn get(col: &Col, want: Option<u64>, x: u32) -> R {
    let r = match col {
        Col::T(t) => t.get(&RKey(x)).map(|v| v.0),
        Col::M(t) => t.get(&RKey(x)).map(|v| v.0),
        Col::S(t) => t.contains(&RKey(x)).then_some(0),
    };
    ensure!(r == want, "get of {x} gave {r:?}, should give {want:?}");
    Ok(())
}

fn insert(col: &mut Col, x: u32, v: u64) -> Option<u64> {
    match col {
        Col::T(t) => t.insert(RKey(x), RVal(v)).map(|v| v.0),
        Col::M(t) => t.insert(RKey(x), RVal(v)).map(|v| v.0),
        Col::S(t) => (!t.insert(RKey(x))).then_some(0),
    }
}
fn remove(col: &mut Col, x: u32) -> Option<u64> {
    match col {
        Col::T(t) => t.remove(&RKey(x)).map(|v| v.0),
        Col::M(t) => t.remove(&RKey(x)).map(|v| v.0),
        Col::S(t) => t.remove(&RKey(x)).then_some(0),
    }
}
fn load(kind: usize, items: Vec<(u32, u64)>) -> Col {
    match kind % 3 {
        0 => Col::T(Tr::bulk_load(items.into_iter().map(|(k, v)| (RKey(k), RVal(v))).collect())),
        1 => Col::M(items.into_iter().map(|(k, v)| (RKey(k), RVal(v))).collect()),
        _ => Col::S(items.into_iter().map(|(k, _)| RKey(k)).collect()),
    }
}

fn change(w: &World, i: usize, rng: &mut Rng, what: usize) -> R {
    let s = &w.slots[i];
    // nothing else looks at it as long as it is marked
    let col = unsafe { &mut *s.col.get() };
    let set = matches!(col, Col::S(_));
    let outer = w.depth.get() == 1;
    let len = s.model.borrow().len();
    let last = rng.below(w.dom) as u32;
    let x = Hist::interesting(&s.model.borrow(), last, rng);
    let run = rng.range(1, if outer { 60 } else { 6 });
    match what % 10 {
        0..=2 => {
            for j in 0..run as u32 {
                let x = (x + j) % w.dom as u32;
                let v = if set { 0 } else { rng.next() >> 40 };
                let r = insert(col, x, v);
                let want = s.model.borrow_mut().set(x, v);
                ensure!(r == want, "insert of {x} gave {r:?}, should give {want:?}");
            }
        }
        3..=5 => {
            for j in 0..run as u32 {
                let x = (x + j) % w.dom as u32;
                let r = remove(col, x);
                let want = s.model.borrow_mut().remove(x);
                ensure!(r == want, "remove of {x} gave {r:?}, should give {want:?}");
            }
        }
        6 => {
            let v = rng.next() >> 40;
            let r = match col {
                Col::T(t) => t.get_mut(&RKey(x)).map(|o| std::mem::replace(o, RVal(v)).0),
                Col::M(t) => t.get_mut(&RKey(x)).map(|o| std::mem::replace(o, RVal(v)).0),
                Col::S(_) => return Ok(()),
            };
            let want = s.model.borrow().get(x);
            ensure!(r == want, "get_mut of {x} gave {r:?}, should give {want:?}");
            if r.is_some() {
                s.model.borrow_mut().set(x, v);
            }
        }
        7 => {
            let p = rng.below(len + 2);
            let r = match col {
                Col::T(t) => t.remove_by_augmentation(p).map(|(k, v)| (k.0, v.0)),
                Col::M(t) => t.remove_by_augmentation(p).map(|(k, v)| (k.0, v.0)),
                Col::S(_) => return Ok(()),
            };
            let at = s.model.borrow().select(p);
            let want = at.map(|k| (k, s.model.borrow_mut().remove(k).unwrap()));
            ensure!(r == want, "removing position {p} gave {r:?}, should give {want:?}");
        }
        // rarely what changes everything
        8 if outer || (len < 500 && rng.pct(30)) => {
            let items = s.model.borrow().entries();
            let kind = match col {
                Col::T(_) => 0,
                Col::M(_) => 1,
                Col::S(_) => 2,
            };
            if rng.bool() {
                let old = std::mem::replace(col, load(kind, items));
                drop(old);
            } else if rng.bool() {
                let old = std::mem::replace(col, load(kind, vec![]));
                s.model.borrow_mut().clear();
                // others may use the new one while the old one goes
                s.writing.set(false);
                let n = rng.below(items.len() + 2);
                let got: Vec<u32> = match old {
                    Col::T(t) => t.into_iter().take(n).map(|(k, _)| k.0).collect(),
                    Col::S(t) => t.into_iter().take(n).map(|k| k.0).collect(),
                    Col::M(t) => {
                        drop(t);
                        items.iter().take(n).map(|e| e.0).collect()
                    }
                };
                s.writing.set(true);
                ensure!(got.into_iter().eq(items.iter().take(n).map(|e| e.0)), "consuming gave other entries");
            } else {
                match col {
                    Col::T(t) => t.clear(),
                    Col::S(t) => t.clear(),
                    Col::M(_) => return Ok(()),
                }
                s.model.borrow_mut().clear();
            }
        }
        _ => {
            // back to some size
            for _ in 0..run {
                let y = rng.below(w.dom) as u32;
                let v = if set { 0 } else { rng.next() >> 40 };
                let r = insert(col, y, v);
                let want = s.model.borrow_mut().set(y, v);
                ensure!(r == want, "insert of {y} gave {r:?}, should give {want:?}");
            }
        }
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C29";
    const RULE: &'static str = "Up to five trees, maps and sets of 0 to 30000 entries; operations on them, each checked against the collection's model, whose keys, values, summaries and visitors carry out further operations, drawn from the seed, whenever the library calls them (comparing, copying, releasing, summing, searching, visiting), up to three deep: reads on the collection that is being read, reads and changes on all others, each checked as well; at the end everything is compared. Non-trivial: at least 20 operations within others, at least 5 of them on the collection being read and 5 changes of another.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        vec![stage("large", 60 * f), stage("medium", 2000 * f), stage("small", 6000 * f), stage("tiny", 6000 * f)]
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        let n = match st {
            "tiny" => rng.below(70),
            "small" => rng.below(500),
            "medium" => rng.range(500, 5000),
            _ => rng.range(5000, 30_000),
        };
        let slots = rng.range(2, 5);
        let params = vec![
            (rng.next() >> 1) as i64,
            n as i64,
            slots as i64,
            rng.pick(&[2i64, 5, 20, 20, 100, 500]),
            rng.range(1, 3) as i64,
            rng.below(27) as i64,
        ];
        let ops = (0..rng.range(6, 60)).map(|_| op(rng.pick(&[SP0, SP0, SP1]), rng.below(slots), rng.below(60), rng.below(1 << 30))).collect();
        Case { stage: st.into(), params, ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        let n = (case.param(1) as usize).min(100_000);
        let count = (case.param(2) as usize).clamp(1, 8);
        let dom = 2 * n + 20;
        WORLD.with(|w| w.replace(None));
        let mut rng = Rng::new(case.param(0) as u64);
        let mut kinds = case.param(5) as usize;
        let slots = (0..count)
            .map(|_| {
                let kind = kinds % 3;
                kinds /= 3;
                // two are as large as said, the others small
                let n = if rng.pct(60) { n } else { n.min(100) };
                let mut model = Model::new(dom);
                for _ in 0..n {
                    model.set(rng.below(dom) as u32, if kind == 2 { 0 } else { rng.next() >> 40 });
                }
                let items = model.entries();
                let col = if rng.bool() {
                    load(kind, items)
                } else {
                    let mut c = load(kind, vec![]);
                    for (k, v) in items {
                        insert(&mut c, k, v);
                    }
                    c
                };
                Slot { col: UnsafeCell::new(col), model: RefCell::new(model), readers: Cell::new(0), writing: Cell::new(false) }
            })
            .collect();
        let w = Rc::new(World {
            slots,
            depth: Cell::new(0),
            max_depth: case.param(4).clamp(1, 4) as u32,
            one_in: case.param(3).max(1) as u64,
            seed: Cell::new(case.param(0) as u64 | 1),
            left: Cell::new(3000),
            failure: RefCell::new(None),
            path: RefCell::new(vec![]),
            did: Default::default(),
            kinds: Default::default(),
            dom,
        });
        WORLD.with(|x| x.replace(Some(w.clone())));
        let r = (|| {
            for (j, o) in case.ops.iter().enumerate() {
                act(&w, &mut Rng::new(o.d as u64 + j as u64), Some((o.ua() % count, o.c == SP0, o.ub())));
                if let Some(f) = w.failure.borrow().as_ref() {
                    return Err(format!("operation {j}: {f}"));
                }
            }
            Ok(())
        })();
        WORLD.with(|x| x.replace(None));
        r?;
        for (i, s) in w.slots.iter().enumerate() {
            let want = s.model.borrow().entries();
            let col = unsafe { &*s.col.get() };
            let got: Vec<(u32, u64)> = match col {
                Col::T(t) => t.iter().map(|(k, v)| (k.0, v.0)).collect(),
                Col::M(t) => t.iter().map(|(k, v)| (k.0, v.0)).collect(),
                Col::S(t) => t.iter().map(|k| (k.0, 0)).collect(),
            };
            ensure!(got == want, "collection {i} has other entries in the end");
            for &(k, v) in want.iter().step_by(7) {
                get(col, Some(v), k)?;
            }
        }
        cx.steps += case.ops.len() as u64 + w.did[0].get() as u64;
        for (k, n) in w.kinds.iter().enumerate() {
            if n.get() > 0 {
                cx.label(KINDS[k]);
            }
        }
        if w.left.get() == 0 {
            cx.label("all the nested operations there may be");
        }
        if w.did[0].get() >= 20 && w.did[1].get() >= 5 && w.did[2].get() >= 5 {
            cx.nontrivial();
        }
        Ok(())
    }
}
fn main() {
    runner::main::<P>();
}
