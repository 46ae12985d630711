//! C23: leaves, inner nodes and the library's node store used by themselves,
//! as somebody who writes a node store does.

use harness::kinds::*;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::tok::{self, KTok, VTok};
use harness::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::{InnerNode, InnerNodeId, LeafNode, LeafNodeId, NodeId};
use sweep_bptree::{BPlusTree, NodeStore, NodeStoreVec};

/// what a leaf should hold
#[derive(Clone, Default)]
struct Leaf {
    data: Vec<(u32, u64)>,
    prev: Option<LeafNodeId>,
    next: Option<LeafNodeId>,
}
#[derive(Clone, Default)]
struct Inner {
    keys: Vec<u32>,
    kids: Vec<NodeId>,
}

fn kid(x: u64) -> NodeId {
    match x % 2 {
        0 => NodeId::Inner(InnerNodeId::from_usize((x / 2) as usize)),
        _ => NodeId::Leaf(LeafNodeId::from_usize((x / 2) as usize)),
    }
}

/// ascending distinct numbers from a small or large range
fn ascending(n: usize, dom: usize, r: &mut Rng) -> Vec<u32> {
    let dom = dom.max(2 * n + 2);
    let mut v: Vec<u32> = Vec::new();
    if r.pct(30) {
        let from = r.below(dom - n);
        return (from..from + n).map(|x| x as u32).collect();
    }
    while v.len() < n {
        v.push(r.below(dom) as u32);
        if v.len() == n {
            v.sort();
            v.dedup();
        }
    }
    v
}

impl Leaf {
    fn of<K: TKey, V: TVal>(&self) -> Box<LeafNode<K, V>> {
        let mut l = LeafNode::<K, V>::new();
        l.set_data(self.data.iter().map(|e| (K::of(e.0), V::of(e.1))));
        l.set_prev(self.prev);
        l.set_next(self.next);
        l
    }
    fn check<K: TKey, V: TVal>(&self, l: &LeafNode<K, V>, r: &mut Rng, dom: usize) -> R {
        let n = self.data.len();
        let cap = LeafNode::<K, V>::max_capacity() as usize;
        ensure!(l.len() == n, "the leaf has len {}, should be {n}", l.len());
        ensure!(l.is_empty() == (n == 0), "is_empty of a leaf with {n} entries is {}", l.is_empty());
        ensure!(l.is_full() == (n == cap), "is_full of a leaf with {n} of {cap} entries is {}", l.is_full());
        ensure!(
            !(l.able_to_lend() && l.is_size_minimum()),
            "a leaf of {n} entries has the minimum size and yet can lend"
        );
        ensure!(
            l.prev() == self.prev && l.next() == self.next,
            "the neighbours are {:?} and {:?}, should be {:?} and {:?}",
            l.prev(),
            l.next(),
            self.prev,
            self.next
        );
        let (ks, vs) = (l.keys(), l.values());
        ensure!(ks.len() == n && vs.len() == n, "{} keys and {} values shown, should be {n}", ks.len(), vs.len());
        for (i, (x, vid)) in self.data.iter().enumerate() {
            let (k, v) = l.data_at(i);
            ensure!(
                ks[i].ix() == *x && vs[i].is(*vid) && k.ix() == *x && v.is(*vid),
                "entry {i} is {:?} {:?} or {k:?} {v:?}, should be {x} {vid}",
                ks[i],
                vs[i]
            );
            let t = l.try_data_at(i).map(|e| (e.0.ix(), e.1.is(*vid)));
            ensure!(t == Some((*x, true)), "try_data_at({i}) is {t:?}, should be {x} {vid}");
        }
        for i in [n, n + 1 + r.below(3 * cap), cap, usize::MAX] {
            ensure!(i < n || l.try_data_at(i).is_none(), "try_data_at({i}) finds an entry among {n}");
        }
        let mut asked: Vec<u32> = (0..4).map(|_| r.below(dom + 4) as u32).collect();
        if n > 0 {
            let x = self.data[r.below(n)].0;
            asked.extend([x, x.saturating_sub(1), x + 1, self.data[0].0, self.data[n - 1].0]);
            asked.extend([self.data[0].0.saturating_sub(1), self.data[n - 1].0 + 1]);
        }
        for x in asked {
            let q = K::of(x);
            let want = self.data.binary_search_by_key(&x, |e| e.0);
            let slot = l.locate_slot(q.q());
            ensure!(slot == want, "locate_slot of {x} is {slot:?}, should be {want:?}");
            let (at, v) = l.locate_slot_with_value(q.q());
            ensure!(
                at == want.unwrap_or_else(|i| i) && v.is_some() == want.is_ok(),
                "locate_slot_with_value of {x} is {at} {v:?}, should be {want:?}"
            );
            if let (Some(v), Ok(i)) = (v, want) {
                ensure!(v.is(self.data[i].1), "the value found for {x} is {v:?}, should be {}", self.data[i].1);
            }
            let inside = l.in_range(q.q());
            if n > 0 {
                let left = self.prev.is_some() && x < self.data[0].0;
                let right = self.next.is_some() && x > self.data[n - 1].0;
                ensure!(inside == (!left && !right), "in_range of {x} is {inside}");
            }
        }
        if n > 0 {
            let (a, b) = l.key_range();
            let (a, b) = (a.map(|k| k.ix()), b.map(|k| k.ix()));
            let want = (self.prev.map(|_| self.data[0].0), self.next.map(|_| self.data[n - 1].0));
            ensure!((a, b) == want, "the key range is {:?}, should be {want:?}", (a, b));
        }
        Ok(())
    }
}

impl Inner {
    fn of<K: TKey, A: Clone>(&self, a: fn(u64) -> A) -> Box<InnerNode<K, A>> {
        InnerNode::new_from_iter(
            self.keys.iter().map(|x| K::of(*x)),
            self.kids.iter().copied(),
            (0..self.kids.len() as u64).map(a),
        )
    }
    fn check<K: TKey, A: Clone>(&self, i: &InnerNode<K, A>, r: &mut Rng, dom: usize) -> R {
        let n = self.keys.len();
        let cap = InnerNode::<K, A>::max_capacity() as usize;
        ensure!(i.len() == n, "the inner node has len {}, should be {n}", i.len());
        ensure!(i.is_empty() == (n == 0), "is_empty of an inner node with {n} keys is {}", i.is_empty());
        ensure!(i.is_full() == (n == cap), "is_full of an inner node with {n} of {cap} keys is {}", i.is_full());
        for (j, x) in self.keys.iter().enumerate() {
            ensure!(i.key(j).ix() == *x, "key {j} is {:?}, should be {x}", i.key(j));
        }
        let mut asked: Vec<u32> = (0..3).map(|_| r.below(dom + 4) as u32).collect();
        for x in &self.keys {
            asked.extend([*x, x.saturating_sub(1), x + 1]);
        }
        for x in asked {
            let want = self.keys.partition_point(|k| *k <= x);
            let (at, id) = i.locate_child(K::of(x).q());
            ensure!(
                at == want && id == self.kids[want],
                "the child for {x} is {at} {id:?}, should be {want} {:?}",
                self.kids[want]
            );
        }
        Ok(())
    }
}

/// set_data takes as many entries as fit
fn fill<K: TKey, V: TVal>(l: &mut LeafNode<K, V>, data: &[(u32, u64)]) -> Result<Vec<(u32, u64)>, String> {
    let fit = data.len().min(LeafNode::<K, V>::max_capacity() as usize);
    let mut it = data.iter();
    l.set_data(it.by_ref().map(|e| (K::of(e.0), V::of(e.1))));
    ensure!(it.len() == data.len() - fit, "set_data left {} of {} entries", it.len(), data.len());
    Ok(data[..fit].to_vec())
}

fn released(what: &str, keys: usize, vals: usize) -> R {
    if let Some(e) = tok::error() {
        return Err(e);
    }
    ensure!(
        (tok::live(tok::KEY), tok::live(tok::VAL)) == (keys, vals),
        "{what}: {} keys and {} values alive, should be {keys} and {vals}",
        tok::live(tok::KEY),
        tok::live(tok::VAL)
    );
    Ok(())
}

fn leaves<K: TKey, V: TVal>(case: &Case, cx: &mut Cx, count: bool) -> R {
    tok::reset();
    let dom = case.param(0).max(2) as usize;
    let mut r = Rng::new(case.param(1) as u64);
    let mut all: Vec<(Box<LeafNode<K, V>>, Leaf)> = (0..3).map(|_| (LeafNode::new(), Leaf::default())).collect();
    let mut vid = 1;
    for o in &case.ops {
        let i = o.ua() % all.len();
        match o.c {
            SP0 => {
                let n = o.ub() % 140;
                let data: Vec<(u32, u64)> = ascending(n, dom, &mut r).into_iter().zip(vid..).collect();
                vid += n as u64;
                all[i].1.data = fill(&mut all[i].0, &data)?;
                if n > 0 {
                    cx.nontrivial();
                }
            }
            SP1 => {
                let id = (o.b % 3 != 0).then_some(LeafNodeId::from_usize(o.ud()));
                if o.b % 2 == 0 {
                    all[i].0.set_prev(id);
                    all[i].1.prev = id;
                } else {
                    all[i].0.set_next(id);
                    all[i].1.next = id;
                }
            }
            SP2 => {
                let n = all[i].1.data.len();
                if n > 0 {
                    vid += 1;
                    all[i].0.value_at_mut(o.ub() % n).put(vid);
                    all[i].1.data[o.ub() % n].1 = vid;
                }
            }
            SP3 => {
                let j = o.ub() % all.len();
                if i != j {
                    // a leaf does not release its entries when dropped
                    all[j].0.set_data(std::iter::empty());
                    let (n, m) = (all[i].0.clone(), all[i].1.clone());
                    all[j] = (n, m);
                }
            }
            _ => {
                let j = o.ub() % all.len();
                if i != j {
                    let (a, b) = if i < j { all.split_at_mut(j) } else { all.split_at_mut(i) };
                    let (a, b) = if i < j { (&mut a[i], &mut b[0]) } else { (&mut a[j], &mut b[0]) };
                    // whole nodes, not boxes
                    std::mem::swap(&mut *a.0, &mut *b.0);
                    std::mem::swap(&mut a.1, &mut b.1);
                }
            }
        }
        for (l, m) in &all {
            m.check(l, &mut r, dom)?;
        }
        if count {
            let n: usize = all.iter().map(|a| a.1.data.len()).sum();
            released("after a step", n, n)?;
        }
        cx.steps += 1;
    }
    // sizes: one of them is the minimum, above it a leaf can lend
    let cap = LeafNode::<K, V>::max_capacity() as usize;
    let l = &mut all[0].0;
    let mut min = None;
    for n in (0..=cap).step_by(if cap > 1000 { 17 } else { 1 }) {
        l.set_data((0..n).map(|x| (K::of(x as u32), V::of(0))));
        if l.is_size_minimum() {
            ensure!(min.is_none(), "two sizes are the minimum, {min:?} and {n}");
            min = Some(n);
        }
        ensure!(l.able_to_lend() == min.is_some_and(|m| m < n), "able_to_lend with {n} entries is {}", l.able_to_lend());
    }
    ensure!(min.is_none_or(|m| m >= 1 && 2 * m <= cap + 1), "the minimum size of a leaf is {min:?} of {cap}");
    for (l, _) in &mut all {
        l.set_data(std::iter::empty());
        ensure!(l.is_empty(), "a leaf without data has len {}", l.len());
    }
    if count {
        released("in the end", 0, 0)?;
    }
    Ok(())
}

fn inners<K: TKey, V: TVal>(case: &Case, cx: &mut Cx, count: bool) -> R {
    tok::reset();
    let dom = case.param(0).max(2) as usize;
    let mut r = Rng::new(case.param(1) as u64);
    let cap = InnerNode::<K, V>::max_capacity() as usize;
    let mut all: Vec<(Box<InnerNode<K, V>>, Inner)> = vec![];
    for o in &case.ops {
        let i = o.ua() % all.len().max(1);
        match o.c {
            SP1 if !all.is_empty() => {
                // push while there is room
                for j in 0..1 + o.ub() % 40 {
                    let (n, m) = &mut all[i];
                    let x = m.keys.last().map_or(0, |k| k + 1) + r.below(3) as u32;
                    if m.keys.len() == cap {
                        break;
                    }
                    let c = kid(r.next() >> 30);
                    n.push(K::of(x), c, V::of(j as u64));
                    m.keys.push(x);
                    m.kids.push(c);
                }
            }
            SP2 if !all.is_empty() => {
                let c = (all[i].0.clone(), all[i].1.clone());
                all.push(c);
            }
            SP3 if !all.is_empty() => {
                all.swap_remove(i);
            }
            SP4 => {
                // numbers that do not belong together
                let (k, c, a) = (o.ua() % (cap + 3), o.ub() % (cap + 4), o.ud() % (cap + 4));
                if k <= cap && c == k + 1 && a == c {
                    continue;
                }
                let made = catch_unwind(AssertUnwindSafe(|| {
                    InnerNode::<K, u64>::new_from_iter(
                        (0..k).map(|x| K::of(x as u32)),
                        (0..c).map(|x| kid(x as u64)),
                        (0..a).map(|x| x as u64),
                    )
                }));
                ensure!(made.is_err(), "an inner node was made from {k} keys, {c} children and {a} summaries");
                // what was filled in so far is leaked
                if count {
                    tok::reset();
                    for (n, m) in &mut all {
                        std::mem::forget(std::mem::replace(n, m.of(V::of)));
                    }
                }
            }
            _ => {
                let n = o.ub() % (cap + 1);
                let keys = ascending(n, dom, &mut r);
                let m = Inner { kids: (0..=keys.len()).map(|_| kid(r.next() >> 30)).collect(), keys };
                all.push((m.of(V::of), m));
                cx.nontrivial();
            }
        }
        while all.len() > 4 {
            all.remove(0);
        }
        for (n, m) in &all {
            m.check(n, &mut r, dom)?;
        }
        if count {
            let n: usize = all.iter().map(|a| a.1.keys.len()).sum();
            released("after a step", n, n + all.len())?;
        }
        cx.steps += 1;
    }
    drop(all);
    if count {
        released("in the end", 0, 0)?;
    }
    Ok(())
}

/// what a store should hold
#[derive(Clone, Default)]
struct Held {
    /// None: reserved
    leaves: BTreeMap<usize, Option<Leaf>>,
    inners: BTreeMap<usize, Inner>,
    /// taken out and not given to somebody else since
    gone_leaves: Vec<usize>,
    gone_inners: Vec<usize>,
    noted: Option<usize>,
}
type Store<K, V> = NodeStoreVec<K, V, Count>;

fn nth<X>(m: &BTreeMap<usize, X>, n: usize, ok: impl Fn(&X) -> bool) -> Option<usize> {
    let all: Vec<usize> = m.iter().filter(|e| ok(e.1)).map(|e| *e.0).collect();
    (!all.is_empty()).then(|| all[n % all.len()])
}

impl Held {
    fn check<K: TKey, V: TVal>(&self, s: &mut Store<K, V>, r: &mut Rng, dom: usize, all: bool) -> R {
        let some = |r: &mut Rng| all || r.pct(20);
        for (id, m) in &self.leaves {
            let l = LeafNodeId::from_usize(*id);
            let Some(m) = m else {
                ensure!(s.try_get_leaf(l).is_none(), "try_get_leaf finds a leaf at {id}, which is only reserved");
                continue;
            };
            if some(r) {
                m.check(s.get_leaf(l), r, dom).map_err(|e| format!("leaf {id}: {e}"))?;
                let Some(t) = s.try_get_leaf(l) else { return Err(format!("try_get_leaf misses {id}")) };
                m.check(t, r, dom).map_err(|e| format!("leaf {id}: {e}"))?;
                m.check(s.get_mut_leaf(l), r, dom).map_err(|e| format!("leaf {id}: {e}"))?;
            }
        }
        for (id, m) in &self.inners {
            let i = InnerNodeId::from_usize(*id);
            if some(r) {
                m.check(s.get_inner(i), r, dom).map_err(|e| format!("inner node {id}: {e}"))?;
                let Some(t) = s.try_get_inner(i) else { return Err(format!("try_get_inner misses {id}")) };
                m.check(t, r, dom).map_err(|e| format!("inner node {id}: {e}"))?;
                m.check(s.get_mut_inner(i), r, dom).map_err(|e| format!("inner node {id}: {e}"))?;
            }
        }
        let away = [usize::MAX, r.next() as usize, r.below(200), r.below(20)];
        for id in away.iter().chain(self.gone_leaves.iter()) {
            let found = s.try_get_leaf(LeafNodeId::from_usize(*id)).is_some();
            let want = matches!(self.leaves.get(id), Some(Some(_)));
            ensure!(found == want, "try_get_leaf({id}) finds something: {found}, should be {want}");
        }
        for id in away.iter().chain(self.gone_inners.iter()) {
            let found = s.try_get_inner(InnerNodeId::from_usize(*id)).is_some();
            let want = self.inners.contains_key(id);
            ensure!(found == want, "try_get_inner({id}) finds something: {found}, should be {want}");
        }
        for _ in 0..3 {
            let x = r.below(dom + 4) as u32;
            if let Some(id) = s.try_cache(K::of(x).q()) {
                ensure!(Some(id.as_usize()) == self.noted, "the cache answers {id:?}, last noted was {:?}", self.noted);
                let Some(Some(m)) = self.leaves.get(&id.as_usize()) else {
                    return Err(format!("the cache answers {id:?}, where no leaf is"));
                };
                let (Some(a), Some(b)) = (m.data.first(), m.data.last()) else { continue };
                ensure!(
                    (m.prev.is_none() || x >= a.0) && (m.next.is_none() || x <= b.0),
                    "the cache answers a leaf that cannot hold {x}"
                );
            }
        }
        Ok(())
    }
    fn new_leaf(&mut self, id: LeafNodeId, l: Option<Leaf>) -> R {
        let id = id.as_usize();
        ensure!(!self.leaves.contains_key(&id), "leaf id {id} is handed out while in use");
        self.gone_leaves.retain(|g| *g != id);
        self.leaves.insert(id, l);
        Ok(())
    }
}

fn stores<K: TKey, V: TVal>(case: &Case, cx: &mut Cx, count: bool) -> R {
    tok::reset();
    let dom = case.param(0).max(2) as usize;
    let mut r = Rng::new(case.param(1) as u64);
    let first = if case.param(2) % 2 == 0 { Store::<K, V>::new() } else { Store::with_capacity(case.param(2) as usize % 300) };
    ensure!(
        <Store<K, V> as NodeStore>::leaf_n() as usize == LeafNode::<K, V>::max_capacity() as usize
            && <Store<K, V> as NodeStore>::inner_n() as usize == InnerNode::<K, Count>::max_capacity() as usize,
        "the store's node sizes are not those of its nodes"
    );
    let mut all = vec![(first, Held::default())];
    let mut taken: Vec<(usize, usize, Box<LeafNode<K, V>>, Leaf)> = vec![];
    let mut vid = 1;
    let new_leaf = |r: &mut Rng, vid: &mut u64| {
        let n = r.skew(0, LeafNode::<K, V>::max_capacity() as usize);
        let data = ascending(n, dom, r).into_iter().zip(*vid..).collect();
        *vid += n as u64;
        let id = |r: &mut Rng| r.bool().then(|| LeafNodeId::from_usize(r.below(50)));
        let (prev, next) = (id(r), id(r));
        Leaf { data, prev, next }
    };
    for o in &case.ops {
        let at = o.ud() % all.len();
        let (s, m) = &mut all[at];
        match o.c {
            SP0 => {
                let (id, l) = s.new_empty_leaf();
                Leaf::default().check(l, &mut r, dom).map_err(|e| format!("a new empty leaf: {e}"))?;
                m.new_leaf(id, Some(Leaf::default()))?;
            }
            SP1 => {
                let id = s.reserve_leaf();
                m.new_leaf(id, None)?;
                cx.nontrivial();
            }
            SP2 => {
                if let Some(id) = nth(&m.leaves, o.ua(), |l| l.is_none()) {
                    let l = new_leaf(&mut r, &mut vid);
                    s.assign_leaf(LeafNodeId::from_usize(id), l.of());
                    m.leaves.insert(id, Some(l));
                }
            }
            SP3 => {
                // out, and perhaps back later
                if let Some(id) = nth(&m.leaves, o.ua(), |l| l.is_some()) {
                    let l = s.take_leaf(LeafNodeId::from_usize(id));
                    let want = m.leaves.remove(&id).unwrap().unwrap();
                    want.check(&l, &mut r, dom).map_err(|e| format!("the leaf taken from {id}: {e}"))?;
                    m.gone_leaves.push(id);
                    taken.push((at, id, l, want));
                    cx.label("a leaf taken out");
                }
            }
            SP4 => {
                if !taken.is_empty() {
                    let (t, id, mut l, want) = taken.swap_remove(o.ua() % taken.len());
                    let (s, m) = &mut all[t];
                    if o.b % 3 != 0 && m.gone_leaves.contains(&id) {
                        s.assign_leaf(LeafNodeId::from_usize(id), l);
                        m.gone_leaves.retain(|g| *g != id);
                        m.leaves.insert(id, Some(want));
                        cx.label("a leaf put back");
                    } else {
                        l.set_data(std::iter::empty());
                    }
                }
            }
            SP5 => {
                let n = r.skew(0, InnerNode::<K, Count>::max_capacity() as usize);
                let keys = ascending(n, dom, &mut r);
                let i = Inner { kids: (0..=keys.len()).map(|_| kid(r.next() >> 30)).collect(), keys };
                let id = s.add_inner(i.of(|_| Count::default())).as_usize();
                ensure!(!m.inners.contains_key(&id), "inner node id {id} is handed out while in use");
                m.gone_inners.retain(|g| *g != id);
                m.inners.insert(id, i);
            }
            SP6 => {
                if let Some(id) = nth(&m.inners, o.ua(), |_| true) {
                    let i = s.take_inner(InnerNodeId::from_usize(id));
                    let want = m.inners.remove(&id).unwrap();
                    want.check(&i, &mut r, dom).map_err(|e| format!("the inner node taken from {id}: {e}"))?;
                    if o.b % 2 == 0 {
                        s.put_back_inner(InnerNodeId::from_usize(id), i);
                        m.inners.insert(id, want);
                        cx.label("an inner node put back");
                    } else {
                        m.gone_inners.push(id);
                    }
                }
            }
            SP7 => {
                // in place
                if let Some(id) = nth(&m.leaves, o.ua(), |l| l.is_some()) {
                    let l = s.get_mut_leaf(LeafNodeId::from_usize(id));
                    let new = new_leaf(&mut r, &mut vid);
                    l.set_data(new.data.iter().map(|e| (K::of(e.0), V::of(e.1))));
                    l.set_prev(new.prev);
                    l.set_next(new.next);
                    m.leaves.insert(id, Some(new));
                }
                if let Some(id) = nth(&m.inners, o.ub(), |i| i.keys.len() < InnerNode::<K, Count>::max_capacity() as usize) {
                    let i = m.inners.get_mut(&id).unwrap();
                    let (x, c) = (i.keys.last().map_or(0, |k| k + 1), kid(r.next() >> 30));
                    s.get_mut_inner(InnerNodeId::from_usize(id)).push(K::of(x), c, Count::default());
                    i.keys.push(x);
                    i.kids.push(c);
                }
            }
            SP8 => {
                let id = match nth(&m.leaves, o.ua(), |_| true) {
                    Some(id) if o.b % 4 != 0 => id,
                    _ => m.gone_leaves.first().copied().unwrap_or(usize::MAX),
                };
                s.cache_leaf(LeafNodeId::from_usize(id));
                m.noted = Some(id);
            }
            _ => {
                if all.len() < 3 {
                    let c = (all[at].0.clone(), all[at].1.clone());
                    all.push(c);
                    cx.label("a store cloned");
                }
            }
        }
        for (i, (s, m)) in all.iter_mut().enumerate() {
            m.check(s, &mut r, dom, false).map_err(|e| format!("store {i}: {e}"))?;
        }
        if count {
            let entries = |l: &Leaf| l.data.len();
            let out: usize = taken.iter().map(|t| entries(&t.3)).sum();
            let v: usize = all.iter().flat_map(|a| a.1.leaves.values().flatten()).map(entries).sum();
            let k: usize = all.iter().flat_map(|a| a.1.inners.values()).map(|i| i.keys.len()).sum();
            released("after a step", v + k + out, v + out)?;
        }
        cx.steps += 1;
    }
    for (i, (s, m)) in all.iter_mut().enumerate() {
        m.check(s, &mut r, dom, true).map_err(|e| format!("store {i} in the end: {e}"))?;
        for (id, l) in &m.leaves {
            if l.is_some() {
                s.get_mut_leaf(LeafNodeId::from_usize(*id)).set_data(std::iter::empty());
            }
        }
    }
    for t in &mut taken {
        t.2.set_data(std::iter::empty());
    }
    drop(all);
    if count {
        released("in the end", 0, 0)?;
    }
    Ok(())
}

/// the leaves of a tree, read through its store
fn trees<K: TKey, V: TVal>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let dom = case.param(0).max(2) as usize;
    let mut r = Rng::new(case.param(1) as u64);
    let mut t: BPlusTree<Store<K, V>> = BPlusTree::new(NodeStoreVec::new());
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let mut vid = 0;
    for o in &case.ops {
        // a run of neighbours or of scattered keys
        for j in 0..1 + o.ub() % 120 {
            let x = match o.d % 3 {
                0 => (o.ua() + j) % dom,
                1 => (o.ua() + dom - j % dom) % dom,
                _ => r.below(dom),
            } as u32;
            if o.c == DEL {
                let got = t.remove(K::of(x).q()).is_some();
                ensure!(got == m.remove(&x).is_some(), "removal of {x} returns something: {got}");
            } else {
                vid += 1;
                t.insert(K::of(x), V::of(vid));
                m.insert(x, vid);
            }
        }
        let s = t.node_store();
        let ids = (0..m.len() + 64).map(LeafNodeId::from_usize);
        let here: Vec<LeafNodeId> = ids.filter(|id| s.try_get_leaf(*id).is_some()).collect();
        let mut firsts = here.iter().filter(|id| s.get_leaf(**id).prev().is_none());
        let Some(first) = firsts.next() else {
            cx.label("leaves have other ids");
            continue;
        };
        ensure!(firsts.next().is_none(), "two leaves have no left neighbour");
        let mut all = m.iter().map(|e| (*e.0, *e.1));
        let (mut at, mut prev, mut seen) = (Some(*first), None, 0);
        while let Some(id) = at {
            let Some(l) = s.try_get_leaf(id) else { return Err(format!("the chain leads to {id:?}, which is not there")) };
            let data: Vec<(u32, u64)> = all.by_ref().take(l.len()).collect();
            let model = Leaf { data, prev, next: l.next() };
            model.check(l, &mut r, dom).map_err(|e| format!("leaf {seen} of the chain: {e}"))?;
            prev = at;
            at = l.next();
            seen += 1;
            ensure!(seen <= m.len() + 1, "the chain of leaves does not end");
        }
        ensure!(all.next().is_none(), "the chain of leaves lacks entries");
        ensure!(here.iter().all(|id| id.as_usize() < usize::MAX) && here.len() <= seen, "{} leaves there, {seen} in the chain", here.len());
        if seen > 1 {
            cx.nontrivial();
        }
        cx.steps += 1;
    }
    Ok(())
}

// ------------------------------------------------------- what is not there

mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn open(path: *const u8, flags: i32, ...) -> i32;
        pub fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
    }
}

/// In a child process: `f` must panic, or give nothing (false).
fn refuses(what: &str, f: &mut dyn FnMut() -> bool) -> R {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            return Ok(());
        }
        if pid == 0 {
            let null = sys::open(b"/dev/null\0".as_ptr(), 1);
            sys::dup2(null, 1);
            sys::dup2(null, 2);
            sys::setrlimit(4, &[0, 0]);
            sys::_exit(match catch_unwind(AssertUnwindSafe(&mut *f)) {
                Err(_) | Ok(false) => 40,
                Ok(true) => 41,
            });
        }
        let mut status = 0;
        if sys::waitpid(pid, &mut status, 0) != pid {
            return Ok(());
        }
        match (status & 0x7f, status >> 8 & 0xff) {
            (0, 40) => Ok(()),
            (0, 41) => Err(format!("{what} gives something")),
            (0, code) => Err(format!("{what} ended with exit code {code}")),
            (9, _) => Ok(()),
            (sig, _) => Err(format!("{what} was ended by signal {sig}")),
        }
    }
}

const FINDINGS: &str = include_str!("../../../known_findings.txt");
/// recorded, not repaired
fn known(site: &str) -> bool {
    let tag = format!("site={site} ");
    FINDINGS.lines().any(|l| l.starts_with("KNOWN-FINDING: property=C23 ") && l.contains(&tag))
}

fn misuse(case: &Case, cx: &mut Cx) -> R {
    type S = NodeStoreVec<String, String, Count>;
    let leaf = |n: usize, sides: usize| {
        let id = |b: bool| b.then(|| LeafNodeId::from_usize(7));
        let data = (0..n as u32).map(|x| (x, x as u64)).collect();
        Leaf { data, prev: id(sides & 1 == 1), next: id(sides & 2 == 2) }
    };
    let inner = |n: usize| Inner { keys: (0..n as u32).collect(), kids: (0..=n as u64).map(kid).collect() };
    let (lc, ic) = (LeafNode::<String, String>::max_capacity() as usize, InnerNode::<String, Count>::max_capacity() as usize);
    let mut r = Rng::new(case.param(1) as u64);
    for o in &case.ops {
        let n = o.ua() % (lc + 1);
        // the next one, one within the array, one outside, far outside
        let beyond = |n: usize, cap: usize| match o.d % 4 {
            0 => n,
            1 => n + o.ub() % (cap - n + 1),
            2 => cap + o.ub() % 1000,
            _ => usize::MAX - o.ub() % 3,
        };
        let at = beyond(n, lc);
        let away = match o.d % 3 {
            0 => 3,
            1 => 3 + o.ub() % 1000,
            _ => usize::MAX - o.ub() % 2,
        };
        // three leaves and inner nodes, the second of which is taken out
        let store = || {
            let mut s = S::new();
            let (mut l, mut i) = (vec![], vec![]);
            for n in [3, 64, 10] {
                let id = s.reserve_leaf();
                s.assign_leaf(id, leaf(n.min(lc), 0).of());
                l.push(id);
                i.push(s.add_inner(inner(n.min(ic)).of(|_| Count::default())));
            }
            let id = s.reserve_leaf();
            s.take_leaf(l[1]);
            s.take_inner(i[1]);
            (s, [l[1], id], i[1])
        };
        let site = o.c as usize - SP0 as usize + 10 * (o.ub() % 2);
        let full = format!("of a leaf with {n} entries");
        match site {
            0 => {
                let l = leaf(n, o.ub()).of::<String, String>();
                refuses(&format!("data_at({at}) {full}"), &mut || l.data_at(at).0.len() < 1 << 40)?;
                leaf(n, o.ub()).check(&l, &mut r, 100)?;
            }
            1 => {
                let mut l = leaf(n, o.ub()).of::<String, String>();
                refuses(&format!("value_at_mut({at}) {full}"), &mut || {
                    let v = l.value_at_mut(at);
                    *v = "new".into();
                    true
                })?;
                leaf(n, o.ub()).check(&l, &mut r, 100)?;
            }
            2 => {
                let n = o.ua() % (ic + 1);
                let i = inner(n).of::<String, Count>(|_| Count::default());
                let at = beyond(n, ic);
                refuses(&format!("key({at}) of an inner node with {n} keys"), &mut || i.key(at).len() < 1 << 40)?;
                inner(n).check(&i, &mut r, 100)?;
            }
            3 => {
                let mut i = inner(ic).of::<String, Count>(|_| Count::default());
                refuses("push to a full inner node", &mut || {
                    i.push("z".into(), kid(1), Count::default());
                    true
                })?;
            }
            4 => {
                // no entries, but neighbours
                let l = leaf(0, 1 + o.ub() % 3).of::<String, String>();
                refuses("in_range of an empty leaf", &mut || {
                    l.in_range("a");
                    false
                })?;
                refuses("key_range of an empty leaf", &mut || {
                    let (a, b) = l.key_range();
                    a.is_some_and(|k| k.len() < 1 << 40) || b.is_some_and(|k| k.len() < 1 << 40)
                })?;
            }
            5 => {
                let (mut s, gone, _) = store();
                let id = if o.d % 3 == 0 { gone[o.ub() % 2] } else { LeafNodeId::from_usize(away.saturating_add(1)) };
                refuses(&format!("take_leaf({id:?}), which is not there,"), &mut || s.take_leaf(id).len() < 1 << 40)?;
            }
            6 => {
                let (mut s, _, gone) = store();
                let id = if o.d % 3 == 0 { gone } else { InnerNodeId::from_usize(away) };
                refuses(&format!("take_inner({id:?}), which is not there,"), &mut || s.take_inner(id).len() < 1 << 40)?;
            }
            7 => {
                let (mut s, _, _) = store();
                let id = LeafNodeId::from_usize(away.saturating_add(1));
                refuses(&format!("assign_leaf({id:?}), never given,"), &mut || {
                    s.assign_leaf(id, leaf(1, 0).of());
                    s.get_leaf(id).len() == 1
                })?;
            }
            8 => {
                let (mut s, _, _) = store();
                let id = InnerNodeId::from_usize(away);
                refuses(&format!("put_back_inner({id:?}), never given,"), &mut || {
                    s.put_back_inner(id, inner(1).of(|_| Count::default()));
                    s.get_inner(id).len() == 1
                })?;
            }
            9 | 19 => {
                let (s, gone, _) = store();
                let id = if o.d % 3 == 0 { gone[o.ua() % 2] } else { LeafNodeId::from_usize(away.saturating_add(1)) };
                s.cache_leaf(id);
                refuses(&format!("the cache, told of {id:?},"), &mut || s.try_cache("key-0000001").is_some())?;
            }
            10 | 11 => {
                let name = ["get_leaf", "get_mut_leaf"][site - 10];
                if known(name) {
                    cx.label("recorded finding");
                    continue;
                }
                let (mut s, gone, _) = store();
                let id = if o.d % 3 == 0 { gone[o.ua() % 2] } else { LeafNodeId::from_usize(away.saturating_add(1)) };
                refuses(&format!("{name}({id:?}), which is not there,"), &mut || match site {
                    10 => s.get_leaf(id).len() < 1 << 40,
                    _ => s.get_mut_leaf(id).len() < 1 << 40,
                })?;
            }
            12 | 13 => {
                let name = ["get_inner", "get_mut_inner"][site - 12];
                if known(name) {
                    cx.label("recorded finding");
                    continue;
                }
                let (mut s, _, gone) = store();
                let id = if o.d % 3 == 0 { gone } else { InnerNodeId::from_usize(away) };
                refuses(&format!("{name}({id:?}), which is not there,"), &mut || match site {
                    12 => s.get_inner(id).len() < 1 << 40,
                    _ => s.get_mut_inner(id).len() < 1 << 40,
                })?;
            }
            _ => {
                let l = leaf(n, o.ub()).of::<String, String>();
                refuses(&format!("try_data_at({at}) {full}"), &mut || l.try_data_at(at).is_some())?;
                leaf(n, o.ub()).check(&l, &mut r, 100)?;
            }
        }
        cx.nontrivial();
        cx.steps += 1;
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C23";
    const RULE: &'static str = "Leaves (filled, refilled, linked, edited in place, cloned, swapped), inner nodes (built, extended, cloned, dropped, built from numbers that do not fit) and library node stores (nodes reserved, assigned, taken, put back, edited, noted in the cache, stores cloned) against models of their entries, children and slots, every accessor asked after every step; the leaf chain of generated trees read through the store; and, in child processes, positions and ids that do not exist. Non-trivial: a leaf with entries, an inner node, a reserved slot, a tree of several leaves, a refused access.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 15 } else { 1 };
        vec![
            stage("trees", 600 * f),
            stage("stores", 3000 * f),
            stage("leaves", 3000 * f),
            stage("inners", 1500 * f),
            stage("misuse", 300 * f),
        ]
    }
    fn gen(stage: &str, _idx: u64, r: &mut Rng) -> Case {
        let dom = r.pick(&[70, 130, 200, 1000, 20_000]);
        let n = match stage {
            "misuse" => 30,
            "stores" => r.skew(5, 150),
            _ => r.skew(2, 40),
        };
        let w: &[usize] = match stage {
            "leaves" => &[4, 3, 3, 2, 1],
            "inners" => &[4, 4, 2, 1, 1],
            "stores" => &[3, 4, 5, 4, 4, 4, 4, 3, 4, 1],
            "trees" => &[6, 4],
            _ => &[1; 10],
        };
        let ops = (0..n)
            .map(|_| {
                let c = r.weighted(w) as u8;
                let c = if stage == "trees" { [INS, DEL][c as usize] } else { SP0 + c };
                let (a, b, d) = (r.below(1 << 16), r.below(1 << 16), r.below(1 << 16));
                op(c, a, b, d)
            })
            .collect();
        Case { stage: stage.into(), params: vec![dom as i64, r.below(1 << 30) as i64, r.below(1000) as i64, r.below(7) as i64], ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        macro_rules! kinds {
            ($f:ident $(, $x:expr)?) => {
                match case.param(3) {
                    0 => $f::<u32, u64>(case, cx $(, $x & false)?),
                    1 => $f::<String, String>(case, cx $(, $x & false)?),
                    2 => $f::<Wide, [u64; 5]>(case, cx $(, $x & false)?),
                    3 => $f::<Al, AlV>(case, cx $(, $x & false)?),
                    4 => $f::<(u32, u32), ()>(case, cx $(, $x & false)?),
                    _ => $f::<KTok, VTok>(case, cx $(, $x)?),
                }
            };
        }
        match case.stage.as_str() {
            "leaves" => kinds!(leaves, true),
            "inners" => kinds!(inners, true),
            "stores" => kinds!(stores, true),
            "trees" => kinds!(trees),
            _ => misuse(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
