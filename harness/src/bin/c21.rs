//! C21: trees on node stores other than the library's own. The store hands
//! out ids as it likes, reuses them when it likes, and remembers whichever
//! leaf it likes; it also watches what it is asked for.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::*;
use harness::hist::Hist;
use harness::iterx::script;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::seg::Seg;
use harness::tok::{self, KTok, VTok};
use harness::*;
use std::marker::PhantomData;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, NodeStore};

/// what a store lets the check see
trait Audit {
    /// between two calls: nothing is half done. (leaves, inner nodes) held
    fn audit(&self) -> Result<Option<(usize, usize)>, String>;
}
impl<K: TKey, V: TVal, A: Augmentation<K, V>> Audit for sweep_bptree::NodeStoreVec<K, V, A> {
    fn audit(&self) -> Result<Option<(usize, usize)>, String> {
        Ok(None)
    }
}

#[cfg(feature = "store")]
mod strict {
    use super::*;
    use std::borrow::Borrow;
    use std::cell::{Cell, RefCell};
    use sweep_bptree::tree::{InnerNode, InnerNodeId, LeafNode, LeafNodeId};
    use sweep_bptree::NodeStoreVec;

    thread_local! {
        /// where the next store takes its habits from
        pub(super) static HABITS: RefCell<Rng> = RefCell::new(Rng::new(1));
        pub(super) static STORES: Cell<i64> = const { Cell::new(0) };
    }

    enum Slot<N> {
        Reserved,
        Gone,
        Here(Box<N>),
    }
    impl<N: Clone> Clone for Slot<N> {
        fn clone(&self) -> Self {
            match self {
                Slot::Reserved => Slot::Reserved,
                Slot::Gone => Slot::Gone,
                Slot::Here(n) => Slot::Here(n.clone()),
            }
        }
    }

    /// numbered slots, under names of the store's choosing
    #[derive(Clone)]
    struct Table<N> {
        slots: Vec<Slot<N>>,
        free: Vec<usize>,
        names: usize,
        salt: usize,
        reuse: usize,
        here: usize,
        reserved: usize,
        dice: u64,
    }
    const ODD: usize = 0x9E37_79B9_7F4A_7C15;
    fn inverse(a: usize) -> usize {
        let mut x = a;
        for _ in 0..6 {
            x = x.wrapping_mul(2usize.wrapping_sub(a.wrapping_mul(x)));
        }
        x
    }
    impl<N> Table<N> {
        fn new(r: &mut Rng, side: usize) -> Self {
            Table {
                slots: vec![],
                free: vec![],
                names: r.below(4) + 4 * side,
                salt: r.next() as usize,
                reuse: r.below(4),
                here: 0,
                reserved: 0,
                dice: r.next(),
            }
        }
        fn name(&self, i: usize) -> usize {
            match self.names % 4 {
                0 => i,
                1 => i.wrapping_mul(ODD) ^ self.salt,
                2 => (1 << 40) - i,
                _ => 2 * i + self.names / 4,
            }
        }
        fn slot(&self, name: usize) -> Option<usize> {
            let i = match self.names % 4 {
                0 => name,
                1 => (name ^ self.salt).wrapping_mul(inverse(ODD)),
                2 => (1usize << 40).wrapping_sub(name),
                _ if name % 2 != self.names / 4 => return None,
                _ => name / 2,
            };
            (i < self.slots.len()).then_some(i)
        }
        fn reserve(&mut self) -> usize {
            self.dice = rng::splitmix(self.dice);
            let n = self.free.len();
            let i = match self.reuse {
                1 if n > 0 => self.free.pop().unwrap(),
                2 if n > 0 => self.free.remove(0),
                3 if n > 0 && self.dice % 4 != 0 => self.free.swap_remove((self.dice >> 9) as usize % n),
                _ => {
                    self.slots.push(Slot::Gone);
                    self.slots.len() - 1
                }
            };
            self.slots[i] = Slot::Reserved;
            self.reserved += 1;
            self.name(i)
        }
        fn put(&mut self, name: usize, n: Box<N>, what: &str) {
            let Some(i) = self.slot(name) else { panic!("{what} on a name the store never gave") };
            match self.slots[i] {
                Slot::Reserved => self.reserved -= 1,
                Slot::Gone => self.free.retain(|f| *f != i),
                Slot::Here(_) => panic!("{what} on node {i}, which is there"),
            }
            self.here += 1;
            self.slots[i] = Slot::Here(n);
        }
        fn get(&self, name: usize) -> Option<&N> {
            match &self.slots[self.slot(name)?] {
                Slot::Here(n) => Some(n),
                _ => None,
            }
        }
        fn get_mut(&mut self, name: usize) -> Option<&mut N> {
            let i = self.slot(name)?;
            match &mut self.slots[i] {
                Slot::Here(n) => Some(n),
                _ => None,
            }
        }
        fn take(&mut self, name: usize, what: &str) -> Box<N> {
            let Some(i) = self.slot(name) else { panic!("{what} on a name the store never gave") };
            match std::mem::replace(&mut self.slots[i], Slot::Gone) {
                Slot::Here(n) => {
                    self.here -= 1;
                    if self.reuse != 0 {
                        self.free.push(i);
                    }
                    n
                }
                _ => panic!("{what} on node {i}, which is not there"),
            }
        }
    }

    pub(super) struct Strict<K: TKey, V: TVal, A: Augmentation<K, V>> {
        leaves: Table<LeafNode<K, V>>,
        inners: Table<InnerNode<K, A>>,
        memory: usize,
        /// leaves it was asked to remember, latest first
        recent: RefCell<Vec<usize>>,
        dice: Cell<u64>,
    }
    impl<K: TKey, V: TVal, A: Augmentation<K, V>> Default for Strict<K, V, A> {
        fn default() -> Self {
            STORES.with(|s| s.set(s.get() + 1));
            HABITS.with(|r| {
                let r = &mut *r.borrow_mut();
                Strict {
                    leaves: Table::new(r, 0),
                    inners: Table::new(r, 1),
                    memory: r.below(5),
                    recent: RefCell::new(vec![]),
                    dice: Cell::new(r.next()),
                }
            })
        }
    }
    impl<K: TKey, V: TVal, A: Augmentation<K, V>> Clone for Strict<K, V, A> {
        fn clone(&self) -> Self {
            STORES.with(|s| s.set(s.get() + 1));
            Strict {
                leaves: self.leaves.clone(),
                inners: self.inners.clone(),
                memory: self.memory,
                recent: self.recent.clone(),
                dice: self.dice.clone(),
            }
        }
    }
    impl<K: TKey, V: TVal, A: Augmentation<K, V>> Drop for Strict<K, V, A> {
        fn drop(&mut self) {
            STORES.with(|s| s.set(s.get() - 1));
        }
    }
    impl<K: TKey, V: TVal, A: Augmentation<K, V>> Audit for Strict<K, V, A> {
        fn audit(&self) -> Result<Option<(usize, usize)>, String> {
            ensure!(
                self.leaves.reserved + self.inners.reserved == 0,
                "after the call {} reserved leaves were not assigned",
                self.leaves.reserved
            );
            Ok(Some((self.leaves.here, self.inners.here)))
        }
    }
    type L<K, V> = LeafNode<K, V>;
    type I<K, A> = InnerNode<K, A>;
    impl<K: TKey, V: TVal, A: Augmentation<K, V>> NodeStore for Strict<K, V, A> {
        type K = K;
        type V = V;
        type Augmentation = A;
        fn inner_n() -> u16 {
            <NodeStoreVec<K, V, A> as NodeStore>::inner_n()
        }
        fn leaf_n() -> u16 {
            <NodeStoreVec<K, V, A> as NodeStore>::leaf_n()
        }
        fn add_inner(&mut self, node: Box<I<K, A>>) -> InnerNodeId {
            let n = self.inners.reserve();
            self.inners.put(n, node, "add_inner");
            InnerNodeId::from_usize(n)
        }
        fn get_inner(&self, id: InnerNodeId) -> &I<K, A> {
            self.inners.get(id.as_usize()).expect("get_inner of a node that is not there")
        }
        fn try_get_inner(&self, id: InnerNodeId) -> Option<&I<K, A>> {
            self.inners.get(id.as_usize())
        }
        fn get_mut_inner(&mut self, id: InnerNodeId) -> &mut I<K, A> {
            self.inners.get_mut(id.as_usize()).expect("get_mut_inner of a node that is not there")
        }
        unsafe fn get_mut_inner_ptr(&mut self, id: InnerNodeId) -> *mut I<K, A> {
            self.inners.get_mut(id.as_usize()).expect("get_mut_inner_ptr of a node that is not there") as *mut _
        }
        fn take_inner(&mut self, id: InnerNodeId) -> Box<I<K, A>> {
            self.inners.take(id.as_usize(), "take_inner")
        }
        fn put_back_inner(&mut self, id: InnerNodeId, node: Box<I<K, A>>) {
            self.inners.put(id.as_usize(), node, "put_back_inner")
        }
        fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut L<K, V>) {
            let n = self.leaves.reserve();
            self.leaves.put(n, LeafNode::new(), "new_empty_leaf");
            (LeafNodeId::from_usize(n), self.leaves.get_mut(n).unwrap())
        }
        fn reserve_leaf(&mut self) -> LeafNodeId {
            LeafNodeId::from_usize(self.leaves.reserve())
        }
        fn get_leaf(&self, id: LeafNodeId) -> &L<K, V> {
            self.leaves.get(id.as_usize()).expect("get_leaf of a leaf that is not there")
        }
        fn try_get_leaf(&self, id: LeafNodeId) -> Option<&L<K, V>> {
            self.leaves.get(id.as_usize())
        }
        fn get_mut_leaf(&mut self, id: LeafNodeId) -> &mut L<K, V> {
            self.leaves.get_mut(id.as_usize()).expect("get_mut_leaf of a leaf that is not there")
        }
        fn take_leaf(&mut self, id: LeafNodeId) -> Box<L<K, V>> {
            self.leaves.take(id.as_usize(), "take_leaf")
        }
        fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<L<K, V>>) {
            self.leaves.put(id.as_usize(), leaf, "assign_leaf")
        }
        fn cache_leaf(&self, id: LeafNodeId) {
            let mut r = self.recent.borrow_mut();
            r.insert(0, id.as_usize());
            r.truncate(6);
        }
        fn try_cache<Q>(&self, k: &Q) -> Option<LeafNodeId>
        where
            Q: ?Sized + Ord,
            K: Borrow<Q>,
        {
            let fits = |n: &usize| self.leaves.get(*n).is_some_and(|l| l.in_range(k));
            let roll = |n: usize| {
                self.dice.set(rng::splitmix(self.dice.get()));
                (self.dice.get() >> 7) as usize % n
            };
            let r = self.recent.borrow();
            let n = match self.memory {
                // remembers nothing
                0 => None,
                // the latest
                1 => r.iter().take(1).find(|n| fits(n)).copied(),
                // any of the latest
                2 => r.iter().rev().find(|n| fits(n)).copied(),
                // whatever leaf fits, now and then
                3 => {
                    let all = self.leaves.slots.len();
                    (0..5).map(|_| self.leaves.name(roll(all))).find(|n| fits(n))
                }
                _ => {
                    let all = self.leaves.slots.len();
                    let from = roll(all);
                    (0..all.min(80)).map(|i| self.leaves.name((from + i) % all)).find(|n| fits(n))
                }
            };
            n.map(LeafNodeId::from_usize)
        }
    }
    pub(super) type Store<K, V, A> = Strict<K, V, A>;
    pub(super) fn habits(seed: u64) {
        HABITS.with(|h| *h.borrow_mut() = Rng::new(seed));
        STORES.with(|s| s.set(0));
    }
    pub(super) fn stores() -> i64 {
        STORES.with(|s| s.get())
    }
}
#[cfg(not(feature = "store"))]
mod strict {
    pub(super) type Store<K, V, A> = sweep_bptree::NodeStoreVec<K, V, A>;
    pub(super) fn habits(_: u64) {}
    pub(super) fn stores() -> i64 {
        0
    }
}
use strict::Store;

/// the node at the end of a path: number of children, or none
struct Shape<'a>(&'a [usize], usize);
impl<'a, K, V, A> DescendVisit<K, V, A> for Shape<'a> {
    type Result = usize;
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<usize> {
        if self.1 == self.0.len() {
            return DescendVisitResult::Complete(a.len());
        }
        self.1 += 1;
        DescendVisitResult::GoDown(self.0[self.1 - 1])
    }
    fn visit_leaf(&mut self, _: &[K], _: &[V]) -> Option<usize> {
        Some(0)
    }
}

type T<K, V, A> = BPlusTree<Store<K, V, A>>;

struct S<K: TKey, V: TVal + Vid, A: Known<K, V>> {
    core: Core<K, V, T<K, V, A>>,
    cursors: Vec<(Cursor<K>, u32)>,
    /// a copy from some time ago, with what it holds
    copy: Option<(T<K, V, A>, Model)>,
    removed: u64,
    _p: PhantomData<V>,
}

impl<K: TKey, V: TVal + Vid, A: Known<K, V>> S<K, V, A> {
    fn quiet(&self) -> R {
        self.core.d.node_store().audit()?;
        if let Some(e) = tok::error() {
            return Err(e);
        }
        Ok(())
    }
    fn nodes(d: &T<K, V, A>) -> Result<(usize, usize), String> {
        fn down<K: TKey, V: TVal + Vid, A: Known<K, V>>(
            d: &T<K, V, A>,
            path: &mut Vec<usize>,
            n: &mut (usize, usize),
        ) -> R {
            ensure!(path.len() < 24, "the tree is deeper than 24 levels");
            match d.descend_visit(Shape(path, 0)) {
                None => return Err(format!("the visit of path {path:?} gave nothing")),
                Some(0) => n.0 += 1,
                Some(c) => {
                    n.1 += 1;
                    for i in 0..c {
                        path.push(i);
                        down(d, path, n)?;
                        path.pop();
                    }
                }
            }
            Ok(())
        }
        let mut n = (0, 0);
        down(d, &mut vec![], &mut n)?;
        Ok(n)
    }
    /// the store holds the nodes of the tree and no others
    fn exact(d: &T<K, V, A>) -> R {
        let Some((leaves, inners)) = d.node_store().audit()? else { return Ok(()) };
        if d.is_empty() {
            ensure!(leaves <= 1 && inners == 0, "{leaves} leaves and {inners} inner nodes are held for an empty tree");
            return Ok(());
        }
        let n = Self::nodes(d)?;
        ensure!(
            n == (leaves, inners),
            "the tree consists of {} leaves and {} inner nodes, the store was left with {leaves} and {inners}",
            n.0,
            n.1
        );
        Ok(())
    }
    fn whole(d: &T<K, V, A>, m: &Model, rng: &mut Rng) -> R {
        let want = m.entries();
        let ok = |k: &K, v: &V, i: usize| want[i].0 == k.ix() && v.is(want[i].1);
        script(d.iter(), want.len(), usize::MAX, rng, &|x, i| ok(x.0, x.1, i), None)?;
        for _ in 0..3 {
            let i = rng.below(want.len() + 2);
            match d.get_by_augmentation(i) {
                None => ensure!(i >= want.len(), "position {i} of {} gave nothing", want.len()),
                Some((k, v)) => ensure!(i < want.len() && ok(k, v, i), "position {i} gave {k:?} {v:?}"),
            }
        }
        if want.len() < 4000 {
            let sum = A::of_model(m, &Seg::from(m.dom(), &m_entries::<V>(m)));
            ensure!(
                BPlusTree::root_augmentation(d).same(&sum),
                "the summary is {:?}, should be {sum:?}",
                BPlusTree::root_augmentation(d)
            );
        }
        Self::exact(d)
    }
    fn cursor(&self, c: &Cursor<K>, x: u32, m: &Model) -> R {
        let d = &self.core.d;
        Core::<K, V, T<K, V, A>>::same(c.value(d), m.get(x), "cursor value", x)?;
        ensure!(c.exists(d) == m.get(x).is_some(), "exists() of the cursor on key {x} is wrong");
        for (got, want, what) in [
            (c.next_with_value(d), m.succ(x), "next"),
            (c.prev_with_value(d), m.pred(x), "prev"),
        ] {
            match (&got, want) {
                (None, None) => {}
                (Some((n, v)), Some(y)) if n.key().ix() == y && v.is(m.get(y).unwrap()) => {}
                _ => {
                    return Err(format!(
                        "{what} of the cursor on key {x} is {:?}, should be key {want:?}",
                        got.map(|g| g.0.key().ix())
                    ))
                }
            }
        }
        Ok(())
    }
}
fn m_entries<V: Vid>(m: &Model) -> Vec<(u32, u64)> {
    m.entries().into_iter().map(|(x, v)| (x, V::norm(v))).collect()
}

impl<K: TKey, V: TVal + Vid, A: Known<K, V>> Sink for S<K, V, A> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.insert(m, x, vid)?;
        self.quiet()
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.removed += m.get(x).is_some() as u64;
        self.core.remove(m, x)?;
        self.quiet()
    }
    fn clear(&mut self, m: &Model) -> R {
        self.core.clear(m)?;
        self.quiet()
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)?;
        self.quiet()
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)?;
        let x = Hist::interesting(m, last, rng);
        for i in 0..self.cursors.len() {
            if rng.below(3) == 0 {
                let (c, x) = &self.cursors[i];
                self.cursor(c, *x, m)?;
            }
        }
        if let Some((c, _)) = self.core.d.get_cursor(&K::of(x)) {
            if self.cursors.len() > 5 {
                let i = rng.below(6);
                self.cursors.swap_remove(i);
            }
            self.cursors.push((c, x));
        }
        if m.len() < 700 {
            Self::exact(&self.core.d)?;
        }
        self.quiet()
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)?;
        Self::whole(&self.core.d, m, rng)?;
        for (c, x) in &self.cursors {
            self.cursor(c, *x, m)?;
        }
        if let Some((d, m)) = &self.copy {
            Self::whole(d, m, rng).map_err(|e| format!("in a copy: {e}"))?;
        }
        self.quiet()
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        match o.c {
            // removals by position
            SP0 => {
                let n = 1 + o.ub() % 200;
                let spread = o.ud() % 3;
                for _ in 0..n {
                    if h.m.is_empty() {
                        break;
                    }
                    let i = match spread {
                        0 => o.ua() % h.m.len(),
                        1 => h.rng.below(h.m.len()),
                        _ => h.m.len() - 1 - h.rng.below(h.m.len().min(9)),
                    };
                    let x = h.m.select(i).unwrap();
                    match self.core.d.remove_by_augmentation(i) {
                        Some((k, v)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
                        r => return Err(format!("removal of position {i} gave {r:?}, should be key {x}")),
                    }
                    self.removed += 1;
                    h.m.remove(x);
                    h.last = x;
                    self.quiet()?;
                }
                let past = self.core.d.remove_by_augmentation(h.m.len());
                ensure!(past.is_none(), "removal of a position that is not there gave {past:?}");
                self.core.len(h.m.len())
            }
            // take a copy, or go on with the one there is
            SP1 => {
                let m = h.m.clone();
                match self.copy.take() {
                    Some((d, cm)) if o.ud() % 2 == 0 => {
                        let old = std::mem::replace(&mut self.core.d, d);
                        self.copy = Some((old, m));
                        h.m = cm;
                    }
                    _ => {
                        let d = self.core.d.clone();
                        Self::whole(&d, &m, &mut h.rng).map_err(|e| format!("right after cloning: {e}"))?;
                        self.copy = Some((d, m));
                    }
                }
                self.core.len(h.m.len())
            }
            // consume a copy
            _ => {
                let d = self.core.d.clone();
                let want = h.m.entries();
                let seed = h.rng.next();
                script(
                    d.into_iter(),
                    want.len(),
                    usize::MAX,
                    &mut Rng::new(seed),
                    &|x, i| want[i].0 == x.0.ix() && x.1.is(want[i].1),
                    None,
                )?;
                self.quiet()
            }
        }
    }
}

fn go<K: TKey, V: TVal + Vid, A: Known<K, V>>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    strict::habits(case.param(1) as u64 ^ 0x51);
    let mut s: S<K, V, A> =
        S { core: Core::new(Dict::new()), cursors: vec![], copy: None, removed: 0, _p: PhantomData };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(case.param(1) as u64))?;
    let removed = s.removed;
    drop(s);
    if let Some(e) = tok::error() {
        return Err(e);
    }
    ensure!(strict::stores() == 0, "{} stores are left after the trees are gone", strict::stores());
    for (kind, what) in ["keys", "values"].iter().enumerate() {
        ensure!(tok::live(kind) == 0, "{} {what} are left after the trees are gone", tok::live(kind));
    }
    if h.max_n > 64 && removed > 0 {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C21";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on trees whose node stores are not the library's: four ways of naming nodes (for leaves and inner nodes apart), four of reusing names, five of remembering leaves (none, the latest, any of the last six, any that fits), drawn anew for every tree, rebuild and clear. Results, iteration both ways, cursors of any age, positions, summaries, copies and consumption against the model; each node asked for must be there, each reserved leaf assigned, and the nodes left in the store after a call are as many as a visitor can reach. Non-trivial: more than one leaf (>64 entries) and removals.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 2, classes(tier, 16000, 8000, 6000, 2400, 1000, 16))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 6,
                specials: &[(SP0, 8), (SP1, 5), (SP2, 5)],
                touch: false,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Fold>(case, cx),
            1 => go::<String, String, HeapFold>(case, cx),
            2 if case.params[0] < 3000 => go::<u64, u64, List>(case, cx),
            3 | 4 if case.params[0] < 20_000 => go::<KTok, VTok, Fold>(case, cx),
            5 => go::<u64, (), Fold>(case, cx),
            _ => go::<Wide, [u64; 5], Fold>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
