//! Keys, values, summaries and a node store that count what is done with them (C17, C28).

use crate::kinds::*;
use std::cell::Cell;
use std::cmp::Ordering;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::Key;

thread_local! {
    pub static CMPS: Cell<u64> = const { Cell::new(0) };
    pub static SUMS: Cell<u64> = const { Cell::new(0) };
    pub static NODES: Cell<u64> = const { Cell::new(0) };
    /// copies of keys, of values
    pub static KEYS: Cell<u64> = const { Cell::new(0) };
    pub static VALS: Cell<u64> = const { Cell::new(0) };
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1));
}

/// what was counted: comparisons, summaries, node visits, copies of keys, of values
pub fn counts() -> [u64; 5] {
    [CMPS.get(), SUMS.get(), NODES.get(), KEYS.get(), VALS.get()]
}

/// a key that counts how often it is compared and copied
#[derive(Debug)]
pub struct CKey(pub u32);
impl Clone for CKey {
    fn clone(&self) -> Self {
        bump(&KEYS);
        CKey(self.0)
    }
}
/// a value that counts how often it is copied
#[derive(Debug)]
pub struct CVal(pub u64);
impl Clone for CVal {
    fn clone(&self) -> Self {
        bump(&VALS);
        CVal(self.0)
    }
}
impl PartialEq for CKey {
    fn eq(&self, o: &Self) -> bool {
        bump(&CMPS);
        self.0 == o.0
    }
}
impl Eq for CKey {}
impl PartialOrd for CKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CKey {
    fn cmp(&self, o: &Self) -> Ordering {
        bump(&CMPS);
        self.0.cmp(&o.0)
    }
}
impl TKey for CKey {
    type Q = CKey;
    fn of(x: u32) -> Self {
        CKey(x)
    }
    fn ix(&self) -> u32 {
        self.0
    }
}

/// a count that counts how often it is computed, and from how many entries it is
#[derive(Clone, Debug, Default)]
pub struct CSum(pub usize);
impl<K: Key, V> Augmentation<K, V> for CSum {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        bump(&SUMS);
        CSum(a.iter().map(|x| x.0).sum())
    }
    fn from_leaf(keys: &[K], _: &[V]) -> Self {
        bump(&SUMS);
        CSum(keys.len())
    }
}
impl<K: Key, V> SearchAugmentation<K, V> for CSum {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
        (q < keys.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _: &[K], a: &[Self]) -> Option<(usize, usize)> {
        for (i, x) in a.iter().enumerate() {
            if q < x.0 {
                return Some((i, q));
            }
            q -= x.0;
        }
        None
    }
}
impl<K: Key, V> RankAugmentation<K, V> for CSum {
    type Rank = usize;
    fn initial_value() -> usize {
        0
    }
    fn fold_inner(_: &K, r: usize, a: &[Self]) -> usize {
        r + a.iter().map(|x| x.0).sum::<usize>()
    }
    fn fold_leaf(_: &K, r: usize, s: Result<usize, usize>, _: &[K]) -> Result<usize, usize> {
        s.map(|s| r + s).map_err(|s| r + s)
    }
}

/// a node store that counts the nodes it is asked for
#[cfg(feature = "store")]
pub mod store {
    use super::*;
    use std::borrow::Borrow;
    use sweep_bptree::tree::{InnerNode, InnerNodeId, LeafNode, LeafNodeId};
    use sweep_bptree::{NodeStore, NodeStoreVec};

    pub struct Counting<V, A: Augmentation<CKey, V>>(NodeStoreVec<CKey, V, A>);
    impl<V, A: Augmentation<CKey, V>> Default for Counting<V, A> {
        fn default() -> Self {
            Counting(NodeStoreVec::new())
        }
    }
    impl<V: Clone, A: Augmentation<CKey, V>> Clone for Counting<V, A> {
        fn clone(&self) -> Self {
            Counting(self.0.clone())
        }
    }
    type L<V> = LeafNode<CKey, V>;
    type I<A> = InnerNode<CKey, A>;
    type St<V, A> = NodeStoreVec<CKey, V, A>;
    impl<V, A: Augmentation<CKey, V>> NodeStore for Counting<V, A> {
        type K = CKey;
        type V = V;
        type Augmentation = A;
        fn inner_n() -> u16 {
            <St<V, A> as NodeStore>::inner_n()
        }
        fn leaf_n() -> u16 {
            <St<V, A> as NodeStore>::leaf_n()
        }
        fn add_inner(&mut self, node: Box<I<A>>) -> InnerNodeId {
            bump(&NODES);
            self.0.add_inner(node)
        }
        fn get_inner(&self, id: InnerNodeId) -> &I<A> {
            bump(&NODES);
            self.0.get_inner(id)
        }
        fn try_get_inner(&self, id: InnerNodeId) -> Option<&I<A>> {
            bump(&NODES);
            self.0.try_get_inner(id)
        }
        fn get_mut_inner(&mut self, id: InnerNodeId) -> &mut I<A> {
            bump(&NODES);
            self.0.get_mut_inner(id)
        }
        unsafe fn get_mut_inner_ptr(&mut self, id: InnerNodeId) -> *mut I<A> {
            bump(&NODES);
            unsafe { self.0.get_mut_inner_ptr(id) }
        }
        fn take_inner(&mut self, id: InnerNodeId) -> Box<I<A>> {
            bump(&NODES);
            self.0.take_inner(id)
        }
        fn put_back_inner(&mut self, id: InnerNodeId, node: Box<I<A>>) {
            bump(&NODES);
            self.0.put_back_inner(id, node)
        }
        fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut L<V>) {
            bump(&NODES);
            self.0.new_empty_leaf()
        }
        fn reserve_leaf(&mut self) -> LeafNodeId {
            bump(&NODES);
            self.0.reserve_leaf()
        }
        fn get_leaf(&self, id: LeafNodeId) -> &L<V> {
            bump(&NODES);
            self.0.get_leaf(id)
        }
        fn try_get_leaf(&self, id: LeafNodeId) -> Option<&L<V>> {
            bump(&NODES);
            self.0.try_get_leaf(id)
        }
        fn get_mut_leaf(&mut self, id: LeafNodeId) -> &mut L<V> {
            bump(&NODES);
            self.0.get_mut_leaf(id)
        }
        fn take_leaf(&mut self, id: LeafNodeId) -> Box<L<V>> {
            bump(&NODES);
            self.0.take_leaf(id)
        }
        fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<L<V>>) {
            bump(&NODES);
            self.0.assign_leaf(id, leaf)
        }
        fn cache_leaf(&self, leaf_id: LeafNodeId) {
            self.0.cache_leaf(leaf_id)
        }
        fn try_cache<Q>(&self, k: &Q) -> Option<LeafNodeId>
        where
            Q: ?Sized + Ord,
            CKey: Borrow<Q>,
        {
            bump(&NODES);
            self.0.try_cache(k)
        }
    }
}
