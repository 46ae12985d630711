//! The map-like front ends behind one interface, plus a checked tree wrapper.

use crate::kinds::{TKey, TVal};
use sweep_bptree::augment::Augmentation;
use sweep_bptree::{BPlusTreeMap, NodeStore};

pub trait Dict<K: TKey, V: TVal>: Sized {
    fn new() -> Self;
    fn bulk(items: Vec<(K, V)>, mode: usize) -> Self;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_q(&self, k: &K::Q) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn get_mut_q(&mut self, k: &K::Q) -> Option<&mut V>;
    fn remove(&mut self, k: &K) -> Option<V>;
    fn remove_q(&mut self, k: &K::Q) -> Option<V>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn first(&self) -> Option<(&K, &V)>;
    fn last(&self) -> Option<(&K, &V)>;
    fn clear(&mut self);
    fn walk(&self, f: &mut dyn FnMut(&K, &V) -> bool);
}

/// Shuffle deterministically, for the collecting constructors.
pub fn scramble<T>(v: &mut [T], seed: usize) {
    let mut r = crate::Rng::new(seed as u64 * 77 + 5);
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}

impl<K: TKey, V: TVal, S: NodeStore<K = K, V = V>> Dict<K, V> for sweep_bptree::BPlusTree<S> {
    fn new() -> Self {
        sweep_bptree::BPlusTree::new(S::default())
    }
    fn bulk(items: Vec<(K, V)>, _mode: usize) -> Self {
        sweep_bptree::BPlusTree::bulk_load(items)
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        sweep_bptree::BPlusTree::insert(self, k, v)
    }
    fn get(&self, k: &K) -> Option<&V> {
        sweep_bptree::BPlusTree::get::<K>(self, k)
    }
    fn get_q(&self, k: &K::Q) -> Option<&V> {
        sweep_bptree::BPlusTree::get::<K::Q>(self, k)
    }
    fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        sweep_bptree::BPlusTree::get_mut::<K>(self, k)
    }
    fn get_mut_q(&mut self, k: &K::Q) -> Option<&mut V> {
        sweep_bptree::BPlusTree::get_mut::<K::Q>(self, k)
    }
    fn remove(&mut self, k: &K) -> Option<V> {
        sweep_bptree::BPlusTree::remove::<K>(self, k)
    }
    fn remove_q(&mut self, k: &K::Q) -> Option<V> {
        sweep_bptree::BPlusTree::remove::<K::Q>(self, k)
    }
    fn len(&self) -> usize {
        sweep_bptree::BPlusTree::len(self)
    }
    fn is_empty(&self) -> bool {
        sweep_bptree::BPlusTree::is_empty(self)
    }
    fn first(&self) -> Option<(&K, &V)> {
        sweep_bptree::BPlusTree::first(self)
    }
    fn last(&self) -> Option<(&K, &V)> {
        sweep_bptree::BPlusTree::last(self)
    }
    fn clear(&mut self) {
        sweep_bptree::BPlusTree::clear(self)
    }
    fn walk(&self, f: &mut dyn FnMut(&K, &V) -> bool) {
        for (k, v) in self.iter() {
            if !f(k, v) {
                break;
            }
        }
    }
}

impl<K: TKey, V: TVal, A: Augmentation<K, V>> Dict<K, V> for BPlusTreeMap<K, V, A> {
    fn new() -> Self {
        BPlusTreeMap::new()
    }
    fn bulk(mut items: Vec<(K, V)>, mode: usize) -> Self {
        match mode & 3 {
            0 => {}
            1 => items.reverse(),
            m => scramble(&mut items, m + mode),
        }
        items.into_iter().collect()
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        BPlusTreeMap::insert(self, k, v)
    }
    fn get(&self, k: &K) -> Option<&V> {
        BPlusTreeMap::get::<K>(self, k)
    }
    fn get_q(&self, k: &K::Q) -> Option<&V> {
        BPlusTreeMap::get::<K::Q>(self, k)
    }
    fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        BPlusTreeMap::get_mut::<K>(self, k)
    }
    fn get_mut_q(&mut self, k: &K::Q) -> Option<&mut V> {
        BPlusTreeMap::get_mut::<K::Q>(self, k)
    }
    fn remove(&mut self, k: &K) -> Option<V> {
        BPlusTreeMap::remove::<K>(self, k)
    }
    fn remove_q(&mut self, k: &K::Q) -> Option<V> {
        BPlusTreeMap::remove::<K::Q>(self, k)
    }
    fn len(&self) -> usize {
        BPlusTreeMap::len(self)
    }
    fn is_empty(&self) -> bool {
        BPlusTreeMap::is_empty(self)
    }
    fn first(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    fn last(&self) -> Option<(&K, &V)> {
        self.iter().next_back()
    }
    fn clear(&mut self) {
        // the map has no clear of its own
        *self = Default::default();
    }
    fn walk(&self, f: &mut dyn FnMut(&K, &V) -> bool) {
        for (k, v) in self.iter() {
            if !f(k, v) {
                break;
            }
        }
    }
}

/// The set, seen as a dictionary without values.
impl<K: TKey> Dict<K, ()> for sweep_bptree::BPlusTreeSet<K> {
    fn new() -> Self {
        sweep_bptree::BPlusTreeSet::new()
    }
    fn bulk(items: Vec<(K, ())>, mode: usize) -> Self {
        let mut ks: Vec<K> = items.into_iter().map(|x| x.0).collect();
        match mode & 3 {
            0 => {}
            1 => ks.reverse(),
            m => scramble(&mut ks, m + mode),
        }
        ks.into_iter().collect()
    }
    fn insert(&mut self, k: K, _v: ()) -> Option<()> {
        if sweep_bptree::BPlusTreeSet::insert(self, k) {
            None
        } else {
            Some(())
        }
    }
    fn get(&self, k: &K) -> Option<&()> {
        self.contains::<K>(k).then_some(&())
    }
    fn get_q(&self, k: &K::Q) -> Option<&()> {
        self.contains::<K::Q>(k).then_some(&())
    }
    fn get_mut(&mut self, k: &K) -> Option<&mut ()> {
        self.contains::<K>(k).then(|| Box::leak(Box::new(())))
    }
    fn get_mut_q(&mut self, k: &K::Q) -> Option<&mut ()> {
        self.contains::<K::Q>(k).then(|| Box::leak(Box::new(())))
    }
    fn remove(&mut self, k: &K) -> Option<()> {
        sweep_bptree::BPlusTreeSet::remove::<K>(self, k).then_some(())
    }
    fn remove_q(&mut self, k: &K::Q) -> Option<()> {
        sweep_bptree::BPlusTreeSet::remove::<K::Q>(self, k).then_some(())
    }
    fn len(&self) -> usize {
        sweep_bptree::BPlusTreeSet::len(self)
    }
    fn is_empty(&self) -> bool {
        sweep_bptree::BPlusTreeSet::is_empty(self)
    }
    fn first(&self) -> Option<(&K, &())> {
        sweep_bptree::BPlusTreeSet::first(self).map(|k| (k, &()))
    }
    fn last(&self) -> Option<(&K, &())> {
        sweep_bptree::BPlusTreeSet::last(self).map(|k| (k, &()))
    }
    fn clear(&mut self) {
        sweep_bptree::BPlusTreeSet::clear(self)
    }
    fn walk(&self, f: &mut dyn FnMut(&K, &()) -> bool) {
        for k in self.iter() {
            if !f(k, &()) {
                break;
            }
        }
    }
}
