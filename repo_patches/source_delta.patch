From dfa3c8d1153c0092a937805377b8b04de719c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 01/17] fix: count entries taken from the back in
 Iter::next_back

---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From 1d7550e94280609eaf1337edc6beb530d03297fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 02/17] fix: first/last cursor of an empty tree is None

---
 src/tree/cursor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..92a7aa1 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,7 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,13 +63,14 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        let offset = leaf.len().checked_sub(1)?;
+        let kv = leaf.data_at(offset);
 
         Some((
             Self {
                 k: kv.0.clone(),
                 leaf_id_hint: leaf_id,
-                offset_hint: leaf.len() - 1,
+                offset_hint: offset,
             },
             kv.1,
         ))
-- 
2.43.0


From cfa2b8511ef2509844c5e3f52549688e94e0b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 03/17] fix: restart the group item count in
 GroupCount::from_leaf for each new group

---
 src/augment/group.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..729f027 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,8 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                // a new group starts with one item, whatever the previous one counted to
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From 56fb9d2af3e1fefa513240d147bd3d5bdd6565b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 04/17] fix: keep the accumulated rank in
 GroupCount::fold_inner when no sibling precedes

---
 src/augment/group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index 729f027..b4455e7 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -292,9 +292,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
-
-        let (max_group, mut max_group_size) = last_augmentation.max_group()?;
+        let (max_group, mut max_group_size) = match rev_iter.next().and_then(|a| a.max_group()) {
+            Some(max) => max,
+            // nothing precedes the key in this node, keep the rank found so far
+            None => return rank,
+        };
 
         for a in rev_iter {
             match a.max_group() {
-- 
2.43.0


From 91d67d44d0b26836ef49eefe54e76242bbdbb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 05/17] fix: refuse out of range positions returned by a
 SearchAugmentation

---
 src/tree/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..c123bac 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -683,6 +683,7 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    assert!(offset <= inner.len(), "invalid index");
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -695,6 +696,7 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    assert!(slot < leaf.len(), "invalid slot");
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0


From 1ffea73350b616101b5bcc5aa7a9a484a740653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 06/17] fix: do not drop the moved augmentation of a merged
 inner node

---
 src/tree/inner_node.rs  | 10 ++++++++--
 src/tree/tree_remove.rs |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..1963671 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -418,7 +418,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         }
     }
 
-    pub(crate) fn merge_next(&mut self, slot_key: K, right: &mut Self) {
+    /// Move `slot_key` and everything in `right` to the end of `self`
+    pub(crate) fn merge_next(&mut self, slot_key: K, mut right: Box<Self>) {
         unsafe {
             *self.key_area_mut(self.size as usize) = MaybeUninit::new(slot_key);
             self.size += 1;
@@ -441,7 +442,12 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
                 self.augmentation_area_mut(self_size..self_size + right_size + 1),
             );
             self.size += right.size;
-            right.size = 0;
+
+            // all keys and augmentations are moved to self, so only free the memory of `right`,
+            // its drop would release the first augmentation again.
+            drop(Box::from_raw(
+                Box::into_raw(right).cast::<MaybeUninit<Self>>(),
+            ));
         }
     }
 
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..4a1b523 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -319,9 +319,9 @@ impl<S: NodeStore> BPlusTree<S> {
         let (result, slot_key) = node.remove_slot_with_right(slot);
 
         // merge right into left
-        let mut right = node_store.take_inner(right_child_id);
+        let right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
-        left.merge_next(slot_key, &mut right);
+        left.merge_next(slot_key, right);
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From f30ee4748b1b03d154f8a54c5e04c87eebd77811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 07/17] fix: release the root augmentation when a tree is
 turned into an iterator

---
 src/tree/iterator.rs | 10 ++++++++++
 src/tree/mod.rs      | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index 8474416..19d7668 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -133,6 +133,16 @@ impl<S: NodeStore> IntoIter<S> {
 
         let (node_store, _root_id, len) = tree.into_parts();
 
+        Self::from_parts(node_store, len, first_leaf_id, last_leaf_id)
+    }
+
+    /// Create from the parts of a tree
+    pub(super) fn from_parts(
+        node_store: S,
+        len: usize,
+        first_leaf_id: LeafNodeId,
+        last_leaf_id: LeafNodeId,
+    ) -> Self {
         let last_leaf_size = node_store.get_leaf(last_leaf_id).len();
 
         Self {
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index c123bac..39a00d0 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -199,6 +199,8 @@ where
     /// consume self and return the parts. This is useful when implementing `IntoIter`
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
+        // Safety: `me` is never dropped, and `root_augmentation` is not used after this
+        unsafe { std::ptr::drop_in_place(&mut me.root_augmentation) };
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
@@ -819,7 +821,19 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        // the tree ensures there is at least one leaf
+        let first_leaf_id = self.first_leaf().unwrap();
+        let last_leaf_id = self.last_leaf().unwrap();
+
+        // Safety: self is going away, the node_store is not used after this. The other fields are
+        //         dropped by the compiler.
+        let node_store = unsafe { ManuallyDrop::take(&mut self.node_store) };
+        drop(IntoIter::from_parts(
+            node_store,
+            self.len,
+            first_leaf_id,
+            last_leaf_id,
+        ));
     }
 }
 
-- 
2.43.0


From f2ba3e20c662d5eba6bc42adbb6f646759c721ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 08/17] fix: bulk load never creates an inner node with a
 single child

---
 src/tree/bulk_load.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..2c618de 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,21 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut remaining = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
-        for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+        while !remaining.is_empty() {
+            // an inner node has at least two children, so do not leave a single one for the last
+            let chunk_len = if remaining.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                remaining.len().min(child_n)
+            };
+            let (childs, rest) = remaining.split_at(chunk_len);
+            remaining = rest;
+
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From 9d1fd422d9c125f048070f162f6923bdab3a2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 09/17] fix: do not drop a partially built inner node

---
 src/tree/inner_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 1963671..d9a4d56 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -134,7 +134,9 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // the node is not valid until all is filled in, it must not be dropped if one of the
+        // iterators panics.
+        let mut node = mem::ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +161,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        mem::ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0


From 5b48f0489559e2cdb86213f1d75e5fb045ced8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 10/17] fix: clone separator keys before changing the tree

---
 src/tree/mod.rs         | 10 +++++++++-
 src/tree/tree_remove.rs |  8 ++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 39a00d0..c6864a0 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -319,11 +319,19 @@ where
             }
             LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
             LeafUpsertResult::IsFull(idx, k, v) => {
+                // clone the slot key, which is the first key of the new leaf, before anything is
+                // changed, so the tree is still intact if it panics
+                let split_origin_size = S::leaf_n() as usize / 2;
+                let slot_key: S::K = if idx == split_origin_size {
+                    k.clone()
+                } else {
+                    leaf_node.data_at(split_origin_size).0.clone()
+                };
+
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 4a1b523..ad545ec 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -341,10 +341,12 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
+        // clone the new slot key before anything is changed, so the tree is still intact if it panics
+        let new_slot_key = left.data_at(left.len() - 1).0.clone();
+
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        let new_slot_key = kv.0.clone();
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
         node.set_augmentation(
@@ -372,13 +374,15 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
+        // clone the new slot key before anything is changed, so the tree is still intact if it panics
+        let new_slot_key = right.data_at(1).0.clone();
+
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let new_slot_key = right.data_at(0).0.clone();
         let left = node_store.get_mut_leaf(left_id);
         let deleted = left.delete_with_push(delete_idx, kv);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-- 
2.43.0


From 563add807819a9844fbe250d6394f699bbf896a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 11/17] fix: release the root inner node when its only child
 takes over

---
 src/tree/tree_remove.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index ad545ec..d4ca69e 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -60,15 +60,17 @@ impl<S: NodeStore> BPlusTree<S> {
                 }
                 None => {
                     // now process root
+                    let mut _old_root = None;
                     let r = match r {
                         DeleteDescendResult::Done(kv) => Some(kv),
                         DeleteDescendResult::InnerUnderSize(deleted_item) => {
-                            let root = tree
-                                .node_store
-                                .get_mut_inner(unsafe { tree.root.inner_id_unchecked() });
+                            let root_id = unsafe { tree.root.inner_id_unchecked() };
+                            let root = tree.node_store.get_mut_inner(root_id);
 
                             if root.is_empty() {
                                 tree.root = root.child_id(0);
+                                // the only child takes over, the node itself is not used any more
+                                _old_root = Some(tree.node_store.take_inner(root_id));
                             }
 
                             Some(deleted_item)
-- 
2.43.0


From bfaf5bd013e6b4c54b8e5e9e7d83171da47a3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 12/17] fix: use the slots of removed nodes again

---
 src/tree/node_stores/vec_backed.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/tree/node_stores/vec_backed.rs b/src/tree/node_stores/vec_backed.rs
index 099dde0..3e50cd8 100644
--- a/src/tree/node_stores/vec_backed.rs
+++ b/src/tree/node_stores/vec_backed.rs
@@ -5,6 +5,10 @@ pub struct NodeStoreVec<K: Key, V, A: Augmentation<K, V> = ()> {
     inner_nodes: Vec<Option<Box<InnerNode<K, A>>>>,
     leaf_nodes: Vec<Option<Box<LeafNode<K, V>>>>,
 
+    /// slots of nodes taken out for good, used again for new nodes
+    free_inners: Vec<InnerNodeId>,
+    free_leaves: Vec<LeafNodeId>,
+
     cached_leaf: std::sync::atomic::AtomicUsize,
 }
 
@@ -13,6 +17,8 @@ impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for NodeStoreVec<K, V, A> {
         Self {
             inner_nodes: self.inner_nodes.clone(),
             leaf_nodes: self.leaf_nodes.clone(),
+            free_inners: self.free_inners.clone(),
+            free_leaves: self.free_leaves.clone(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(
                 self.cached_leaf.load(std::sync::atomic::Ordering::Relaxed),
             ),
@@ -25,6 +31,8 @@ impl<K: Key, V, A: Augmentation<K, V>> Default for NodeStoreVec<K, V, A> {
         Self {
             inner_nodes: Default::default(),
             leaf_nodes: Default::default(),
+            free_inners: Default::default(),
+            free_leaves: Default::default(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(usize::MAX),
         }
     }
@@ -113,13 +121,16 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut LeafNode<K, V>) {
-        let id = LeafNodeId::from_usize(self.leaf_nodes.len());
-        let node = LeafNode::<Self::K, Self::V>::new();
-        self.leaf_nodes.push(Some(node));
+        let id = self.reserve_leaf();
+        self.assign_leaf(id, LeafNode::<Self::K, Self::V>::new());
         (id, self.get_mut_leaf(id))
     }
 
     fn add_inner(&mut self, node: Box<InnerNode<K, A>>) -> InnerNodeId {
+        if let Some(id) = self.free_inners.pop() {
+            self.inner_nodes[id.as_usize()] = Some(node);
+            return id;
+        }
         let id = InnerNodeId::from_usize(self.inner_nodes.len());
         self.inner_nodes.push(Some(node));
         id
@@ -157,14 +168,20 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_inner(&mut self, id: InnerNodeId) -> Box<InnerNode<K, A>> {
-        std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap()
+        let node = std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap();
+        self.free_inners.push(id);
+        node
     }
 
     fn put_back_inner(&mut self, id: InnerNodeId, node: Box<InnerNode<K, A>>) {
         self.inner_nodes[id.as_usize()] = Some(node);
+        self.free_inners.retain(|free| *free != id);
     }
 
     fn reserve_leaf(&mut self) -> LeafNodeId {
+        if let Some(id) = self.free_leaves.pop() {
+            return id;
+        }
         let id = LeafNodeId::from_usize(self.leaf_nodes.len());
         self.leaf_nodes.push(None);
         id
@@ -200,7 +217,9 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
-        std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap()
+        let leaf = std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap();
+        self.free_leaves.push(id);
+        leaf
     }
 
     fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<LeafNode<K, V>>) {
-- 
2.43.0


From 5e7904ca23f9771a61ddcdf9ed9e57c44569c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 13/17] fix: leave an empty tree when summary code panics half
 way through a change

---
 src/tree/mod.rs         | 36 +++++++++++++++++++++++++++++++++++-
 src/tree/tree_remove.rs | 30 ++++++++++++++++++++++--------
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index c6864a0..3ef66a6 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -90,6 +90,26 @@ pub struct BPlusTree<S: NodeStore> {
     len: usize,
     node_store: ManuallyDrop<S>,
     st: Statistic,
+
+    /// the nodes are being changed, they may not fit together at the moment
+    changing: bool,
+}
+
+/// Leaves an empty tree behind if user code, e.g. an `Augmentation`, panics while the nodes are
+/// being changed. The entries are leaked then.
+struct ChangeGuard<'a, S: NodeStore>(&'a mut BPlusTree<S>);
+
+impl<'a, S: NodeStore> Drop for ChangeGuard<'a, S> {
+    fn drop(&mut self) {
+        if self.0.changing {
+            let mut node_store = S::default();
+            self.0.root = NodeId::Leaf(node_store.new_empty_leaf().0);
+            self.0.node_store = ManuallyDrop::new(node_store);
+            self.0.len = 0;
+            self.0.changing = false;
+            self.0.root_augmentation = S::Augmentation::default();
+        }
+    }
 }
 
 impl<S> BPlusTree<S>
@@ -106,6 +126,7 @@ where
             len: 0,
 
             st: Statistic::default(),
+            changing: false,
         }
     }
 
@@ -124,6 +145,7 @@ where
             len,
 
             st: Statistic::default(),
+            changing: false,
         };
 
         #[cfg(test)]
@@ -154,6 +176,13 @@ where
 
     /// Insert a new key-value pair into the tree.
     pub fn insert(&mut self, k: S::K, v: S::V) -> Option<S::V> {
+        let guard = ChangeGuard(self);
+        let result = guard.0.insert_impl(k, v);
+        guard.0.changing = false;
+        result
+    }
+
+    fn insert_impl(&mut self, k: S::K, v: S::V) -> Option<S::V> {
         let node_id = self.root;
 
         let result = match self.descend_insert(node_id, k, v) {
@@ -314,10 +343,14 @@ where
         let leaf_node = self.node_store.get_mut_leaf(id);
         match leaf_node.try_upsert(k, v) {
             LeafUpsertResult::Inserted => {
+                self.changing = true;
                 self.node_store.cache_leaf(id);
                 DescendInsertResult::Inserted
             }
-            LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
+            LeafUpsertResult::Updated(v) => {
+                self.changing = true;
+                DescendInsertResult::Updated(v)
+            }
             LeafUpsertResult::IsFull(idx, k, v) => {
                 // clone the slot key, which is the first key of the new leaf, before anything is
                 // changed, so the tree is still intact if it panics
@@ -328,6 +361,7 @@ where
                     leaf_node.data_at(split_origin_size).0.clone()
                 };
 
+                self.changing = true;
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index d4ca69e..527dda8 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -1,5 +1,6 @@
 use super::{
-    entry_ref::EntryRef, BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, NodeStore,
+    entry_ref::EntryRef, BPlusTree, ChangeGuard, InnerMergeResult, InnerNode, LeafDeleteResult,
+    NodeStore,
 };
 use crate::augment::Augmentation;
 use std::borrow::Borrow;
@@ -22,12 +23,17 @@ impl<S: NodeStore> BPlusTree<S> {
             leaf_id,
             offset,
         } = entry_ref;
+        let guard = ChangeGuard(tree);
+        let tree = &mut *guard.0;
 
         let mut r = {
             let leaf = tree.node_store.get_mut_leaf(leaf_id);
 
             match leaf.try_delete_at(offset) {
-                LeafDeleteResult::Done(kv) => DeleteDescendResult::Done(kv),
+                LeafDeleteResult::Done(kv) => {
+                    tree.changing = true;
+                    DeleteDescendResult::Done(kv)
+                }
                 LeafDeleteResult::UnderSize(idx) => DeleteDescendResult::LeafUnderSize(idx),
             }
         };
@@ -79,6 +85,7 @@ impl<S: NodeStore> BPlusTree<S> {
                             let leaf = tree
                                 .node_store
                                 .get_mut_leaf(unsafe { tree.root.leaf_id_unchecked() });
+                            tree.changing = true;
                             let item = leaf.delete_at(idx);
                             Some(item)
                         }
@@ -90,6 +97,7 @@ impl<S: NodeStore> BPlusTree<S> {
                         tree.len -= 1;
                     }
 
+                    tree.changing = false;
                     return r;
                 }
             }
@@ -188,6 +196,14 @@ impl<S: NodeStore> BPlusTree<S> {
             _ => unreachable!(),
         };
 
+        // clone the new slot key before anything is changed, so the tree is still intact if it panics
+        let new_slot_key = match action {
+            FixAction::RotateRight => prev_sibling.map(|p| p.data_at(p.len() - 1).0.clone()),
+            FixAction::RotateLeft => next_sibling.map(|n| n.data_at(1).0.clone()),
+            FixAction::MergeLeft | FixAction::MergeRight => None,
+        };
+        self.changing = true;
+
         match action {
             FixAction::RotateRight => {
                 let deleted = Self::rotate_right_for_leaf(
@@ -195,6 +211,7 @@ impl<S: NodeStore> BPlusTree<S> {
                     node,
                     child_idx - 1,
                     key_idx_in_child,
+                    new_slot_key.unwrap(),
                 );
                 self.st.rotate_right_leaf += 1;
                 DeleteDescendResult::Done(deleted)
@@ -205,6 +222,7 @@ impl<S: NodeStore> BPlusTree<S> {
                     node,
                     child_idx,
                     key_idx_in_child,
+                    new_slot_key.unwrap(),
                 );
                 self.st.rotate_left_leaf += 1;
                 DeleteDescendResult::Done(deleted)
@@ -336,6 +354,7 @@ impl<S: NodeStore> BPlusTree<S> {
         node: &mut InnerNode<S::K, S::Augmentation>,
         slot: usize,
         delete_idx: usize,
+        new_slot_key: S::K,
     ) -> (S::K, S::V) {
         let left_id = unsafe { node.child_id(slot).leaf_id_unchecked() };
         let right_id = unsafe { node.child_id(slot + 1).leaf_id_unchecked() };
@@ -343,9 +362,6 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
-        // clone the new slot key before anything is changed, so the tree is still intact if it panics
-        let new_slot_key = left.data_at(left.len() - 1).0.clone();
-
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
@@ -369,6 +385,7 @@ impl<S: NodeStore> BPlusTree<S> {
         parent: &mut InnerNode<S::K, S::Augmentation>,
         slot: usize,
         delete_idx: usize,
+        new_slot_key: S::K,
     ) -> (S::K, S::V) {
         let left_id = unsafe { parent.child_id(slot).leaf_id_unchecked() };
         let right_id = unsafe { parent.child_id(slot + 1).leaf_id_unchecked() };
@@ -376,9 +393,6 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
-        // clone the new slot key before anything is changed, so the tree is still intact if it panics
-        let new_slot_key = right.data_at(1).0.clone();
-
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
-- 
2.43.0


From b80c8c1eb78a10ecd74c39a76fc5fec4554d4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 14/17] fix: report a failed node allocation instead of using a
 null pointer

LeafNode::new and InnerNode::empty made a Box of whatever alloc returned,
so safe code that ran out of memory wrote through a null pointer.
---
 src/tree/inner_node.rs | 5 ++++-
 src/tree/leaf_node.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index d9a4d56..21c8f1c 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -1,5 +1,5 @@
 use super::*;
-use std::alloc::alloc;
+use std::alloc::{alloc, handle_alloc_error};
 use std::slice::SliceIndex;
 use std::{
     alloc::Layout,
@@ -114,6 +114,9 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
     pub(crate) fn empty() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
         this.size = 0;
         this
diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index d8ea84d..0ba1cf1 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -1,6 +1,6 @@
 use super::*;
 use std::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     borrow::Borrow,
     mem::{self, MaybeUninit},
     slice::SliceIndex,
@@ -58,6 +58,9 @@ impl<K: Key, V> LeafNode<K, V> {
     pub fn new() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
 
         this.prev = None;
-- 
2.43.0


From abab8bc34f0f1784c84b5c5a0deb2d4acb99b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 15/17] fix: keep the public methods of nodes within the
 entries the node has

---
 src/tree/inner_node.rs | 10 +++++++++-
 src/tree/leaf_node.rs  | 28 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 21c8f1c..9702d17 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -157,11 +157,14 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
             child_size += 1;
         }
 
+        let mut augmentation_size = 0;
         for (idx, m) in augmentations.enumerate() {
             node.augmentations[idx] = MaybeUninit::new(m);
+            augmentation_size += 1;
         }
 
         assert!(key_size + 1 == child_size);
+        assert!(augmentation_size == child_size);
         node.size = key_size;
 
         mem::ManuallyDrop::into_inner(node)
@@ -494,7 +497,10 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         (k, left_c, left_m)
     }
 
+    /// Append a key and the child to the right of it
+    /// Panics if the node is full
     pub fn push(&mut self, k: K, child: NodeId, augmentation: A) {
+        assert!(!self.is_full());
         unsafe {
             *self.key_area_mut(self.size as usize) = MaybeUninit::new(k);
             *self.child_area_mut(self.size as usize + 1) = MaybeUninit::new(child);
@@ -562,8 +568,10 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         self.iter_augmentations().collect()
     }
 
+    /// Get the key at idx
+    /// Panics if there is none
     pub fn key(&self, idx: usize) -> &K {
-        unsafe { self.key_area(idx).assume_init_ref() }
+        &self.keys()[idx]
     }
 
     pub(crate) fn set_key(&mut self, idx: usize, key: K) -> K {
diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index 0ba1cf1..2209a11 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -111,15 +111,17 @@ impl<K: Key, V> LeafNode<K, V> {
         Q: ?Sized + Ord,
         K: std::borrow::Borrow<Q>,
     {
+        let keys = self.keys();
+        // a leaf without keys covers nothing on the sides where it has neighbours
         let is_lt_start = match self.prev {
-            Some(_) => k.lt(unsafe { self.key_area(0).assume_init_ref().borrow() }),
+            Some(_) => keys.first().map_or(true, |first| k.lt(first.borrow())),
             None => false,
         };
         if is_lt_start {
             return false;
         }
         let is_gt_end = match self.next {
-            Some(_) => k.gt(unsafe { self.key_area(self.len() - 1).assume_init_ref().borrow() }),
+            Some(_) => keys.last().map_or(true, |last| k.gt(last.borrow())),
             None => false,
         };
         !is_gt_end
@@ -127,12 +129,8 @@ impl<K: Key, V> LeafNode<K, V> {
 
     pub fn key_range(&self) -> (Option<K>, Option<K>) {
         debug_assert!(!self.is_empty());
-        let start = self
-            .prev
-            .map(|_| unsafe { self.key_area(0).assume_init_ref().clone() });
-        let end = self
-            .next
-            .map(|_| unsafe { self.key_area(self.len() - 1).assume_init_ref().clone() });
+        let start = self.prev.and_then(|_| self.keys().first().cloned());
+        let end = self.next.and_then(|_| self.keys().last().cloned());
         (start, end)
     }
 
@@ -157,6 +155,15 @@ impl<K: Key, V> LeafNode<K, V> {
     }
 
     pub fn set_data(&mut self, mut data: impl Iterator<Item = (K, V)>) {
+        // release what the leaf held before
+        let old_len = std::mem::take(&mut self.size) as usize;
+        for i in 0..old_len {
+            unsafe {
+                self.key_area_mut(i).assume_init_drop();
+                self.value_area_mut(i).assume_init_drop();
+            }
+        }
+
         for i in 0..N {
             if let Some((k, v)) = data.next() {
                 unsafe {
@@ -170,7 +177,10 @@ impl<K: Key, V> LeafNode<K, V> {
         }
     }
 
+    /// Get the entry at slot
+    /// Panics if there is none
     pub fn data_at(&self, slot: usize) -> (&K, &V) {
+        assert!(slot < self.len());
         unsafe {
             (
                 self.key_area(slot).assume_init_ref(),
@@ -180,7 +190,9 @@ impl<K: Key, V> LeafNode<K, V> {
     }
 
     /// Get mut ref for value at slot
+    /// Panics if there is none
     pub fn value_at_mut(&mut self, slot: usize) -> &mut V {
+        assert!(slot < self.len());
         unsafe { self.value_area_mut(slot).assume_init_mut() }
     }
 
-- 
2.43.0


From aab7a79c1b17d02ff49c3e026041679b06883df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 16/17] fix: a leaf assigned back to the slot it was taken from
 keeps it

---
 src/tree/node_stores/vec_backed.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tree/node_stores/vec_backed.rs b/src/tree/node_stores/vec_backed.rs
index 3e50cd8..fd13b35 100644
--- a/src/tree/node_stores/vec_backed.rs
+++ b/src/tree/node_stores/vec_backed.rs
@@ -8,6 +8,8 @@ pub struct NodeStoreVec<K: Key, V, A: Augmentation<K, V> = ()> {
     /// slots of nodes taken out for good, used again for new nodes
     free_inners: Vec<InnerNodeId>,
     free_leaves: Vec<LeafNodeId>,
+    /// whether the leaf slot is free
+    free_leaf_slots: Vec<bool>,
 
     cached_leaf: std::sync::atomic::AtomicUsize,
 }
@@ -19,6 +21,7 @@ impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for NodeStoreVec<K, V, A> {
             leaf_nodes: self.leaf_nodes.clone(),
             free_inners: self.free_inners.clone(),
             free_leaves: self.free_leaves.clone(),
+            free_leaf_slots: self.free_leaf_slots.clone(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(
                 self.cached_leaf.load(std::sync::atomic::Ordering::Relaxed),
             ),
@@ -33,6 +36,7 @@ impl<K: Key, V, A: Augmentation<K, V>> Default for NodeStoreVec<K, V, A> {
             leaf_nodes: Default::default(),
             free_inners: Default::default(),
             free_leaves: Default::default(),
+            free_leaf_slots: Default::default(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(usize::MAX),
         }
     }
@@ -180,10 +184,12 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
 
     fn reserve_leaf(&mut self) -> LeafNodeId {
         if let Some(id) = self.free_leaves.pop() {
+            self.free_leaf_slots[id.as_usize()] = false;
             return id;
         }
         let id = LeafNodeId::from_usize(self.leaf_nodes.len());
         self.leaf_nodes.push(None);
+        self.free_leaf_slots.push(false);
         id
     }
 
@@ -219,11 +225,16 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
         let leaf = std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap();
         self.free_leaves.push(id);
+        self.free_leaf_slots[id.as_usize()] = true;
         leaf
     }
 
     fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<LeafNode<K, V>>) {
         self.leaf_nodes[id.as_usize()] = Some(leaf);
+        // the leaf may have been taken and is now back
+        if std::mem::take(&mut self.free_leaf_slots[id.as_usize()]) {
+            self.free_leaves.retain(|free| *free != id);
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 1a2d2d8a665ec9c6c13e111918b77f16c1a9df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 17/17] fix: an overwrite whose key panics on release left
 stale summaries

---
 src/tree/leaf_node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index 2209a11..a33d519 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -228,6 +228,9 @@ impl<K: Key, V> LeafNode<K, V> {
     pub(crate) fn try_upsert(&mut self, k: K, v: V) -> LeafUpsertResult<K, V> {
         match self.locate_slot(&k) {
             Ok(idx) => {
+                // the key in place stays. Release the new one before anything is changed, so the
+                // tree is still intact if that panics
+                drop(k);
                 // update existing item
                 let prev_v =
                     std::mem::replace(unsafe { self.value_area_mut(idx) }, MaybeUninit::new(v));
-- 
2.43.0

