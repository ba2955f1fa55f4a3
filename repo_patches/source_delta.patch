From 72d57d62861b643203f595c7030b640721499b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 01/13] fix: Iter::next_back must count the item it yields

---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From 67e4c7519e9f762acafda7e02393268e0fdb2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 02/13] fix: bulk_load never builds an inner node with a single
 child

---
 src/tree/bulk_load.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..905e75e 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,21 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut remaining = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            // an inner node needs at least two children, so never leave a single one for the last
+            let chunk_len = if remaining.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                child_n.min(remaining.len())
+            };
+            let (childs, rest) = remaining.split_at(chunk_len);
+            remaining = rest;
+
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From 84f9c25c254602ff6efbf3e867204b7050939800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 03/13] fix: merge_next drops the first augmentation of the
 merged node twice

---
 src/tree/inner_node.rs  | 7 +++++--
 src/tree/tree_remove.rs | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..7ab3d58 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -418,7 +418,11 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         }
     }
 
-    pub(crate) fn merge_next(&mut self, slot_key: K, right: &mut Self) {
+    pub(crate) fn merge_next(&mut self, slot_key: K, right: Box<Self>) {
+        // All items are moved out of right, including the augmentation of its first child, so
+        // release the memory only.
+        let mut right =
+            unsafe { Box::from_raw(Box::into_raw(right).cast::<mem::ManuallyDrop<Self>>()) };
         unsafe {
             *self.key_area_mut(self.size as usize) = MaybeUninit::new(slot_key);
             self.size += 1;
@@ -441,7 +445,6 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
                 self.augmentation_area_mut(self_size..self_size + right_size + 1),
             );
             self.size += right.size;
-            right.size = 0;
         }
     }
 
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..4a1b523 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -319,9 +319,9 @@ impl<S: NodeStore> BPlusTree<S> {
         let (result, slot_key) = node.remove_slot_with_right(slot);
 
         // merge right into left
-        let mut right = node_store.take_inner(right_child_id);
+        let right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
-        left.merge_next(slot_key, &mut right);
+        left.merge_next(slot_key, right);
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From 5168651036e4d46015b2ee98d740dcf73d948ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 04/13] fix: GroupCount::fold_inner keeps the rank when there
 is no left sibling

---
 src/augment/group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..87e7df8 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -290,9 +290,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
-
-        let (max_group, mut max_group_size) = last_augmentation.max_group()?;
+        let Some((max_group, mut max_group_size)) = rev_iter.next().and_then(|a| a.max_group())
+        else {
+            // nothing on the left, keep what is accumulated so far
+            return rank;
+        };
 
         for a in rev_iter {
             match a.max_group() {
-- 
2.43.0


From d075654ec62242c7cf624eb291897711eccc7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 05/13] fix: GroupCount::from_leaf restarts the count for every
 new group

---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index 87e7df8..2cd89f9 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From 94d04a860a5616019d88e7c9de87283c3d4455e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 06/13] fix: Cursor::first and Cursor::last return None for an
 empty tree

---
 src/tree/cursor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..92a7aa1 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,7 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,13 +63,14 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        let offset = leaf.len().checked_sub(1)?;
+        let kv = leaf.data_at(offset);
 
         Some((
             Self {
                 k: kv.0.clone(),
                 leaf_id_hint: leaf_id,
-                offset_hint: leaf.len() - 1,
+                offset_hint: offset,
             },
             kv.1,
         ))
-- 
2.43.0


From 452111c393be2081ca132c17131d3c4a32ba410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 07/13] fix: check the indices returned by SearchAugmentation

---
 src/tree/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..884b22a 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -683,6 +683,9 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    if offset > inner.len() {
+                        panic!("invalid index");
+                    }
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -695,6 +698,9 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    if slot >= leaf.len() {
+                        panic!("invalid index");
+                    }
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0


From b4a36ce9c7a2b3866628d61ea46a7340a04581b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 08/13] fix: into_iter drops the root augmentation

---
 src/tree/iterator.rs | 16 +++++++++++++++-
 src/tree/mod.rs      | 18 +++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index 8474416..343b632 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -127,11 +127,25 @@ pub struct IntoIter<S: NodeStore> {
 
 impl<S: NodeStore> IntoIter<S> {
     pub fn new(tree: BPlusTree<S>) -> Self {
+        let mut tree = std::mem::ManuallyDrop::new(tree);
+        // SAFETY: tree is not used after this, only `root_augmentation` is left to drop
+        unsafe {
+            let iter = Self::take_from(&mut tree);
+            std::ptr::drop_in_place(&mut tree.root_augmentation);
+            iter
+        }
+    }
+
+    /// Create the iterator from parts of tree
+    ///
+    /// # Safety
+    /// Same as `BPlusTree::take_parts`
+    pub(crate) unsafe fn take_from(tree: &mut BPlusTree<S>) -> Self {
         // the tree ensures there is at least one leaf
         let first_leaf_id = tree.first_leaf().unwrap();
         let last_leaf_id = tree.last_leaf().unwrap();
 
-        let (node_store, _root_id, len) = tree.into_parts();
+        let (node_store, _root_id, len) = unsafe { tree.take_parts() };
 
         let last_leaf_size = node_store.get_leaf(last_leaf_id).len();
 
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 884b22a..c98d264 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -196,13 +196,16 @@ where
         result
     }
 
-    /// consume self and return the parts. This is useful when implementing `IntoIter`
-    fn into_parts(self) -> (S, NodeId, usize) {
-        let mut me = ManuallyDrop::new(self);
+    /// Take the parts out of self. This is useful when implementing `IntoIter`
+    ///
+    /// # Safety
+    /// The node store is moved out, the only thing left to do with self is dropping its
+    /// `root_augmentation`.
+    unsafe fn take_parts(&mut self) -> (S, NodeId, usize) {
         (
-            unsafe { ManuallyDrop::take(&mut me.node_store) },
-            me.root,
-            me.len,
+            unsafe { ManuallyDrop::take(&mut self.node_store) },
+            self.root,
+            self.len,
         )
     }
 
@@ -823,7 +826,8 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        // SAFETY: `root_augmentation` is dropped by the drop glue, after that self is gone.
+        unsafe { drop(IntoIter::take_from(self)) }
     }
 }
 
-- 
2.43.0


From 8568ba590b290872d67231e08406edb777970b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 09/13] fix: release the inner root node when the tree shrinks

---
 src/tree/tree_remove.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 4a1b523..57a0a93 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -63,12 +63,13 @@ impl<S: NodeStore> BPlusTree<S> {
                     let r = match r {
                         DeleteDescendResult::Done(kv) => Some(kv),
                         DeleteDescendResult::InnerUnderSize(deleted_item) => {
-                            let root = tree
-                                .node_store
-                                .get_mut_inner(unsafe { tree.root.inner_id_unchecked() });
+                            let root_id = unsafe { tree.root.inner_id_unchecked() };
+                            let root = tree.node_store.get_mut_inner(root_id);
 
                             if root.is_empty() {
                                 tree.root = root.child_id(0);
+                                // the old root is not reachable anymore, release it
+                                drop(tree.node_store.take_inner(root_id));
                             }
 
                             Some(deleted_item)
-- 
2.43.0


From ba60171940010dae87e01b112a16fd6432c14e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 10/13] fix: node allocation handles allocation failure

---
 src/tree/inner_node.rs | 5 ++++-
 src/tree/leaf_node.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 7ab3d58..d15155f 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -1,5 +1,5 @@
 use super::*;
-use std::alloc::alloc;
+use std::alloc::{alloc, handle_alloc_error};
 use std::slice::SliceIndex;
 use std::{
     alloc::Layout,
@@ -114,6 +114,9 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
     pub(crate) fn empty() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
         this.size = 0;
         this
diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index d8ea84d..0ba1cf1 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -1,6 +1,6 @@
 use super::*;
 use std::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     borrow::Borrow,
     mem::{self, MaybeUninit},
     slice::SliceIndex,
@@ -58,6 +58,9 @@ impl<K: Key, V> LeafNode<K, V> {
     pub fn new() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
 
         this.prev = None;
-- 
2.43.0


From 18dc30db499ce6aa1ca5a557009256c80c1b36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 11/13] fix: insert clones the slot key before the leaf is
 split

---
 src/tree/leaf_node.rs | 11 +++++++++++
 src/tree/mod.rs       |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index 0ba1cf1..0955eed 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -236,6 +236,17 @@ impl<K: Key, V> LeafNode<K, V> {
         }
     }
 
+    /// The key that separates the two leaves, if `k` is inserted at `insert_idx` by
+    /// `split_new_leaf`. It is the first key of the new leaf.
+    pub(crate) fn split_slot_key<'a>(&'a self, insert_idx: usize, k: &'a K) -> &'a K {
+        let split_origin_size = Self::split_origin_size() as usize;
+        if insert_idx == split_origin_size {
+            k
+        } else {
+            self.data_at(split_origin_size).0
+        }
+    }
+
     pub(crate) fn split_new_leaf(
         &mut self,
         insert_idx: usize,
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index c98d264..95b6fc0 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -320,11 +320,13 @@ where
             }
             LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
             LeafUpsertResult::IsFull(idx, k, v) => {
+                // clone may panic, so do it before anything is changed
+                let slot_key: S::K = leaf_node.split_slot_key(idx, &k).clone();
+
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
-- 
2.43.0


From 43ad31031de25b4f2ecfcba954495f3bcac0d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 12/13] fix: leaf rotation clones the slot key before items are
 moved

---
 src/tree/tree_remove.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 57a0a93..dc3a99e 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -342,10 +342,11 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
+        // clone may panic, so do it before anything is changed
+        let new_slot_key = left.data_at(left.len() - 1).0.clone();
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        let new_slot_key = kv.0.clone();
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
         node.set_augmentation(
@@ -373,13 +374,14 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
+        // clone may panic, so do it before anything is changed
+        let new_slot_key = right.data_at(1).0.clone();
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let new_slot_key = right.data_at(0).0.clone();
         let left = node_store.get_mut_leaf(left_id);
         let deleted = left.delete_with_push(delete_idx, kv);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-- 
2.43.0


From 132aca0170fef6af24d1f08c9183bdfe068e1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 13/13] fix: InnerNode::new_from_iter never drops a partially
 filled node

---
 src/tree/inner_node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index d15155f..f0cd536 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -137,7 +137,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // The iterators may panic, so a partially filled node must not be dropped
+        let mut node = mem::ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -155,14 +156,17 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
             child_size += 1;
         }
 
+        let mut augmentation_size = 0;
         for (idx, m) in augmentations.enumerate() {
             node.augmentations[idx] = MaybeUninit::new(m);
+            augmentation_size += 1;
         }
 
         assert!(key_size + 1 == child_size);
+        assert!(augmentation_size == child_size);
         node.size = key_size;
 
-        node
+        mem::ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0

