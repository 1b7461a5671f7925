From 6e63b25825c1ec1c05b2b05149d038de81d7b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 01/10] fix: dereference SyncShared pointers as the Arc they
 hold, not as a Box

---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From b54cefa9435f6edd5d8d1ea249514f198fcafd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 02/10] fix: split nodes of odd length without losing or
 duplicating an entry

---
 src/branch.rs | 5 +++--
 src/leaf.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..0cf1537 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -320,13 +320,14 @@ where
         let right = {
             let this = Pointer::make_mut(&mut this);
             let half = this.len() / 2;
+            let right_len = this.len() - half;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: right_len,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..e806d45 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -101,12 +101,13 @@ where
         let right = {
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
+            let right_len = this.length - half;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: right_len,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 54da39a39b66e842429b24646f74a43f7b5c240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 03/10] fix: an excluded start bound above its leaf's highest
 key must step forward

---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..25e1ea5 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -230,8 +230,9 @@ where
             ptr.stack = path;
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
+            // As in `key_or_higher`, the highest key in the leaf can be lower than `key`.
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From aa9786ea3547ba362f43cda07e8dbd2cb62607ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 04/10] fix: an included end bound that isn't in the tree must
 not yield the next higher key

---
 src/search.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 25e1ea5..7832d2d 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -248,8 +248,16 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If every key in the leaf is higher than `key`, the key we want is the last one of
+            // the previous leaf.
+            unsafe {
+                if leaf.keys().get_unchecked(ptr.index) > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From f7b40cf157f38d9cf408f96d2278c31d8c9c132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 05/10] fix: consume owned iterators from the back past the
 first leaf

---
 src/iter/owned.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..7423df9 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -78,7 +78,8 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        // Once nothing remains, stepping back could walk into leaves emptied from the left.
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +88,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From 22757648d070a2a7975be28c74e676f3209d50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 06/10] fix: validate the key order in load in debug mode as
 documented

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..41158f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@ where
         }
 
         #[cfg(debug_assertions)]
-        let mut last_record = (0, None);
+        let mut last_record: Option<(usize, K)> = None;
 
         let iter = iter.into_iter();
         let mut size = 0;
@@ -131,12 +131,14 @@ where
         for (key, value) in iter {
             #[cfg(debug_assertions)]
             {
-                if let (last_index, Some(last_key)) = last_record {
+                let mut index = 0;
+                if let Some((last_index, last_key)) = last_record {
+                    index = last_index + 1;
                     if last_key >= key {
-                        panic!("PalmTree::load: unordered key at index {}", last_index);
+                        panic!("PalmTree::load: unordered key at index {}", index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = Some((index, key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 6721a19e5c9576d8ca2411e730430f1da18c022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 07/10] fix: let insert_recursive insert into an emptied tree
 of more than one level

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 41158f0..2fa4465 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,13 +406,13 @@ where
             // Special case: if a tree has size 0 but there is a root, it's because
             // we removed the last entry and the root has been left allocated.
             // Tree walking algos assume the tree has no empty nodes, so we have to
-            // handle this as a special case.
+            // handle this as a special case. The root left behind may still be marked as
+            // having branches, so we can't reuse it as it is.
             if len == 0 {
                 // Make sure the delete trimmed the tree properly.
                 debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
 
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                *root_ref = Branch::unit(Pointer::new(Leaf::unit(key, value)));
                 self.size = 1;
                 None
             } else {
-- 
2.43.0


From 2d3da3fd035ce9c630e1a50a0cae406c18935540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 08/10] fix: copy a shared root before writing to it through a
 cursor or iterator

---
 src/entry.rs         |  8 ++++++--
 src/iter/mut_iter.rs |  7 ++++++-
 src/iter/owned.rs    | 15 +++++++++-----
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..59ebb95 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,13 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            // The entry is going to write through the cursor, so the root can't be shared.
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..a3e8343 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,13 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // We're going to hand out mutable references, so the root can't be shared.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 7423df9..c4d43cd 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,13 +20,18 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // We're going to empty the leaves, so the root can't be shared.
+            let root = Pointer::make_mut(root);
             Self {
-                left: PathedPointer::lowest(&root),
-                right: PathedPointer::highest(&root),
+                left: PathedPointer::lowest(root),
+                right: PathedPointer::highest(root),
                 tree,
                 remaining,
             }
diff --git a/src/lib.rs b/src/lib.rs
index 2fa4465..178ce0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -231,7 +231,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -244,12 +247,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -266,9 +273,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -276,21 +286,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -320,7 +338,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -331,7 +352,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -683,6 +707,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -695,6 +720,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From a39d264894cf37460cfc8248954fc228e50530da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 09/10] fix: lower a branch's key in its parents when its last
 child is removed

---
 src/search.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index 7832d2d..8a52041 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -440,6 +440,19 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    // If we removed this branch's last child, its own key in its parent is now too high.
+                    // Searches depend on the two matching, so lower it, all the way up if need be.
+                    let mut is_last = index == branch.len();
+                    while is_last {
+                        if let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = branch.highest().clone();
+                            is_last = index + 1 == parent.len();
+                        } else {
+                            break;
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 29233b9db132878ac181e2663912ffa7770eb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 10/10] fix: let push_last find keys that insert_recursive has
 already raised

---
 src/search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 8a52041..a60b2e2 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -578,7 +578,7 @@ where
         let mut index;
         loop {
             index = branch.len() - 1;
-            debug_assert!(branch.highest() < &key);
+            debug_assert!(branch.highest() <= &key);
             branch.keys_mut()[index] = key.clone();
             self.stack.push((branch, index as isize));
             if branch.has_branches() {
-- 
2.43.0

