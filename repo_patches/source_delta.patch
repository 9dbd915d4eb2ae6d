From 6214b6f50e70fdf907f2a67f723ee859b44ffa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 01/19] verif hook: route the remaining atomics through the
 loom facade under cfg(scc_verif)

---
 src/hash_index.rs               | 3 +++
 src/hash_table/bucket.rs        | 3 +++
 src/hash_table/bucket_array.rs  | 3 +++
 src/lib.rs                      | 1 +
 src/tree_index/internal_node.rs | 3 +++
 src/tree_index/leaf_node.rs     | 3 +++
 6 files changed, 16 insertions(+)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..3ec4603 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -7,11 +7,14 @@ use std::iter::FusedIterator;
 use std::ops::{Deref, RangeInclusive};
 use std::panic::UnwindSafe;
 use std::ptr;
+#[cfg(not(scc_verif))]
 use std::sync::atomic::AtomicU8;
 #[cfg(not(feature = "loom"))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_verif)]
+use loom::sync::atomic::AtomicU8;
 #[cfg(feature = "loom")]
 use loom::sync::atomic::AtomicUsize;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 696c865..4a76a81 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -4,8 +4,11 @@ use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
+#[cfg(not(scc_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 
+#[cfg(scc_verif)]
+use loom::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index 94e961e..13d629f 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -2,9 +2,12 @@ use std::alloc::{Layout, alloc, alloc_zeroed, dealloc};
 use std::mem::{align_of, needs_drop, size_of};
 use std::panic::UnwindSafe;
 use std::ptr::NonNull;
+#[cfg(not(scc_verif))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{Acquire, Relaxed};
 
+#[cfg(scc_verif)]
+use loom::sync::atomic::AtomicUsize;
 use sdd::{AtomicShared, Guard, Tag};
 
 use super::bucket::{BUCKET_LEN, Bucket, DataBlock, INDEX, LruList};
diff --git a/src/lib.rs b/src/lib.rs
index f3ee0f9..eb661b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(missing_docs, warnings, clippy::all, clippy::pedantic)]
+#![allow(unexpected_cfgs)]
 #![doc = include_str!("../README.md")]
 
 // Re-export [`sdd`](https://crates.io/crates/sdd) modules for backward compatibility.
diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..1ff2769 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -2,9 +2,12 @@ use std::cmp::Ordering::{Equal, Greater, Less};
 use std::mem::forget;
 use std::ops::RangeBounds;
 use std::ptr;
+#[cfg(not(scc_verif))]
 use std::sync::atomic::AtomicPtr;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_verif)]
+use loom::sync::atomic::AtomicPtr;
 use saa::Lock;
 use sdd::{AtomicShared, Guard, Ptr, Shared, Tag};
 
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..ad5d4d6 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -1,9 +1,12 @@
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::ops::{Bound, RangeBounds};
 use std::ptr;
+#[cfg(not(scc_verif))]
 use std::sync::atomic::AtomicPtr;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_verif)]
+use loom::sync::atomic::AtomicPtr;
 use saa::Lock;
 use sdd::{AtomicShared, Guard, Ptr, Shared, Tag};
 
-- 
2.43.0


From 00f5df700eacc9f87390f88e22941046317c3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:36 +0000
Subject: [PATCH 02/19] fix: TreeIndex::range must not yield entries beyond its
 upper bound

The upper bound check was switched off based on the current max key of the leaf, not on the
snapshot that the scanner traverses; an entry removed in between was yielded out of bounds.
---
 src/tree_index/leaf.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..925b30c 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -164,7 +164,15 @@ impl<K, V> Leaf<K, V> {
     /// Returns a reference to the max entry.
     #[inline]
     pub(super) fn max_entry(&self) -> Option<(&K, &V)> {
-        let mut mutable_metadata = self.metadata.load(Acquire);
+        let max_index = Self::max_index(self.metadata.load(Acquire));
+        if max_index != DIMENSION.num_entries {
+            return Some((self.key_at(max_index), self.value_at(max_index)));
+        }
+        None
+    }
+
+    /// Returns the index of the max entry in the given metadata.
+    fn max_index(mut mutable_metadata: usize) -> usize {
         let mut max_rank = 0;
         let mut max_index = DIMENSION.num_entries;
         for i in 0..DIMENSION.num_entries {
@@ -178,10 +186,7 @@ impl<K, V> Leaf<K, V> {
             }
             mutable_metadata >>= DIMENSION.num_bits_per_entry;
         }
-        if max_index != DIMENSION.num_entries {
-            return Some((self.key_at(max_index), self.value_at(max_index)));
-        }
-        None
+        max_index
     }
 
     /// Inserts a key value pair at the specified position without checking the metadata.
@@ -897,10 +902,15 @@ impl<'l, K, V> Scanner<'l, K, V> {
         ))
     }
 
-    /// Returns a reference to the max key.
+    /// Returns a reference to the max key in the snapshot that the [`Scanner`] is traversing.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-        self.leaf.max_key()
+        let max_index = Leaf::<K, V>::max_index(self.metadata);
+        if max_index == DIMENSION.num_entries {
+            None
+        } else {
+            Some(self.leaf.key_at(max_index))
+        }
     }
 
     /// Traverses the linked list.
-- 
2.43.0


From 3b23d7efad8b2ebb44cc4eae7b20f1ffb432ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 03/19] fix: TreeIndex::remove_if must not remove the key again
 when it retries cleaning up the root

If the root could not be cleaned up after the removal, the loop called remove_if again and removed
an entry that had been inserted in the meantime.
---
 src/tree_index.rs | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..19f75bc 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -379,7 +379,12 @@ where
             {
                 let guard = Guard::new();
                 if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
-                    if let Ok(result) = root_ref.remove_if::<_, _, _>(
+                    if removed {
+                        // The key was already removed, and it must not be removed again.
+                        if Node::cleanup_root(&self.root, &mut pinned_async_wait, &guard) {
+                            return true;
+                        }
+                    } else if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
                         &mut condition,
                         &mut pinned_async_wait,
@@ -396,19 +401,7 @@ where
                                 }
                                 removed = true;
                             }
-                            RemoveResult::Fail => {
-                                if removed {
-                                    if Node::cleanup_root(
-                                        &self.root,
-                                        &mut pinned_async_wait,
-                                        &guard,
-                                    ) {
-                                        return true;
-                                    }
-                                } else {
-                                    return false;
-                                }
-                            }
+                            RemoveResult::Fail => return false,
                             RemoveResult::Frozen => (),
                         }
                     }
@@ -447,7 +440,12 @@ where
         loop {
             let guard = Guard::new();
             if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
-                if let Ok(result) =
+                if removed {
+                    // The key was already removed, and it must not be removed again.
+                    if Node::cleanup_root(&self.root, &mut (), &guard) {
+                        return true;
+                    }
+                } else if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
                 {
                     if matches!(result, RemoveResult::Cleanup) {
@@ -461,15 +459,7 @@ where
                             }
                             removed = true;
                         }
-                        RemoveResult::Fail => {
-                            if removed {
-                                if Node::cleanup_root(&self.root, &mut (), &guard) {
-                                    return true;
-                                }
-                            } else {
-                                return false;
-                            }
-                        }
+                        RemoveResult::Fail => return false,
                         RemoveResult::Frozen => (),
                     }
                 }
-- 
2.43.0


From 7528e627f4547282a3ec27612306b3cc05dfe193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 04/19] fix: a finished HashIndex iterator must not yield again

---
 src/hash_index.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 3ec4603..086535b 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -115,6 +115,7 @@ where
     index: usize,
     bucket: Option<&'h Bucket<K, V, (), INDEX>>,
     entry_ptr: EntryPtr<K, V, INDEX>,
+    finished: bool,
     guard: &'h Guard,
 }
 
@@ -1178,6 +1179,7 @@ where
             index: 0,
             bucket: None,
             entry_ptr: EntryPtr::null(),
+            finished: false,
             guard,
         }
     }
@@ -2100,11 +2102,18 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+
         let mut array = if let Some(&array) = self.bucket_array.as_ref() {
             array
         } else {
             // Start scanning.
-            let current_array = self.hashindex.bucket_array(self.guard)?;
+            let Some(current_array) = self.hashindex.bucket_array(self.guard) else {
+                self.finished = true;
+                return None;
+            };
             let array = if let Some(old_array) = current_array.linked_array(self.guard) {
                 old_array
             } else {
@@ -2130,7 +2139,9 @@ where
             if self.index + 1 == array.len() {
                 // Move to a newer bucket array.
                 self.index = 0;
-                let current_array = self.hashindex.bucket_array(self.guard)?;
+                let Some(current_array) = self.hashindex.bucket_array(self.guard) else {
+                    break;
+                };
                 if self
                     .bucket_array
                     .as_ref()
@@ -2164,6 +2175,7 @@ where
                 self.bucket.replace(array.bucket(self.index));
             }
         }
+        self.finished = true;
         None
     }
 }
-- 
2.43.0


From 16527244fe5718398b020d15ecb89718ecb58df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 05/19] fix: finished TreeIndex iterators must not yield again

---
 src/tree_index.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index 19f75bc..eaf93bf 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -73,6 +73,7 @@ pub struct TreeIndex<K, V> {
 pub struct Iter<'t, 'g, K, V> {
     root: &'t AtomicShared<Node<K, V>>,
     leaf_scanner: Option<Scanner<'g, K, V>>,
+    finished: bool,
     guard: &'g Guard,
 }
 
@@ -83,6 +84,7 @@ pub struct Range<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> {
     bounds: R,
     check_lower_bound: bool,
     check_upper_bound: bool,
+    finished: bool,
     guard: &'g Guard,
     query: PhantomData<fn() -> Q>,
 }
@@ -862,6 +864,7 @@ impl<'t, 'g, K, V> Iter<'t, 'g, K, V> {
         Iter::<'t, 'g, K, V> {
             root,
             leaf_scanner: None,
+            finished: false,
             guard,
         }
     }
@@ -885,6 +888,10 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+
         // Starts scanning.
         if self.leaf_scanner.is_none() {
             let root_ptr = self.root.load(Acquire, self.guard);
@@ -892,8 +899,6 @@ where
                 if let Some(scanner) = root_ref.min(self.guard) {
                     self.leaf_scanner.replace(scanner);
                 }
-            } else {
-                return None;
             }
         }
 
@@ -912,6 +917,7 @@ where
                 }
             }
         }
+        self.finished = true;
         None
     }
 }
@@ -938,6 +944,7 @@ impl<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> Range<'t, 'g, K, V, Q, R> {
             bounds: range,
             check_lower_bound: true,
             check_upper_bound: false,
+            finished: false,
             guard,
             query: PhantomData,
         }
@@ -1045,6 +1052,10 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+
         while let Some((k, v)) = self.next_unbounded() {
             if self.check_lower_bound {
                 match self.bounds.start_bound() {
@@ -1082,6 +1093,7 @@ where
             }
             return Some((k, v));
         }
+        self.finished = true;
         None
     }
 }
-- 
2.43.0


From f370b751b552d5a70bc6196ff3462b81b0cede3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 06/19] fix: TreeIndex iterators must not go backwards after
 remove_range detaches the leaf being scanned

---
 src/tree_index/leaf.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 925b30c..b20fd29 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -927,19 +927,18 @@ impl<'l, K, V> Scanner<'l, K, V> {
         while let Some(next_leaf_ref) = next_leaf_ptr.as_ref() {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
-                if !self.leaf.is_clear(Relaxed) {
-                    // Data race resolution: compare keys if the current leaf has been deleted.
-                    //
-                    // There is a chance that the current leaf has been deleted, and smaller
-                    // keys have been inserted into the next leaf.
-                    while let Some((k, _)) = leaf_scanner.next() {
-                        if key.cmp(k) == Ordering::Less {
-                            return Some(leaf_scanner);
-                        }
+                // Data race resolution: skip keys that must not be visited again.
+                //
+                // There is a chance that the current leaf has been deleted, or detached along with
+                // its parent node without being marked deleted, and smaller keys have been inserted
+                // into the next leaf.
+                while let Some((k, _)) = leaf_scanner.next() {
+                    if key.cmp(k) == Ordering::Less {
+                        return Some(leaf_scanner);
                     }
-                    next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
-                    continue;
                 }
+                next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
+                continue;
             }
             if leaf_scanner.next().is_some() {
                 return Some(leaf_scanner);
-- 
2.43.0


From 329a5e1b6b375eef99f0df2f78d7744e9049a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 07/19] fix: collecting into a container must not allocate for
 the upper size hint

---
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 src/hash_set.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 086535b..8bca154 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1356,7 +1356,7 @@ where
     fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
         let into_iter = iter.into_iter();
         let hashindex = Self::with_capacity_and_hasher(
-            Self::capacity_from_size_hint(into_iter.size_hint()),
+            Self::capacity_from_size_hint((into_iter.size_hint().0, None)),
             H::default(),
         );
         into_iter.for_each(|e| {
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 494f7ee..89989d3 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1613,7 +1613,7 @@ where
     fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
         let into_iter = iter.into_iter();
         let hashmap = Self::with_capacity_and_hasher(
-            Self::capacity_from_size_hint(into_iter.size_hint()),
+            Self::capacity_from_size_hint((into_iter.size_hint().0, None)),
             H::default(),
         );
         into_iter.for_each(|e| {
diff --git a/src/hash_set.rs b/src/hash_set.rs
index 7f6393c..dfae837 100644
--- a/src/hash_set.rs
+++ b/src/hash_set.rs
@@ -875,7 +875,7 @@ where
     fn from_iter<T: IntoIterator<Item = K>>(iter: T) -> Self {
         let into_iter = iter.into_iter();
         let hashset = Self::with_capacity_and_hasher(
-            HashMap::<K, (), H>::capacity_from_size_hint(into_iter.size_hint()),
+            HashMap::<K, (), H>::capacity_from_size_hint((into_iter.size_hint().0, None)),
             H::default(),
         );
         into_iter.for_each(|k| {
-- 
2.43.0


From 64ab7302ccc5d930ce85c93d8eb99985b71638dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 08/19] fix: capacity_range must not expose the flag of a
 resize in progress

---
 src/hash_cache.rs | 2 +-
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_cache.rs b/src/hash_cache.rs
index b2a085f..3e45c9b 100644
--- a/src/hash_cache.rs
+++ b/src/hash_cache.rs
@@ -1154,7 +1154,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 }
 
diff --git a/src/hash_index.rs b/src/hash_index.rs
index 8bca154..30ae051 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1116,7 +1116,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 89989d3..9b8d090 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1457,7 +1457,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
-- 
2.43.0


From f5f34574cc56cbd3abc763ce0f16cb4b1b4dbac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 09/19] fix: a reservation must not stay in effect when its
 allocation fails

---
 src/hash_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..42fc2c6 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -105,12 +105,18 @@ where
                 Relaxed,
             ) {
                 Ok(_) => {
+                    // The reservation must not stay in effect if memory allocation fails.
+                    let cancel_guard = ExitGuard::new((), |()| {
+                        self.minimum_capacity_var()
+                            .fetch_sub(additional_capacity, Relaxed);
+                    });
                     let guard = Guard::new();
                     if let Some(current_array) = self.bucket_array(&guard) {
                         if !current_array.has_linked_array() {
                             self.try_resize(current_array, 0, &guard);
                         }
                     }
+                    cancel_guard.forget();
                     return additional_capacity;
                 }
                 Err(actual) => current_minimum_capacity = actual,
-- 
2.43.0


From fb4ed6761b3979c223bb06c4e12b496a01dfc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 10/19] fix: roll back the linked list when splitting a leaf
 panics

---
 src/tree_index/leaf_node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index ad5d4d6..5df6fc6 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -808,7 +808,16 @@ where
 
         // Distribute entries to two leaves after make the target retired.
         let exit_guard = ExitGuard::new((), |()| {
+            // Roll back the linked list state if the new leaves have become reachable.
+            //
+            // The high key leaf must be deleted first in order for `Scanners` not to omit entries.
+            for new_leaf in [&self.split_op.high_key_leaf, &self.split_op.low_key_leaf] {
+                if let Some(new_leaf) = new_leaf.load(Relaxed, guard).as_ref() {
+                    new_leaf.delete_self(Release);
+                }
+            }
             target.thaw();
+            target.unmark(Release);
             self.split_op.reset();
             self.lock.release_lock();
         });
-- 
2.43.0


From 719310172cc9863bc374fcea449850096e781b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 11/19] fix: a panic while coalescing leaves must not unlink a
 reachable leaf

---
 src/tree_index/leaf_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 5df6fc6..09b57d1 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -935,10 +935,12 @@ where
                 let leaf_ptr = entry.1.load(Acquire, guard);
                 let leaf = leaf_ptr.as_ref().unwrap();
                 if leaf.is_retired() {
-                    let deleted = leaf.delete_self(Release);
-                    debug_assert!(deleted);
+                    // `remove_if` may panic when comparing keys, and the retired leaf must stay in
+                    // the linked list as long as it is reachable through `self.children`.
                     let result = self.children.remove_if(entry.0, &mut |_| true);
                     debug_assert_ne!(result, RemoveResult::Fail);
+                    let deleted = leaf.delete_self(Release);
+                    debug_assert!(deleted);
 
                     // The pointer is nullified after the metadata of `self.children` is updated so
                     // that readers are able to retry when they find it being `null`.
-- 
2.43.0


From a82c160e76ddda4b9652d6a596993e04f0f5844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 12/19] fix: remove_range must not cut the leaf list when a
 node on its border retires

If the leaf node at the upper border of the range became empty while
remove_range was running, the leaf below the range got connected to
nothing, and iterators could not see entries beyond the range any more.
Connect the leaves on the border before removing the nodes in between, and
retry if a node on the border has retired.
---
 src/tree_index/internal_node.rs | 91 +++++++++++++++++++++------------
 src/tree_index/leaf_node.rs     | 22 +++++---
 2 files changed, 73 insertions(+), 40 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 1ff2769..2ff6de3 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -441,6 +441,10 @@ where
         debug_assert!(valid_lower_max_leaf.is_none() || start_unbounded);
         debug_assert!(valid_lower_max_leaf.is_none() || valid_upper_min_node.is_none());
 
+        // Retired nodes cannot be on the border of the range, since they do not have any leaves to
+        // connect.
+        let _: RemoveResult = self.coalesce(guard);
+
         let Some(_lock) = Locker::try_lock(self) else {
             async_wait.try_wait(&self.lock);
             return Err(());
@@ -462,18 +466,10 @@ where
                     num_children += 1;
                     lower_border.replace((Some(key), node));
                 }
-                RemoveRangeState::FullyContained => {
-                    // There can be another thread inserting keys into the node, and this may
-                    // render those concurrent operations completely ineffective.
-                    self.children.remove_if(key, &mut |_| true);
-                    node.swap((None, Tag::None), AcqRel);
-                }
+                RemoveRangeState::FullyContained => (),
                 RemoveRangeState::MaybeAbove => {
-                    if valid_upper_min_node.is_some() {
-                        // `valid_upper_min_node` is not in this sub-tree.
-                        self.children.remove_if(key, &mut |_| true);
-                        node.swap((None, Tag::None), AcqRel);
-                    } else {
+                    // `valid_upper_min_node` is not in this sub-tree.
+                    if valid_upper_min_node.is_none() {
                         num_children += 1;
                         upper_border.replace(node);
                     }
@@ -503,41 +499,46 @@ where
                 upper_border.replace(&self.unbounded_child);
             }
             RemoveRangeState::MaybeAbove => {
-                debug_assert!(upper_border.is_some());
+                debug_assert!(valid_upper_min_node.is_some() || upper_border.is_some());
             }
         }
 
+        // Leaves on the border must be connected before the nodes between them are removed, since
+        // it is not possible to find the leaves once the nodes are gone.
         if let Some(lower_leaf) = valid_lower_max_leaf {
             // It is currently in the middle of a recursive call: pass `lower_leaf` to connect leaves.
             debug_assert!(start_unbounded && lower_border.is_none() && upper_border.is_some());
-            if let Some(upper_node) = upper_border.and_then(|n| n.load(Acquire, guard).as_ref()) {
-                upper_node.remove_range(range, true, Some(lower_leaf), None, async_wait, guard)?;
-            }
+            let Some(upper_node) = upper_border.and_then(|n| n.load(Acquire, guard).as_ref()) else {
+                // This node has retired: retry after it is removed from its parent node.
+                return Err(());
+            };
+            upper_node.remove_range(range, true, Some(lower_leaf), None, async_wait, guard)?;
         } else if let Some(upper_node) = valid_upper_min_node {
             // Pass `upper_node` to the lower leaf to connect leaves, so that this method can be
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
-            if let Some((Some(key), lower_node)) = lower_border {
-                self.children.remove_if(key, &mut |_| true);
-                self.unbounded_child
-                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
-                lower_node.swap((None, Tag::None), Release);
-            }
-            if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
-                lower_node.remove_range(
-                    range,
-                    start_unbounded,
-                    None,
-                    Some(upper_node),
-                    async_wait,
-                    guard,
-                )?;
-            }
+            let Some(lower_node) = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref())
+            else {
+                // This node has retired: retry after it is removed from its parent node.
+                return Err(());
+            };
+            lower_node.remove_range(
+                range,
+                start_unbounded,
+                None,
+                Some(upper_node),
+                async_wait,
+                guard,
+            )?;
         } else {
             let lower_node = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref());
             let upper_node = upper_border.and_then(|n| n.load(Acquire, guard).as_ref());
             match (lower_node, upper_node) {
-                (_, None) => (),
+                (None, None) => (),
+                (Some(_), None) => {
+                    // The unbounded child has retired: retry after it is replaced.
+                    return Err(());
+                }
                 (None, Some(upper_node)) => {
                     upper_node.remove_range(
                         range,
@@ -562,6 +563,32 @@ where
             }
         }
 
+        // Remove nodes that are fully contained in the range.
+        current_state = RemoveRangeState::Below;
+        for (key, node) in Scanner::new(&self.children) {
+            current_state = current_state.next(key, range, start_unbounded);
+            if current_state == RemoveRangeState::FullyContained
+                || (current_state == RemoveRangeState::MaybeAbove && valid_upper_min_node.is_some())
+            {
+                // There can be another thread inserting keys into the node, and this may render
+                // those concurrent operations completely ineffective.
+                self.children.remove_if(key, &mut |_| true);
+                node.swap((None, Tag::None), AcqRel);
+            }
+            if current_state == RemoveRangeState::MaybeAbove {
+                break;
+            }
+        }
+        if valid_upper_min_node.is_some() {
+            if let Some((Some(key), lower_node)) = lower_border {
+                // The unbounded child is fully contained in the range as well.
+                self.unbounded_child
+                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                self.children.remove_if(key, &mut |_| true);
+                lower_node.swap((None, Tag::None), Release);
+            }
+        }
+
         Ok(num_children)
     }
 
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 09b57d1..9a20fad 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -494,19 +494,25 @@ where
             if first_valid_leaf.is_none() {
                 first_valid_leaf.replace(&self.unbounded_child);
             }
-            valid_lower_max_leaf.link_ref().swap(
-                (
-                    first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard)),
-                    Tag::None,
-                ),
-                AcqRel,
-            );
+            let Some(first_valid_leaf) =
+                first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard))
+            else {
+                // This node has retired: retry after it is removed from its parent node.
+                return Err(());
+            };
+            valid_lower_max_leaf
+                .link_ref()
+                .swap((Some(first_valid_leaf), Tag::None), AcqRel);
         } else if let Some(valid_upper_min_node) = valid_upper_min_node {
             // Connect the unbounded child with the minimum valid leaf in the node.
+            let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() else {
+                // This node has retired: retry after it is removed from its parent node.
+                return Err(());
+            };
             valid_upper_min_node.remove_range(
                 range,
                 true,
-                self.unbounded_child.load(Acquire, guard).as_ref(),
+                Some(unbounded),
                 None,
                 async_wait,
                 guard,
-- 
2.43.0


From 6a82dac3c723c0d1131ddbfcb3e28830c86ebf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 13/19] fix: unlock the target buckets if an asynchronous
 rehash is dropped

relocate_bucket_async locks every bucket that the entries of an old bucket
move to. When the Future was dropped while awaiting a second or later target
bucket, those already locked stayed locked forever.
---
 src/hash_table.rs | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index 42fc2c6..81ee934 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -910,34 +910,35 @@ where
             return;
         }
 
-        // Lock the target buckets.
-        let (target_index, end_target_index) =
-            from_index_to_range(old_array.len(), current_array.len(), old_index);
-        for i in target_index..end_target_index {
+        // Lock the target buckets: the `Future` can be dropped while awaiting, therefore those that
+        // have been locked are tracked.
+        let target_index = from_index_to_range(old_array.len(), current_array.len(), old_index).0;
+        let mut unlock = ExitGuard::new(
+            (current_array, target_index, target_index),
+            |(current_array, target_index, end_locked_index)| {
+                for i in target_index..end_locked_index {
+                    let writer = Writer::from_bucket(current_array.bucket(i));
+                    drop(writer);
+                }
+            },
+        );
+        let old_array = loop {
+            // It may seem inefficient to reevaluate the same values, but it is beneficial for
+            // reducing the `Future` size.
+            let Some(old_array) = unlock.0.linked_array(async_guard.guard()) else {
+                return;
+            };
+            if unlock.2 == from_index_to_range(old_array.len(), unlock.0.len(), old_index).1 {
+                break old_array;
+            }
             let writer = unsafe {
-                Writer::lock_async(current_array.bucket(i), async_guard)
+                Writer::lock_async(unlock.0.bucket(unlock.2), async_guard)
                     .await
                     .unwrap_unchecked()
             };
             forget(writer);
-        }
-
-        // It may seem inefficient to reevaluate the same values, but it is beneficial for reducing
-        // the `Future` size.
-        let Some(old_array) = current_array.linked_array(async_guard.guard()) else {
-            return;
+            unlock.2 += 1;
         };
-        let (target_index, end_target_index) =
-            from_index_to_range(old_array.len(), current_array.len(), old_index);
-        let unlock = ExitGuard::new(
-            (current_array, target_index, end_target_index),
-            |(current_array, target_index, end_target_index)| {
-                for i in target_index..end_target_index {
-                    let writer = Writer::from_bucket(current_array.bucket(i));
-                    drop(writer);
-                }
-            },
-        );
 
         self.relocate_bucket(unlock.0, unlock.1, old_array, old_index, &old_writer);
         drop(unlock);
-- 
2.43.0


From ea82b139d538cf8a26608509e3850adddaa0b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 14/19] fix: reclaim removed entries in overflow buckets of
 HashIndex

If every slot in the main block of a bucket was occupied by a live entry, removed entries in
overflow buckets were never reclaimed: repeatedly inserting and removing a key in such a bucket
allocated overflow buckets without bound.
---
 src/hash_table/bucket.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 4a76a81..5db8c0e 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -151,14 +151,12 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         entry: (K, V),
     ) -> EntryPtr<K, V, TYPE> {
         let occupied_bitmap = self.metadata.occupied_bitmap.load(Relaxed);
-        let occupied_bitmap = if TYPE == INDEX
-            && occupied_bitmap == u32::MAX
-            && self.metadata.removed_bitmap.load(Relaxed) != 0
-        {
-            self.clear_unreachable_entries(data_block_ref(data_block))
-        } else {
-            occupied_bitmap
-        };
+        let occupied_bitmap =
+            if TYPE == INDEX && occupied_bitmap == u32::MAX && self.has_reclaimable_slots() {
+                self.clear_unreachable_entries(data_block_ref(data_block))
+            } else {
+                occupied_bitmap
+            };
         let free_index = occupied_bitmap.trailing_ones() as usize;
         if free_index == BUCKET_LEN {
             self.insert_overflow(hash, entry)
@@ -462,6 +460,28 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         );
     }
 
+    /// Returns `true` if clearing unreachable entries may save an overflow slot.
+    ///
+    /// Removed entries in overflow buckets only matter if there is no free slot in them.
+    fn has_reclaimable_slots(&self) -> bool {
+        debug_assert_eq!(TYPE, INDEX);
+
+        if self.metadata.removed_bitmap.load(Relaxed) != 0 {
+            return true;
+        }
+        let mut has_removed = false;
+        let mut link_ptr = self.metadata.load_link();
+        while let Some(link) = link_ref(link_ptr) {
+            let occupied_bitmap = link.metadata.occupied_bitmap.load(Relaxed);
+            if occupied_bitmap.trailing_ones() as usize != LINKED_BUCKET_LEN {
+                return false;
+            }
+            has_removed |= link.metadata.removed_bitmap.load(Relaxed) != 0;
+            link_ptr = link.metadata.load_link();
+        }
+        has_removed
+    }
+
     /// Clears unreachable entries.
     fn clear_unreachable_entries(&self, data_block: &DataBlock<K, V, BUCKET_LEN>) -> u32 {
         debug_assert_eq!(TYPE, INDEX);
-- 
2.43.0


From a7d011e60182ac638c56c2370d11e6a0e8de7ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 15/19] fix: let HashIndex reclaim old bucket arrays while new
 ones are being retired

Retiring a bucket array renewed the epoch of the whole garbage chain, and therefore a HashIndex
that keeps on retiring bucket arrays, e.g., by repeatedly becoming empty, never reclaimed any of
them. The chain also used the linked array field which readers may still follow.
---
 src/hash_index.rs              | 66 ++++++++++++++++++++++++++--------
 src/hash_table/bucket_array.rs | 25 +++++++++++--
 2 files changed, 74 insertions(+), 17 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 30ae051..c0f5185 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -17,7 +17,7 @@ use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 use loom::sync::atomic::AtomicU8;
 #[cfg(feature = "loom")]
 use loom::sync::atomic::AtomicUsize;
-use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
+use sdd::{AtomicShared, Epoch, Guard, Ptr, Shared, Tag};
 
 use super::Equivalent;
 use super::hash_table::bucket::{Bucket, EntryPtr, INDEX};
@@ -1210,17 +1210,61 @@ where
             ) {
                 while let Some(garbage_bucket_array) = garbage_head {
                     garbage_head = garbage_bucket_array
-                        .linked_array_var()
+                        .garbage_link_var()
                         .swap((None, Tag::None), Acquire)
                         .0;
-                    let dropped = unsafe { garbage_bucket_array.drop_in_place() };
-                    debug_assert!(dropped);
+                    let epoch = garbage_bucket_array.garbage_epoch_var().load(Relaxed);
+                    if Epoch::try_from(epoch).is_ok_and(|e| !e.in_same_generation(guard.epoch())) {
+                        let dropped = unsafe { garbage_bucket_array.drop_in_place() };
+                        debug_assert!(dropped);
+                    } else {
+                        self.push_garbage(garbage_bucket_array, &guard);
+                    }
                 }
             }
         } else {
             guard.set_has_garbage();
         }
     }
+
+    /// Pushes a retired bucket array to the garbage chain.
+    ///
+    /// `garbage_epoch` is only updated when the garbage chain is empty, otherwise bucket arrays
+    /// that have been retired repeatedly would prevent older ones from being reclaimed.
+    fn push_garbage(&self, bucket_array: Shared<BucketArray<K, V, (), INDEX>>, guard: &Guard) {
+        let epoch = bucket_array.garbage_epoch_var().load(Relaxed);
+        let mut head = bucket_array;
+        loop {
+            // The chain is not accessible to other threads until it is pushed back.
+            if let Some(prev_head) = self.garbage_chain.swap((None, Tag::None), Acquire).0 {
+                let mut tail: &BucketArray<K, V, (), INDEX> = &head;
+                while let Some(next) = unsafe {
+                    tail.garbage_link_var()
+                        .load(Acquire, guard)
+                        .as_ref_unchecked()
+                } {
+                    tail = next;
+                }
+                tail.garbage_link_var()
+                    .swap((Some(prev_head), Tag::None), Release);
+            } else {
+                self.garbage_epoch.store(epoch, Release);
+            }
+            match self.garbage_chain.compare_exchange(
+                Ptr::null(),
+                (Some(head), Tag::None),
+                AcqRel,
+                Relaxed,
+                guard,
+            ) {
+                Ok(_) => return,
+                Err((passed, _)) => {
+                    let Some(passed) = passed else { return };
+                    head = passed;
+                }
+            }
+        }
+    }
 }
 
 impl<K, V, H> Clone for HashIndex<K, V, H>
@@ -1338,7 +1382,7 @@ where
         let mut garbage_head = self.garbage_chain.swap((None, Tag::None), Acquire).0;
         while let Some(garbage_bucket_array) = garbage_head {
             garbage_head = garbage_bucket_array
-                .linked_array_var()
+                .garbage_link_var()
                 .swap((None, Tag::None), Acquire)
                 .0;
             let dropped = unsafe { garbage_bucket_array.drop_in_place() };
@@ -1380,17 +1424,11 @@ where
     fn defer_reclaim(&self, bucket_array: Shared<BucketArray<K, V, (), INDEX>>, guard: &Guard) {
         guard.accelerate();
         self.reclaim_memory();
-        self.garbage_epoch.swap(u8::from(guard.epoch()), Release);
-        let (Some(prev_head), _) = self
-            .garbage_chain
-            .swap((Some(bucket_array.clone()), Tag::None), AcqRel)
-        else {
-            return;
-        };
         // The bucket array will be dropped when the epoch enters the next generation.
         bucket_array
-            .linked_array_var()
-            .swap((Some(prev_head), Tag::None), Release);
+            .garbage_epoch_var()
+            .store(u8::from(guard.epoch()), Relaxed);
+        self.push_garbage(bucket_array, guard);
     }
 
     #[inline]
diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index 13d629f..70e2691 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -2,12 +2,12 @@ use std::alloc::{Layout, alloc, alloc_zeroed, dealloc};
 use std::mem::{align_of, needs_drop, size_of};
 use std::panic::UnwindSafe;
 use std::ptr::NonNull;
-#[cfg(not(scc_verif))]
-use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{Acquire, Relaxed};
+#[cfg(not(scc_verif))]
+use std::sync::atomic::{AtomicU8, AtomicUsize};
 
 #[cfg(scc_verif)]
-use loom::sync::atomic::AtomicUsize;
+use loom::sync::atomic::{AtomicU8, AtomicUsize};
 use sdd::{AtomicShared, Guard, Tag};
 
 use super::bucket::{BUCKET_LEN, Bucket, DataBlock, INDEX, LruList};
@@ -23,6 +23,8 @@ pub struct BucketArray<K, V, L: LruList, const TYPE: char> {
     bucket_ptr_offset: u16,
     linked_array: AtomicShared<BucketArray<K, V, L, TYPE>>,
     num_cleared_buckets: AtomicUsize,
+    garbage_link: AtomicShared<BucketArray<K, V, L, TYPE>>,
+    garbage_epoch: AtomicU8,
 }
 
 impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
@@ -95,6 +97,8 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
                 bucket_ptr_offset: bucket_array_ptr_offset,
                 linked_array,
                 num_cleared_buckets: AtomicUsize::new(0),
+                garbage_link: AtomicShared::null(),
+                garbage_epoch: AtomicU8::new(u8::MAX),
             }
         }
     }
@@ -182,6 +186,21 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
         unsafe { self.linked_array.load(Acquire, guard).as_ref_unchecked() }
     }
 
+    /// Returns a reference to the pointer to the next garbage bucket array.
+    ///
+    /// It is only used after the bucket array was retired, and is not visible to readers that may
+    /// still be accessing the retired bucket array.
+    #[inline]
+    pub(crate) const fn garbage_link_var(&self) -> &AtomicShared<BucketArray<K, V, L, TYPE>> {
+        &self.garbage_link
+    }
+
+    /// Returns a reference to the epoch when the bucket array was retired.
+    #[inline]
+    pub(crate) const fn garbage_epoch_var(&self) -> &AtomicU8 {
+        &self.garbage_epoch
+    }
+
     /// Calculates the layout of the memory block for an array of `T`.
     #[inline]
     const fn bucket_array_layout(array_len: usize) -> Layout {
-- 
2.43.0


From dfdda4c472ebe0cb93513c096f395e1c965a6bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 16/19] fix: unlink a full leaf that was found to have no valid
 entries when it is replaced

---
 src/tree_index/leaf_node.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 9a20fad..32aedb7 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -293,9 +293,13 @@ where
                                     guard,
                                 )?;
                                 if let InsertResult::Retry(k, v) = split_result {
-                                    key = k;
-                                    val = v;
-                                    continue;
+                                    // The full leaf has to be unlinked from the linked list.
+                                    if self.cleanup_link(&k, false, guard) {
+                                        key = k;
+                                        val = v;
+                                        continue;
+                                    }
+                                    return Ok(InsertResult::Retry(k, v));
                                 }
                                 return Ok(split_result);
                             }
@@ -350,9 +354,12 @@ where
                             guard,
                         )?;
                         if let InsertResult::Retry(k, v) = split_result {
-                            key = k;
-                            val = v;
-                            continue;
+                            if self.cleanup_link(&k, false, guard) {
+                                key = k;
+                                val = v;
+                                continue;
+                            }
+                            return Ok(InsertResult::Retry(k, v));
                         }
                         return Ok(split_result);
                     }
-- 
2.43.0


From 7541aeabfc98a82bf9caf14be4bdcb0108af1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 17/19] fix: let a chain of unlinked leaves be reclaimed at
 once, not one leaf at a time

---
 src/tree_index/leaf.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index b20fd29..c5ada4f 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -745,6 +745,16 @@ where
 impl<K, V> Drop for Leaf<K, V> {
     #[inline]
     fn drop(&mut self) {
+        // Deleted leaves form a chain of strong references: without making those that follow refer
+        // to the next valid leaf directly, only one leaf in the chain would be reclaimed at a time.
+        if !self.link.is_null(Relaxed) {
+            let guard = Guard::new();
+            if let Some(next_leaf) = self.link.load(Acquire, &guard).as_ref() {
+                if next_leaf.is_deleted(Relaxed) {
+                    next_leaf.next_ptr(Acquire, &guard);
+                }
+            }
+        }
         if needs_drop::<(K, V)>() {
             let mut mutable_metadata = self.metadata.load(Acquire);
             for i in 0..DIMENSION.num_entries {
-- 
2.43.0


From 55a8b89624e61b06be308891a52607e600ea4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 18/19] fix: unlink the leaves of a leaf node that is dropped
 as a whole

---
 src/tree_index/leaf_node.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 32aedb7..7a68373 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -1040,6 +1040,27 @@ where
     }
 }
 
+impl<K, V> Drop for LeafNode<K, V> {
+    #[inline]
+    fn drop(&mut self) {
+        // The leaves belong to other leaf nodes if the lock is held or poisoned: `self` was replaced
+        // with other leaf nodes, or it has never become reachable.
+        if self.lock.try_lock() {
+            // No key can be found in the leaves, therefore they have to be unlinked; otherwise,
+            // obsolete leaves on both sides would not be reclaimed at once.
+            let guard = Guard::new();
+            for (_, leaf) in Scanner::new(&self.children) {
+                if let Some(leaf) = leaf.load(Acquire, &guard).as_ref() {
+                    leaf.delete_self(Release);
+                }
+            }
+            if let Some(leaf) = self.unbounded_child.load(Acquire, &guard).as_ref() {
+                leaf.delete_self(Release);
+            }
+        }
+    }
+}
+
 impl<'n, K, V> Locker<'n, K, V> {
     /// Acquires exclusive lock on the [`LeafNode`].
     #[inline]
-- 
2.43.0


From 7a203d8e4c2cb5c8fa604ccb33ebf278fdc40a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 19/19] verif hook: report where keys and values are written
 (cfg scc_verif)

---
 src/hash_table/bucket.rs |  4 ++++
 src/tree_index/leaf.rs   | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 5db8c0e..3b37a70 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -421,6 +421,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.write_cell(&link.data_block[0], |block| unsafe {
             block.as_mut_ptr().write(entry);
         });
+        #[cfg(scc_verif)]
+        loom::rt::slot_written(link.data_block[0].get().addr(), size_of::<(K, V)>());
         self.write_cell(&link.metadata.partial_hash_array[0], |h| {
             *h = Self::partial_hash(hash);
         });
@@ -451,6 +453,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.write_cell(&data_block[index], |block| unsafe {
             block.as_mut_ptr().write(entry);
         });
+        #[cfg(scc_verif)]
+        loom::rt::slot_written(data_block[index].get().addr(), size_of::<(K, V)>());
         self.write_cell(&metadata.partial_hash_array[index], |h| {
             *h = Self::partial_hash(hash);
         });
diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index c5ada4f..ff686eb 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -198,6 +198,8 @@ impl<K, V> Leaf<K, V> {
         let metadata = self.metadata.load(Relaxed);
         let new_metadata = DIMENSION.augment(metadata, index, index + 1);
         self.write(index, key, val);
+        #[cfg(scc_verif)]
+        self.verif_written(index);
         self.metadata.store(new_metadata, Release);
     }
 
@@ -270,6 +272,19 @@ impl<K, V> Leaf<K, V> {
         unsafe { &*(*self.entry_array.get()).1[index].as_ptr() }
     }
 
+    /// Reports that a key and a value were written.
+    #[cfg(scc_verif)]
+    fn verif_written(&self, index: usize) {
+        loom::rt::slot_written(
+            std::ptr::from_ref(self.key_at(index)).addr(),
+            size_of::<K>(),
+        );
+        loom::rt::slot_written(
+            std::ptr::from_ref(self.value_at(index)).addr(),
+            size_of::<V>(),
+        );
+    }
+
     /// Writes the key and value at the given index.
     const fn write(&self, index: usize, key: K, val: V) {
         unsafe {
@@ -371,6 +386,8 @@ where
                     }
 
                     self.write(i, key, val);
+                    #[cfg(scc_verif)]
+                    self.verif_written(i);
                     return self.post_insert(i, interim_metadata);
                 }
                 mutable_metadata >>= DIMENSION.num_bits_per_entry;
-- 
2.43.0

