From 280623d6b3cb4f6f00c51d402264a6bf06b9f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 01/12] fix: load the atomic counter with acquire ordering

ConIterOfIter hands the wrapped iterator over from one thread to the next by
advancing its yielded counter, which the next thread reads with
AtomicCounter::current. With a relaxed load, executions of the wrapped
iterator's next method were not ordered by happens-before.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..5c7d984 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -27,7 +27,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From b1962cf3ca0b33c267d39c30dea5eb7ca47e9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 02/12] fix: keep ranges near the largest index in bounds

get computed start + item_idx before checking the bounds, which wraps around
(or panics) once the counter is beyond the end of a range near usize::MAX;
into_seq_iter added a counter beyond the end to start; early_exit stored the
end value of the range, instead of its length, as the number of fetched items.
---
 src/iter/implementors/range.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..d764ef4 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -119,7 +118,7 @@ where
             .unwrap_or(self.initial_len());
         let begin_value = begin_idx + self.range.start.into();
         let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
+            Ordering::Less => begin_value.saturating_add(n).min(self.range.end.into()),
             _ => begin_value,
         };
         let end_idx: usize = end_value - self.range.start.into();
@@ -134,7 +133,7 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        self.counter().store(self.initial_len())
     }
 }
 
@@ -243,7 +242,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From 51323b7ceaf0671fccb5c8770afc0275410e40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 03/12] fix: saturate the counter and chunk ends instead of
 wrapping around

Huge chunk sizes wrapped the counter around, so that exhausted iterators
started to deliver elements again, and begin + n overflowed.
---
 src/iter/atomic_counter.rs     | 14 ++++++++++++--
 src/iter/buffered/range.rs     |  4 +++-
 src/iter/buffered/slice.rs     |  3 ++-
 src/iter/implementors/array.rs |  4 ++--
 src/iter/implementors/slice.rs |  5 ++++-
 src/iter/implementors/vec.rs   |  7 +++++--
 6 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 5c7d984..4407982 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,25 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX`, it never wraps around.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let add = |current: usize| Some(current.saturating_add(len));
+        match self
+            .current
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, add)
+        {
+            Ok(previous) | Err(previous) => previous,
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
+    ///
+    /// The counter saturates at `usize::MAX`, it never wraps around.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..f2c0bb1 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 0c2f8eafcf321e1ba7b3a06c7c46fd61ea315fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 04/12] fix: do not build vectors with zero capacity to move
 chunks out

Vec::from_raw_parts(ptr, len, 0) violates the documented precondition that the
length does not exceed the capacity.
---
 src/iter/implementors/array.rs       |  6 +--
 src/iter/implementors/mod.rs         |  1 +
 src/iter/implementors/owned_chunk.rs | 66 ++++++++++++++++++++++++++++
 src/iter/implementors/vec.rs         |  6 +--
 4 files changed, 73 insertions(+), 6 deletions(-)
 create mode 100644 src/iter/implementors/owned_chunk.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..afa6b70 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -1,3 +1,4 @@
+use super::owned_chunk::OwnedChunk;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -54,14 +55,13 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
         let array = &mut *self.array.get();
         let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        OwnedChunk::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/implementors/mod.rs b/src/iter/implementors/mod.rs
index c6dc775..cc42198 100644
--- a/src/iter/implementors/mod.rs
+++ b/src/iter/implementors/mod.rs
@@ -1,5 +1,6 @@
 pub mod array;
 pub mod iter;
+mod owned_chunk;
 pub mod range;
 pub mod slice;
 pub mod vec;
diff --git a/src/iter/implementors/owned_chunk.rs b/src/iter/implementors/owned_chunk.rs
new file mode 100644
index 0000000..b65bf9b
--- /dev/null
+++ b/src/iter/implementors/owned_chunk.rs
@@ -0,0 +1,66 @@
+use std::{marker::PhantomData, ptr::slice_from_raw_parts_mut};
+
+/// Iterator moving consecutive elements out of a collection that is owned by a concurrent iterator.
+///
+/// Elements which are not moved out are dropped with the chunk; memory of the elements belongs to the collection.
+pub(crate) struct OwnedChunk<'a, T> {
+    begin: *mut T,
+    current: usize,
+    len: usize,
+    phantom: PhantomData<(&'a (), T)>,
+}
+
+impl<T> OwnedChunk<'_, T> {
+    /// Creates the chunk of `len` elements starting at `begin`.
+    ///
+    /// # Safety
+    ///
+    /// The `len` elements starting at `begin` must be initialized, must outlive the chunk and must not be accessed by anyone else.
+    pub(crate) unsafe fn new(begin: *mut T, len: usize) -> Self {
+        Self {
+            begin,
+            current: 0,
+            len,
+            phantom: PhantomData,
+        }
+    }
+}
+
+impl<T> Iterator for OwnedChunk<'_, T> {
+    type Item = T;
+
+    #[inline]
+    fn next(&mut self) -> Option<T> {
+        match self.current < self.len {
+            true => {
+                // SAFETY: the element is in bounds and is moved out only once since `current` is advanced
+                let value = unsafe { self.begin.add(self.current).read() };
+                self.current += 1;
+                Some(value)
+            }
+            false => None,
+        }
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.len - self.current;
+        (remaining, Some(remaining))
+    }
+}
+
+impl<T> ExactSizeIterator for OwnedChunk<'_, T> {}
+
+impl<T> Drop for OwnedChunk<'_, T> {
+    fn drop(&mut self) {
+        // SAFETY: elements starting from `current` are not moved out
+        unsafe {
+            let begin = self.begin.add(self.current);
+            slice_from_raw_parts_mut(begin, self.len - self.current).drop_in_place();
+        }
+    }
+}
+
+unsafe impl<T: Send> Send for OwnedChunk<'_, T> {}
+
+unsafe impl<T: Sync> Sync for OwnedChunk<'_, T> {}
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f2c0bb1..c324a15 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,3 +1,4 @@
+use super::owned_chunk::OwnedChunk;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -54,14 +55,13 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
         let vec = &mut *self.vec.get();
         let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        OwnedChunk::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-- 
2.43.0


From 5f4743b730eb0f338e27cc6de6ca0670273832b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 05/12] fix: drop every element of a consumed array exactly
 once

into_seq_iter handed the remaining elements out and they were dropped again
when the concurrent iterator was dropped; elements skipped by skip_to_end were
never dropped.
---
 src/iter/atomic_counter.rs           |  6 ++++
 src/iter/implementors/array.rs       | 44 ++++++++++++++--------------
 src/iter/implementors/owned_chunk.rs | 14 ++++++---
 3 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 4407982..6e61e5e 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -45,6 +45,12 @@ impl AtomicCounter {
     pub fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
+
+    /// Updates the current value of the counter as the given `new_value`, and returns its previous value.
+    #[inline(always)]
+    pub(crate) fn swap(&self, new_value: usize) -> usize {
+        self.current.swap(new_value, Ordering::SeqCst)
+    }
 }
 
 impl Default for AtomicCounter {
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index afa6b70..e8b3ade 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -1,4 +1,4 @@
-use super::owned_chunk::OwnedChunk;
+use super::owned_chunk::{drop_in_place_range, OwnedChunk};
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -13,6 +13,7 @@ use std::{
     cell::UnsafeCell,
     cmp::Ordering,
     mem::{ManuallyDrop, MaybeUninit},
+    ptr,
 };
 
 /// A concurrent iterator over an array, consuming the array and yielding its elements.
@@ -24,10 +25,9 @@ pub struct ConIterOfArray<const N: usize, T: Send + Sync> {
 
 impl<const N: usize, T: Send + Sync> Drop for ConIterOfArray<N, T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= N {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(N);
+        // SAFETY: elements before `current` are already moved out or dropped
+        unsafe { drop_in_place_range(self.array.get_mut().as_mut_ptr(), current, N) };
     }
 }
 
@@ -63,19 +63,6 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         let ptr = array.as_mut_ptr().add(begin_idx);
         OwnedChunk::new(ptr, len)
     }
-
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= N);
-
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
-
-        *man_array = ManuallyDrop::new(array);
-        right_vec
-    }
 }
 
 impl<const N: usize, T: Send + Sync> From<[T; N]> for ConIterOfArray<N, T> {
@@ -125,7 +112,12 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        let current = self.counter().swap(N).min(N);
+        // SAFETY: elements starting from `current` are not reserved, and can no longer be reserved by any other thread
+        unsafe {
+            let array = &mut *self.array.get();
+            drop_in_place_range(array.as_mut_ptr(), current, N);
+        }
     }
 }
 
@@ -185,9 +177,17 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
-        remaining_vec.into_iter()
+        let mut con_iter = ManuallyDrop::new(self);
+        let current = con_iter.counter().current().min(N);
+        let remaining = N - current;
+        let mut vec = Vec::with_capacity(remaining);
+        // SAFETY: elements before `current` are already moved out or dropped; `con_iter` is neither accessed after this point nor dropped
+        unsafe {
+            let src_ptr = con_iter.array.get_mut().as_ptr().add(current);
+            ptr::copy_nonoverlapping(src_ptr, vec.as_mut_ptr(), remaining);
+            vec.set_len(remaining);
+        }
+        vec.into_iter()
     }
 
     #[inline(always)]
diff --git a/src/iter/implementors/owned_chunk.rs b/src/iter/implementors/owned_chunk.rs
index b65bf9b..f06d6e0 100644
--- a/src/iter/implementors/owned_chunk.rs
+++ b/src/iter/implementors/owned_chunk.rs
@@ -54,13 +54,19 @@ impl<T> ExactSizeIterator for OwnedChunk<'_, T> {}
 impl<T> Drop for OwnedChunk<'_, T> {
     fn drop(&mut self) {
         // SAFETY: elements starting from `current` are not moved out
-        unsafe {
-            let begin = self.begin.add(self.current);
-            slice_from_raw_parts_mut(begin, self.len - self.current).drop_in_place();
-        }
+        unsafe { drop_in_place_range(self.begin, self.current, self.len) };
     }
 }
 
 unsafe impl<T: Send> Send for OwnedChunk<'_, T> {}
 
 unsafe impl<T: Sync> Sync for OwnedChunk<'_, T> {}
+
+/// Drops elements in the range `begin..end` of the allocation starting at `ptr`.
+///
+/// # Safety
+///
+/// The elements must be initialized and must not be accessed by anyone else, neither now nor later.
+pub(crate) unsafe fn drop_in_place_range<T>(ptr: *mut T, begin: usize, end: usize) {
+    slice_from_raw_parts_mut(ptr.add(begin), end - begin).drop_in_place();
+}
-- 
2.43.0


From e7e44e97927ae15965042c616b8e9ce9ac91d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 06/12] fix: release the buffer and the skipped elements of a
 consumed vector

The buffer of the vector was leaked on every drop and into_seq_iter; elements
skipped by skip_to_end, or left when the counter was beyond the end, were never
dropped.
---
 src/iter/implementors/vec.rs | 45 +++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index c324a15..d6c8153 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,4 +1,4 @@
-use super::owned_chunk::OwnedChunk;
+use super::owned_chunk::{drop_in_place_range, OwnedChunk};
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -11,6 +11,7 @@ use std::{
     cell::UnsafeCell,
     cmp::Ordering,
     mem::{ManuallyDrop, MaybeUninit},
+    ptr,
 };
 
 /// A concurrent iterator over a vector, consuming the vector and yielding its elements.
@@ -23,9 +24,13 @@ pub struct ConIterOfVec<T: Send + Sync> {
 
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
+        let current = self.counter().current().min(self.vec_len);
+        // SAFETY: `self.vec` is not accessed after this point
+        let mut vec = unsafe { ManuallyDrop::take(self.vec.get_mut()) };
+        // SAFETY: elements before `current` are already moved out or dropped
+        unsafe {
+            vec.set_len(0); // `vec` only releases its buffer
+            drop_in_place_range(vec.as_mut_ptr(), current, self.vec_len);
         }
     }
 }
@@ -63,16 +68,6 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         let ptr = vec.as_mut_ptr().add(begin_idx);
         OwnedChunk::new(ptr, len)
     }
-
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= self.vec_len);
-
-        let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
-        right_vec
-    }
 }
 
 impl<T: Send + Sync> From<Vec<T>> for ConIterOfVec<T> {
@@ -124,7 +119,12 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        let current = self.counter().swap(self.vec_len).min(self.vec_len);
+        // SAFETY: elements starting from `current` are not reserved, and can no longer be reserved by any other thread
+        unsafe {
+            let vec = &mut *self.vec.get();
+            drop_in_place_range(vec.as_mut_ptr(), current, self.vec_len);
+        }
     }
 }
 
@@ -181,9 +181,18 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
-        remaining_vec.into_iter()
+        let mut con_iter = ManuallyDrop::new(self);
+        let current = con_iter.counter().current().min(con_iter.vec_len);
+        let remaining = con_iter.vec_len - current;
+        // SAFETY: `con_iter` is neither accessed after this point nor dropped
+        let mut vec = unsafe { ManuallyDrop::take(con_iter.vec.get_mut()) };
+        // SAFETY: elements before `current` are already moved out or dropped
+        unsafe {
+            let ptr = vec.as_mut_ptr();
+            ptr::copy(ptr.add(current), ptr, remaining);
+            vec.set_len(remaining);
+        }
+        vec.into_iter()
     }
 
     #[inline(always)]
-- 
2.43.0


From 8788a9b0af2c14da0853ec419d59af3219f554a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 07/12] fix: end the iteration over a wrapped iterator
 permanently in skip_to_end

Skipping set the counter of reserved elements to usize::MAX, from which the
next pull wrapped it around to zero: pulls waited forever, were served
elements with wrong indices or failed the consistency assertion. Instead, the
completed flag alone ends the iteration and every pull checks it.
---
 src/iter/implementors/iter.rs | 37 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..3e432b5 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -58,6 +58,17 @@ where
         unsafe { &mut *self.iter.get() }
     }
 
+    /// Marks the iteration as completed; no pull may access the wrapped iterator from now on.
+    #[inline(always)]
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
+
+    #[inline(always)]
+    fn is_completed(&self) -> bool {
+        self.completed.load(atomic::Ordering::SeqCst)
+    }
+
     #[inline(always)]
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
@@ -89,14 +100,17 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items, unless the iteration is completed
+                Ordering::Equal => match self.is_completed() {
+                    true => return None,
+                    false => return Some(begin_idx),
+                },
 
                 Ordering::Less => return None,
 
                 // begin_idx > yielded_count => we need the other items to be yielded
                 Ordering::Greater => {
-                    if self.completed.load(atomic::Ordering::Relaxed) {
+                    if self.is_completed() {
                         return None;
                     }
                 }
@@ -108,15 +122,19 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
-                // item_idx==yielded_count => it is our job to provide the item
+                // item_idx==yielded_count => it is our job to provide the item, unless the iteration is completed
                 Ordering::Equal => {
+                    if self.is_completed() {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
                         }
-                        false => self.completed.store(true, atomic::Ordering::SeqCst),
+                        false => self.complete(),
                     };
                     return next;
                 }
@@ -125,7 +143,7 @@ where
 
                 // item_idx > yielded_count => we need the other items to be yielded
                 Ordering::Greater => {
-                    if self.completed.load(atomic::Ordering::Relaxed) {
+                    if self.is_completed() {
                         return None;
                     }
                 }
@@ -146,7 +164,7 @@ where
 
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
+                    self.complete();
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
@@ -162,8 +180,7 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(usize::MAX);
-        self.completed.store(true, atomic::Ordering::SeqCst);
+        self.complete();
     }
 }
 
@@ -239,7 +256,7 @@ where
 
     #[inline(always)]
     fn try_get_len(&self) -> Option<usize> {
-        match self.completed.load(atomic::Ordering::SeqCst) {
+        match self.is_completed() {
             true => Some(0),
             false => self.initial_len.map(|initial_len| {
                 let current = <Self as AtomicIter<_>>::counter(self).current();
-- 
2.43.0


From efd38c094ca8eafae5c6087935b62f90e8644d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 08/12] fix: end the iteration when a chunk pull observes the
 end of the wrapped iterator

A chunk which is short, or a buffered pull without elements, did not mark the
iteration as completed. The next pull called the wrapped iterator again, which
may return elements again after None unless it is fused.
---
 src/iter/buffered/iter.rs     |  6 +++++-
 src/iter/implementors/iter.rs | 19 +++++++++----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..c6e57f7 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -41,7 +41,11 @@ where
         loop {
             match core_iter.next() {
                 Some(x) => self.values[i] = Some(x),
-                None => break,
+                None => {
+                    // the wrapped iterator must not be called again
+                    iter.complete();
+                    break;
+                }
             }
 
             i += 1;
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 3e432b5..0d8d607 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -155,24 +155,23 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            // the wrapped iterator has returned None, it must not be called again
+            if buffer.len() < n {
+                self.complete();
+            }
+            let older_count = self.progress_yielded_counter(n);
+            assert_eq!(older_count, begin_idx);
+
             match buffer.len() {
-                0 => {
-                    self.complete();
-                    let older_count = self.progress_yielded_counter(n);
-                    assert_eq!(older_count, begin_idx);
-                    None
-                }
+                0 => None,
                 _ => {
                     let values = buffer.into_iter();
-                    let older_count = self.progress_yielded_counter(n);
-                    assert_eq!(older_count, begin_idx);
                     Some(NextChunk { begin_idx, values })
                 }
             }
-- 
2.43.0


From e6ab5bd287045611f4209265053614ff0a0e3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 09/12] fix: leave a wrapped iterator unchanged when a chunk of
 size zero is pulled

The empty chunk was taken for the end of the iteration.
---
 src/iter/implementors/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 0d8d607..68afb91 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -152,6 +152,10 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-- 
2.43.0


From e1478debe5bdee86ccab2d5cb6e1c00ec5941bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 10/12] fix: do not allocate the buffer of a wrapped iterator
 before it is needed

Creating a buffered iterator with a huge chunk size panicked with a capacity
overflow or aborted, although the chunk size is only an upper bound.
---
 src/iter/buffered/iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c6e57f7..28c1284 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -8,6 +8,7 @@ where
     T: Send + Sync,
     Iter: Iterator<Item = T>,
 {
+    chunk_size: usize,
     values: Vec<Option<T>>,
     phantom: PhantomData<Iter>,
 }
@@ -21,13 +22,14 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            chunk_size,
+            values: Vec::new(),
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -40,7 +42,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => {
                     // the wrapped iterator must not be called again
                     iter.complete();
-- 
2.43.0


From 50ac935b997c26048377540fe56c44068c02324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 11/12] fix: complete the iteration when the wrapped iterator
 panics

The panicking thread never advanced the yielded counter and did not mark the
iteration as completed; all other threads waited for it forever.
---
 src/iter/buffered/iter.rs     | 44 ++++++++++++++++++++---------------
 src/iter/implementors/iter.rs | 40 +++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 28c1284..d230253 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -37,27 +37,33 @@ where
         iter: &Self::ConIter,
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
-        let core_iter = unsafe { iter.mut_iter() };
+        let (chunk_size, values) = (self.chunk_size, &mut self.values);
 
-        let mut i = 0;
-        loop {
-            match core_iter.next() {
-                Some(x) => match self.values.get_mut(i) {
-                    Some(value) => *value = Some(x),
-                    None => self.values.push(Some(x)),
-                },
-                None => {
-                    // the wrapped iterator must not be called again
-                    iter.complete();
-                    break;
-                }
-            }
+        // SAFETY: no other thread has the valid condition to iterate, they are waiting
+        let i = unsafe {
+            iter.pull_with(|core_iter| {
+                let mut i = 0;
+                loop {
+                    match core_iter.next() {
+                        Some(x) => match values.get_mut(i) {
+                            Some(value) => *value = Some(x),
+                            None => values.push(Some(x)),
+                        },
+                        None => {
+                            // the wrapped iterator must not be called again
+                            iter.complete();
+                            break;
+                        }
+                    }
 
-            i += 1;
-            if i == self.chunk_size() {
-                break;
-            }
-        }
+                    i += 1;
+                    if i == chunk_size {
+                        break;
+                    }
+                }
+                i
+            })
+        };
 
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 68afb91..aa53a80 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -52,10 +52,19 @@ where
         }
     }
 
+    /// Calls `pull` with the wrapped iterator.
+    ///
+    /// If `pull` panics, the iteration is completed so that other threads do not wait for its elements.
+    ///
+    /// # Safety
+    ///
+    /// The caller must be the only thread that is allowed to access the wrapped iterator.
     #[inline(always)]
-    #[allow(clippy::mut_from_ref)]
-    pub(crate) unsafe fn mut_iter(&self) -> &mut Iter {
-        unsafe { &mut *self.iter.get() }
+    pub(crate) unsafe fn pull_with<R>(&self, pull: impl FnOnce(&mut Iter) -> R) -> R {
+        let guard = CompleteOnDrop(&self.completed);
+        let result = pull(&mut *self.iter.get());
+        std::mem::forget(guard);
+        result
     }
 
     /// Marks the iteration as completed; no pull may access the wrapped iterator from now on.
@@ -75,6 +84,14 @@ where
     }
 }
 
+struct CompleteOnDrop<'a>(&'a AtomicBool);
+
+impl Drop for CompleteOnDrop<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
+}
+
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -129,7 +146,7 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
-                    let next = unsafe { self.mut_iter() }.next();
+                    let next = unsafe { self.pull_with(|iter| iter.next()) };
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -158,12 +175,15 @@ where
 
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
-            let iter = unsafe { self.mut_iter() };
-            let buffer = (0..n)
-                .map(|_| iter.next())
-                .take_while(|x| x.is_some())
-                .map(|x| x.expect("is_some is checked"))
-                .collect::<Vec<_>>();
+            let buffer = unsafe {
+                self.pull_with(|iter| {
+                    (0..n)
+                        .map(|_| iter.next())
+                        .take_while(|x| x.is_some())
+                        .map(|x| x.expect("is_some is checked"))
+                        .collect::<Vec<_>>()
+                })
+            };
 
             // the wrapped iterator has returned None, it must not be called again
             if buffer.len() < n {
-- 
2.43.0


From b55e667afe550826915a0e7b754b40bd0e49e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 12/12] fix: report the exact size hint of chunks buffered from
 a wrapped iterator

ExactSizeIterator requires the size hint to be exact; with the default hint,
adaptors such as take and zip panic on len.
---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index d230253..a7df234 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -106,6 +106,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.initial_len - self.current_idx;
+        (remaining, Some(remaining))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0

