From fa137a809d47210e7e6f43722a4c5cdc2247f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 01/10] fix: secure the position before calling the closure in
 push_for_idx

---
 src/grow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..05142a0 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,12 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
+        // Note that the position, and hence the capacity, must be secured before calling `f`:
+        // if this call is responsible for growth, a panicking or slow `f` must not block other threads.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 1738b3e4f84ebfc62e69bb181cd94e90504d46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 02/10] fix: len counts elements which are concurrently being
 read or updated

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..931d7aa 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,7 +129,8 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
+            // an element which is being read or updated is also pushed
+            match x.0.state(Ordering::Relaxed) != State::None {
                 true => num_pushed += 1,
                 false => break,
             }
-- 
2.43.0


From 36403b8a7c9260e81f8b9182574a384152174352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 03/10] fix: into_inner does not exceed capacity after an
 out-of-capacity panic

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 931d7aa..483a5ee 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,8 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        // reserved length might exceed the capacity if pushing beyond the maximum capacity had failed
+        let len = self.reserved_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
-- 
2.43.0


From e7e08ad0834b69748fb15d20ad2d3b2c0746f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 04/10] fix: reserve_maximum_capacity drops reservations beyond
 capacity

---
 src/exclusive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..eb17c8c 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -28,9 +29,13 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
+        // reserved length might exceed the capacity if pushing beyond the maximum capacity had failed;
+        // such positions do not exist and no one will grow the vec for them
+        let len = self.reserved_len();
+        self.len_reserved().store(len, Ordering::Relaxed);
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(len, new_maximum_capacity)
         }
     }
 }
-- 
2.43.0


From f463609d5ce57c02c896bc8d1645292bbfb85a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 05/10] fix: clear drops elements in place keeping the storage
 valid

---
 src/exclusive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index eb17c8c..2fc6397 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -8,7 +8,12 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        let len = self.reserved_len();
+        for elem in unsafe { self.core.iter_mut(len) } {
+            let _ = elem.0.exclusive_take();
+        }
+        self.len_reserved().store(0, Ordering::Relaxed);
+        self.len_written().store(0, Ordering::Relaxed);
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From 5eb4b87590a8f565a9faf2a086f4b6ca2e85d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 06/10] fix: swap does not deadlock on equal or oppositely
 ordered indices

---
 src/elem.rs     |  9 +++++++++
 src/mut_elem.rs | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..5b42d70 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -99,6 +99,15 @@ impl<T> ConcurrentElement<T> {
         self.0.map(f).expect(HAS_VALUE)
     }
 
+    /// Address of the element, which never changes as long as the element is in the vec.
+    ///
+    /// Whenever exclusive access to two elements is required at the same time, they must be
+    /// locked in the ascending order of their addresses, in order to avoid deadlocks.
+    #[inline(always)]
+    pub(crate) fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
     // mut
 
     /// Replaces the current value of the element
diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..0475a3a 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::cmp::Ordering;
 use orx_concurrent_option::SOME;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -28,6 +29,17 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        let (addr_i, addr_j) = match (self.get(i), self.get(j)) {
+            (Some(x), Some(y)) => (x.addr(), y.addr()),
+            _ => return false,
+        };
+
+        let (i, j) = match addr_i.cmp(&addr_j) {
+            Ordering::Equal => return true,
+            Ordering::Less => (i, j),
+            Ordering::Greater => (j, i),
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From 1f34d134b97fa45f8cc4944b0b9e03c94bbff47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 07/10] fix: compare elements while having exclusive access to
 both

---
 src/common_traits/eq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..6b149d7 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,15 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        match self.addr().cmp(&other.addr()) {
+            Ordering::Less => self.map(|x| other.map(|y| x == y)),
+            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
+            Ordering::Equal => self.map(|x| PartialEq::eq(x, x)),
+        }
     }
 }
 
-- 
2.43.0


From 8c200037878d21540a49896ac815e42072bfdbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 08/10] fix: ConcurrentVec is Sync only if elements are Send

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 483a5ee..7b58b19 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -422,7 +422,7 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From 983f4b6611b191f49593759c8386a7128c7206ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/10] fix: extend by more than the maximum capacity does not
 overflow the length

---
 src/grow.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index 05142a0..6defc31 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -313,6 +313,12 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "{}",
+            ERR_OUT_OF_CAPACITY
+        );
+
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -434,6 +440,12 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "{}",
+            ERR_OUT_OF_CAPACITY
+        );
+
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -450,3 +462,8 @@ where
         begin_idx
     }
 }
+
+// constants
+
+const ERR_OUT_OF_CAPACITY: &str =
+    "Number of items to be added exceeds the maximum capacity of the vec";
-- 
2.43.0


From 004bbb287f9a7adb5f72bb459b3d34ed538a6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 10/10] fix: ConcurrentElement<T> is Sync only if T is Send and
 Sync

The element was Sync for every T: Sync by the auto trait, although its shared
reference allows to move values to another thread (replace, set).
---
 src/elem.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elem.rs b/src/elem.rs
index 5b42d70..c8cd30b 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -184,6 +184,10 @@ impl<T> ConcurrentElement<T> {
     }
 }
 
+// # SAFETY: a shared reference allows to move values in and out (replace, set, swap) as well as to read them in place;
+// therefore, values must be `Sync` and `Send` for the element to be shared among threads.
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 // constants
 
 const HAS_VALUE: &str = "ConcurrentElement must always have a value";
-- 
2.43.0

