From 9782d8f30efb0340316f34f7be5f71a5d2cd9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 01/18] fix: reject index == len in remove, swap_remove and
 try_remove

They read (and returned) the slot after the last element and, for an empty
vector, wrapped the length to usize::MAX.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..5c7962f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if self.len() <= index {
             None
         } else {
             // Safety
@@ -1520,7 +1520,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         let len = self.len();
 
         debug_assert!(
-            index <= len,
+            index < len,
             "Tried to remove an element at index {} from a {} length vector! This is UB in release mode",
             index,
             len,
-- 
2.43.0


From f451728a22287274afd55fce709b85bdb00cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 02/18] fix: check the length in try_pop_array, allow array
 removals that empty the vector

try_pop_array only checked for emptiness, so it read before the start of the
vector when 0 < len < N. The debug assertions of pop_array_unchecked and
remove_array_unchecked rejected removing exactly the last N elements.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7962f..c7e491e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 80d0dca47ec6607fc31428c4f71ed2825e7ce70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 03/18] fix: Cursor::try_write_front wrote exactly when there
 was no unfilled slot

---
 src/iter/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..77f658c 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
-- 
2.43.0


From 1443e9706bc041aedc5946ee6941afd0ef891148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 04/18] fix: never allocate or free zero-sized heap blocks

Dropping an empty Heap (or a Heap of a zero-sized type) passed a dangling
pointer and a zero-sized layout to the allocator, and with_capacity(0)
requested a zero-sized block, which leaked when the Heap grew or was
converted to a Vec.
---
 src/raw/heap/nightly.rs | 6 ++++--
 src/raw/heap/stable.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..93be0c5 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -37,7 +37,9 @@ impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
-            self.allocator.deallocate(self.ptr.cast(), layout);
+            if layout.size() != 0 {
+                self.allocator.deallocate(self.ptr.cast(), layout);
+            }
         }
     }
 }
@@ -155,7 +157,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..3ce2110 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -32,7 +32,9 @@ impl<T> Drop for Heap<T> {
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
-            dealloc(self.ptr.as_ptr().cast(), layout);
+            if layout.size() != 0 {
+                dealloc(self.ptr.as_ptr().cast(), layout);
+            }
         }
     }
 }
@@ -135,7 +137,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From a639e646e61a8f46b072bcca56accc7b423ff26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 05/18] fix: Heap::try_reserve returns false when the layout
 overflows

It panicked instead (or, for sizes between isize::MAX and usize::MAX, built
an invalid Layout, which is undefined behavior).
---
 src/raw/heap/nightly.rs |  8 ++++++--
 src/raw/heap/stable.rs  | 12 ++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 93be0c5..3aeaa95 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -193,9 +193,13 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (Layout::new::<T>().repeat(new_capacity), &on_failure) {
+            (Ok(layout), _) => layout.0,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 3ce2110..c9ee966 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -130,6 +130,10 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
+    if alloc_size > isize::MAX as usize {
+        return Err(())
+    }
+
     // SAFETY: self.align is already known to be valid and alloc_size has been
     // padded already.
     unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
@@ -171,9 +175,13 @@ impl<T> Heap<T> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) => layout,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
-- 
2.43.0


From d99584301c8101e36781ee1e33c898e8dc249b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/18] fix: saturate when converting capacities between
 element sizes

The conversion truncated to usize, so reserving a huge number of elements that
are larger than the storage's own item type could silently reserve too little.
---
 src/raw/capacity.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..1c38d51 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,12 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
-    // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
-    //
-    (size / (size_other as PointerNext)) as usize
+    // this can overflow pow2(n) if `size_self > size_other`, so saturate
+    let capacity = size / (size_other as PointerNext);
+
+    if capacity > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        capacity as usize
+    }
 }
-- 
2.43.0


From 339e5dcac1316263cf6949faabc05ffa048094bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 07/18] fix: a Heap of zero-sized items has no capacity for
 sized elements

reserve, try_reserve and with_capacity reported success without providing any
capacity, so pushing wrote through a dangling pointer.
---
 src/raw/heap/nightly.rs | 20 +++++++++++++++-----
 src/raw/heap/stable.rs  | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 3aeaa95..b197cc3 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -139,15 +139,15 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -181,7 +181,9 @@ impl<T, A: Default + Allocator> Heap<T, A> {
 
 unsafe impl<T, U, A: Default + Allocator> StorageWithCapacity<U> for Heap<T, A> {
     fn with_capacity(cap: usize) -> Self {
-        Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
+        let mut this = Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up));
+        Storage::<U>::reserve(&mut this, cap);
+        this
     }
 }
 
@@ -189,6 +191,14 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
+        if size_of::<T>() == 0 {
+            // a heap of zero-sized items can never hold a non-zero-sized element
+            match on_failure {
+                OnFailure::Abort => panic!("Tried to reserve space in a heap of zero-sized items"),
+                OnFailure::Error => return false,
+            }
+        }
+
         assert!(new_capacity > self.capacity);
 
         // grow by at least doubling
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index c9ee966..2f7582d 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -80,15 +80,15 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -163,7 +163,9 @@ impl<T> Heap<T> {
 
 unsafe impl<T, U> StorageWithCapacity<U> for Heap<T> {
     fn with_capacity(cap: usize) -> Self {
-        Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
+        let mut this = Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up));
+        Storage::<U>::reserve(&mut this, cap);
+        this
     }
 }
 
@@ -171,6 +173,14 @@ impl<T> Heap<T> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
+        if size_of::<T>() == 0 {
+            // a heap of zero-sized items can never hold a non-zero-sized element
+            match on_failure {
+                OnFailure::Abort => panic!("Tried to reserve space in a heap of zero-sized items"),
+                OnFailure::Error => return false,
+            }
+        }
+
         assert!(new_capacity > self.capacity);
 
         // grow by at least doubling
-- 
2.43.0


From 42e980e0694f541631fdfb190941dca97f12166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 08/18] fix: UninitSlice::reserve compares the request with its
 actual capacity

For a slice of usize::MAX zero-sized items the rounded request could not exceed
the slice's length, so reserving sized elements reported success.
---
 src/raw/slice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From 52f5508519acd1b2cff8a8747da9d947ae0f165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 09/18] fix: RawCursor::finish can be followed by the cursor's
 drop

finish moved the back of the vector down, but left the cursor's state as it
was, so the call from Drop moved it a second time (duplicating the last
elements), and Splice at the back of a vector lost its replacement, as Drop
reset the length (from dangling pointers, if the vector had reallocated).
---
 src/iter/raw_cursor.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..9eb1295 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -75,6 +75,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
                 let len = front_len + back_len;
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             } else {
                 let start = self.vec.as_mut().as_mut_ptr();
                 let range = start..start.add(self.old_vec_len);
@@ -88,7 +89,14 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 }
 
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             }
+
+            // the unfilled slots are gone now, so a second call must not
+            // move the back of the vector again
+            self.read_front = self.write_front;
+            self.read_back = self.write_front;
+            self.write_back = self.write_front;
         }
     }
 
@@ -102,7 +110,13 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     }
 
     /// Get a mutable reference to the underlying vector
-    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> { unsafe { self.vec.as_mut() } }
+    ///
+    /// This detaches the `RawCursor` from the vector, it will no longer
+    /// update the vector's length when it is dropped
+    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> {
+        self.old_vec_len = 0;
+        unsafe { self.vec.as_mut() }
+    }
 
     /// The number of remaining elements in range of this `RawCursor`
     ///
@@ -658,6 +672,8 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    let front_len = self.write_front as usize;
+                    self.vec.as_mut().set_len_unchecked(front_len);
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
                     self.old_vec_len += increase_by;
                 }
@@ -676,6 +692,9 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
 
+                // `finish` may have already been called
+                self.vec.as_mut().set_len_unchecked(front_len);
+
                 if len + space > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
-- 
2.43.0


From 245751b30b0769dc1d08e4ad24ed0a03ffd42f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 10/18] fix: RawCursor::reserve checks for overflow of the
 required capacity

In release mode the sum wrapped around, so nothing was reserved and the back of
the vector was moved out of bounds.
---
 src/iter/raw_cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 9eb1295..3bfe3a8 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -695,14 +695,16 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 // `finish` may have already been called
                 self.vec.as_mut().set_len_unchecked(front_len);
 
-                if len + space > capacity {
+                let required = len.checked_add(space).expect("Capacity overflow");
+
+                if required > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(required);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From 36e058701f7ddadfc0fcf5d5d00726f785c22490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 11/18] fix: Splice of zero-sized types drops the replacement
 if its iterator panics

---
 src/iter/splice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 658764b..9de392e 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -27,10 +27,10 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         if let Some(storage) = crate::raw::ZeroSized::TRY_NEW {
             unsafe {
-                let mut vec = ManuallyDrop::new(crate::ZSVec::with_storage(storage));
+                let mut vec = crate::ZSVec::with_storage(storage);
                 vec.extend(replace_with);
-                let len = vec.len();
-                raw.reserve(len);
+                raw.reserve(vec.len());
+                let vec = ManuallyDrop::new(vec);
                 raw.write_slice_front(vec.as_slice());
                 return
             }
-- 
2.43.0


From 47f751bba1b192dc79fb581f4751e4dba85787b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 12/18] fix: grow appends for Copy types on nightly

The specialization overwrote the vector from its start and left the new
elements uninitialized.
---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..562631a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.storage.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From 47b1c5068b0e0727c43db4ac0fc4b6c92ae3fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 13/18] fix: ArrayVec::from_array creates a full ArrayVec

It had length 0, so the array's elements were inaccessible and leaked.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e491e..124c34d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From b55c9df18de865139048ce68442ae36bad979712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 14/18] fix: from_raw_parts panics if the storage cannot hold
 T, as documented

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 124c34d..2ddd4f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From fb084ff3fbcad1bb1b55045879d2a1055e463eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 15/18] fix: reserve fails for zero-sized types past the
 reported capacity

reserve and try_reserve reported success without changing the capacity.
---
 src/iter/raw_cursor.rs |  7 +++++++
 src/lib.rs             | 10 ++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 3bfe3a8..890b1da 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -673,7 +673,14 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
                     let front_len = self.write_front as usize;
+                    let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
+                    let required = (front_len + back_len).checked_add(space);
+                    let capacity = self.vec.as_ref().capacity();
+                    assert!(required.map_or(false, |required| required <= capacity), "Capacity overflow");
+
+                    // `finish` may have already been called
                     self.vec.as_mut().set_len_unchecked(front_len);
+
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
                     self.old_vec_len += increase_by;
                 }
diff --git a/src/lib.rs b/src/lib.rs
index 2ddd4f2..d46a860 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -784,8 +784,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         if self.remaining_capacity() < additional {
             self.storage.reserve(match self.len().checked_add(additional) {
-                Some(new_capacity) => new_capacity,
-                None => allocation_failure(additional),
+                // zero-sized types never need to allocate, so they are out of capacity
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => new_capacity,
+                _ => allocation_failure(additional),
             })
         }
     }
@@ -796,8 +797,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     pub fn try_reserve(&mut self, additional: usize) -> bool {
         if self.remaining_capacity() < additional {
             match self.len().checked_add(additional) {
-                Some(new_capacity) => self.storage.try_reserve(new_capacity),
-                None => false,
+                // zero-sized types never need to allocate, so they are out of capacity
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => self.storage.try_reserve(new_capacity),
+                _ => false,
             }
         } else {
             true
-- 
2.43.0


From feabf11188789d023e544fdf052a9599d51800a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 16/18] fix: arrays of zero-sized types are not zero-capacity
 vectors

A vector backed by [T; N] has isize::MAX capacity if T is zero-sized, but
try_push and friends, which are guaranteed not to panic, panicked for N == 0
(and the array methods for arrays longer than N).
---
 src/raw/array/nightly.rs | 2 +-
 src/raw/array/stable.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index d26abef..5170ee8 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -26,7 +26,7 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(N);
+    const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { N });
     const IS_ALIGNED: bool = true;
 
     fn capacity(&self) -> usize { N }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 18daa4b..42d9653 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -28,7 +28,7 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some($N);
+            const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { $N });
             const IS_ALIGNED: bool = true;
 
             fn capacity(&self) -> usize { $N }
-- 
2.43.0


From 4e10d877ea96664e218040b59bed48e0e8699951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 17/18] fix: vectors of zero-sized types have room for
 usize::MAX elements, like their storages

A Vec or an array of more than isize::MAX zero-sized elements could be turned
into a vector longer than its capacity, and a push then wrapped the length.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d46a860..05f4c8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -669,7 +669,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Returns the number of elements the vector can hold without reallocating or panicing.
     pub fn capacity(&self) -> usize {
         if core::mem::size_of::<T>() == 0 {
-            isize::MAX as usize
+            usize::MAX
         } else {
             self.storage.capacity()
         }
-- 
2.43.0


From 1f06a3e0576db2805d717caa706bbf70a26f34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 18/18] fix: gvec! does not evaluate its elements inside an
 unsafe block

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05f4c8a..c4a0177 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -303,9 +303,11 @@ macro_rules! gvec {
     }};
     ($($expr:expr),*) => {{
         let mut vec = $crate::GenericVec::with_capacity($crate::count!($(($expr))*));
-        unsafe {
-            $(vec.push_unchecked($expr);)*
-        }
+        $(
+            // the expression must not be evaluated inside of the `unsafe` block
+            let expr = $expr;
+            unsafe { vec.push_unchecked(expr); }
+        )*
         vec
     }};
 }
-- 
2.43.0

