From 28666fffe753e58ab1720192a563f1bfb6e88f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 01/13] fix: ExitStack drops the remaining values when one drop
 panics

---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..36a7731 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // If dropping this value unwinds then the flag must continue with all the rest.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From af7e7ea9ab93b69b765384c36cc0188a543cd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 02/13] fix: unsync::Bump with a storage type of more than word
 alignment

---
 static-alloc/src/unsync/bump.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..6a471b3 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -119,6 +119,17 @@ impl<T> Bump<T> {
             _data: UnsafeCell::new(MaybeUninit::zeroed()),
         }
     }
+
+    /// The size of the `data` slice of the equivalent `MemBump`.
+    ///
+    /// That slice starts right behind the index while `_data` is aligned to `T`, so it also covers
+    /// any padding between the two.
+    fn data_size() -> usize {
+        let (layout, _) = MemBump::header_layout()
+            .extend(Layout::new::<T>())
+            .expect("Layout of an existing type");
+        layout.size() - MemBump::header_layout().size()
+    }
 }
 
 #[cfg(feature = "alloc")]
@@ -565,14 +576,13 @@ impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, Self::data_size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), Layout::for_value(bump).size());
         bump
     }
 }
@@ -580,14 +590,13 @@ impl<T> ops::Deref for Bump<T> {
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, Self::data_size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), Layout::for_value(bump).size());
         bump
     }
 }
-- 
2.43.0


From ffc76d22a6ae4eea008e7ab0acd713f027f9cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 03/13] fix: MemBump::new left the allocation index
 uninitialized

---
 static-alloc/src/unsync/bump.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 6a471b3..777c588 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -140,7 +140,10 @@ impl MemBump {
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
-        unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
+        let ptr = ptr as *mut MemBump;
+        // The allocator starts out empty, only its data may be left uninitialized.
+        unsafe { ptr::addr_of_mut!((*ptr).index).write(Cell::new(0)) };
+        unsafe { alloc::boxed::Box::from_raw(ptr) }
     }
 }
 
-- 
2.43.0


From 09127ea7549e11879b78d2bd936fcaf546d1de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 04/13] fix: MemBump::get_unchecked must skip the padding of
 the allocation

---
 static-alloc/src/unsync/bump.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 777c588..3783bc8 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -404,10 +404,12 @@ impl MemBump {
     /// # Ok::<_, static_alloc::bump::Failure>(())
     /// ```
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
-        debug_assert!(level.0 < self.capacity());
+        debug_assert!(level.0 <= self.capacity());
         let ptr = self.data_ptr().as_ptr();
+        // The allocation did not start at its level if that was not aligned.
+        let offset = ptr.wrapping_add(level.0).align_offset(mem::align_of::<V>());
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let alloc = ptr.wrapping_add(level.0).wrapping_add(offset) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From 4bbcdd3fc8a9f2a650801c614b6893e5f35f7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 05/13] fix: MemBump panicked on zero-sized values and empty
 arrays

---
 static-alloc/src/unsync/bump.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 3783bc8..321de3d 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -332,6 +332,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(self.zst_fake_alloc());
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -347,6 +351,16 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let fake = self.zst_fake_alloc();
+            if fake.level != level {
+                return Err(Failure::Mismatch {
+                    observed: fake.level,
+                });
+            }
+            return Ok(fake);
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -472,8 +486,13 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
-        let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
+        // An empty slice, or one of zero-sized elements, does not need any memory.
+        let raw = if layout.size() == 0 {
+            NonNull::dangling()
+        } else {
+            self.alloc(layout).ok_or(Failure::Exhausted)?.cast()
+        };
+        let slice = ptr::slice_from_raw_parts_mut(raw.as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
     }
@@ -491,6 +510,11 @@ impl MemBump {
         self.index.set(0)
     }
 
+    /// 'Allocate' a zero-sized type, which consumes no memory.
+    fn zst_fake_alloc<Z>(&self) -> Allocation<'_, Z> {
+        Allocation::for_zst(self.level())
+    }
+
     fn try_alloc(&self, layout: Layout) -> Option<Allocation<'_>> {
         let consumed = self.index.get();
         match self.try_alloc_at(layout, consumed) {
-- 
2.43.0


From a254c5b566c13551520406ed462a4ee7442c5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 06/13] fix: Alloca::new overflowed for the maximum length

---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 3191a5e940ca31c7d3118e917475cc7d40c3c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 07/13] fix: Rc keeps its memory alive while dropping the value

---
 without-alloc/src/rc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..e27c5bb 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -519,9 +519,10 @@ impl<T> Drop for Rc<'_, T> {
     /// ```
     fn drop(&mut self) {
         self.dec_strong();
-        // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // Release our weak count only after the value has been dropped (or its drop unwinds).
+            // Otherwise, a `Weak` within the value may be the last one and give up the memory.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From 08688491bce647ccbbe83aef2eed2567db5abfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 08/13] fix: copy_slice of zero-sized elements lost the length

---
 without-alloc/src/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..c279823 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -146,6 +146,8 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
             }
         };
 
+        let ptr = core::ptr::slice_from_raw_parts_mut(uninit.as_begin_ptr(), slice.len());
+
         unsafe {
             // SAFETY:
             // * the source is trivially valid for reads as it is a slice
@@ -156,7 +158,7 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
 
         Some(unsafe {
             // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            &mut *ptr
         })
     }
 
-- 
2.43.0


From b8c8e1b0a5dcdf940af45a79fa23ef5ac540f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 09/13] fix: copy_dst of zero-sized values ignored their
 alignment

---
 without-alloc/src/alloc.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index c279823..b83417d 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,9 +225,10 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     #[allow(unused_unsafe)]
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
-        let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
-            Some(layout) => self.alloc_layout(layout)?.uninit,
+        let memory: *mut u8 = match NonZeroLayout::from_layout(layout.into()) {
+            // Any address is valid for a value of zero size, as long as it is aligned.
+            None => core::ptr::null_mut::<u8>().wrapping_add(layout.align()),
+            Some(layout) => self.alloc_layout(layout)?.uninit.as_ptr() as *mut u8,
         };
 
         unsafe {
@@ -235,11 +236,11 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
             // * the source is valid for reads for its own layout
             // * the memory is valid for the same layout as val, so aligned and large enough
             // * both are aligned, uninit due to allocator requirements
-            core::ptr::copy(val as *const _ as *const u8, uninit.as_ptr() as *mut u8, layout.size());
+            core::ptr::copy(val as *const _ as *const u8, memory, layout.size());
         }
 
         let ptr = val as *const _ as *mut T;
-        let ptr = uninit.as_ptr().with_metadata_of(ptr);
+        let ptr = memory.with_metadata_of(ptr);
         Some(unsafe {
             // SAFETY: The byte copy above put the value into a valid state. Caller promises that
             // we can logically move the value.
-- 
2.43.0


From eff7d191a7f088b61b5f69b3f0cbc114875983fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 10/13] fix: splitting an uninit slice must shrink the slice
 pointer

---
 without-alloc/src/uninit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..a84bb15 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -833,6 +833,11 @@ impl<'a, T> UninitView<'a, [T]> {
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
+        // The slice pointer must not cover the elements that were split off.
+        let slice = ptr::slice_from_raw_parts_mut(self.ptr.as_ptr() as *mut T, at);
+        // SAFETY: same address as before.
+        self.ptr = unsafe { ptr::NonNull::new_unchecked(slice) };
+
         // SAFETY: total allocation length at least `self.len + next_len`.
         let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other.cast_slice().unwrap())
-- 
2.43.0


From b97c0003d40dd4acdd5f706c802e258a83f40c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 11/13] fix: byte splits of uninit memory must count in bytes

---
 without-alloc/src/uninit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index a84bb15..0119e56 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -560,6 +560,7 @@ impl UninitView<'_, ()> {
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         let align = self.ptr.as_ptr()
+            .cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
@@ -626,7 +627,7 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
@@ -634,7 +635,7 @@ impl<'a, T> UninitView<'a, T> {
         self.len = at;
 
         // SAFETY: within one allocation, namely the one we are in.
-        let other = unsafe { UninitView::from_memory(next_base.cast(), next_len) };
+        let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other)
     }
 
-- 
2.43.0


From dfc1c439bf13320ffb0d09626b1dc752cd267f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 12/13] fix: FixedVec::drain with a bound at the maximum index

---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..0e01809 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("start bound overflows"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("end bound overflows"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


From 5d32a9452895c3cb720880219d2abd7bd58f09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 13/13] fix: filling a Result dropped items once its container
 was full

---
 fill/src/fill.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..7a8e4cd 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -172,24 +172,43 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
     fn fill<I>(&mut self, iter: I)
         where I: IntoIterator<Item=Result<T, E>>
     {
-        let mut iter = iter.into_iter();
+        /// Yields all values up to the first error, which is recorded.
+        struct UntilErr<'a, I, E> {
+            inner: I,
+            err: &'a mut Option<E>,
+        }
+
+        impl<I, T, E> Iterator for UntilErr<'_, I, E>
+            where I: Iterator<Item=Result<T, E>>
+        {
+            type Item = T;
+            fn next(&mut self) -> Option<T> {
+                if self.err.is_some() {
+                    return None;
+                }
+
+                match self.inner.next()? {
+                    Ok(item) => Some(item),
+                    Err(err) => {
+                        *self.err = Some(err);
+                        None
+                    }
+                }
+            }
+        }
 
         let container = match self {
             Ok(container) => container,
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // Let the container decide when it is full, so it will only pull the items it can keep.
+        let mut err = None;
+        container.fill(UntilErr { inner: iter.into_iter(), err: &mut err });
 
-        *self = Err(err);
+        if let Some(err) = err {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0

