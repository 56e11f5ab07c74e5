From 10447ceed2dc39b02d10c9bf938687b43ad649b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 1/7] fix: return None for out of bounds fixed-size list views

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..949e3cc 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        (index < self.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(index.strict_mul(N).strict_add(idx))
+                    .expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From bf1be7114ac8f3e93f6328869ac8054b16582ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 2/7] fix: return None for list indices that overflow

---
 src/offset.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..36a202b 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,9 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = index
+            .checked_add(1)
+            .and_then(|next| self.offsets.owned(next));
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,9 +702,8 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
-        if idx < self.end {
-            self.collection.data.view(idx)
+        if index < self.len() {
+            self.collection.data.view(self.start.strict_add(index))
         } else {
             None
         }
-- 
2.43.0


From a6d704922775a8ff9618393e06d8f4705966ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 3/7] fix: stop collecting bits at the end of a resumable
 iterator

---
 src/bitmap/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..4549668 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -398,6 +398,7 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
         let mut bits: usize = 0;
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +458,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +487,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From ef8f14d21751264e804ed2a93e9ec6c1c69b2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 4/7] fix: do not reserve the upper bound of a source iterator

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 36a202b..10d3a99 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From 0c26084459e78ea2fde868c99be6f92bf9c57200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 5/7] fix: realign fixed-size lists after a panicking extension

---
 src/collection/flatten.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 949e3cc..649bd66 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -133,8 +133,20 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
     }
 }
 
+impl<C: CollectionRealloc, const N: usize> Flatten<C, N> {
+    /// Drops the incomplete group a panicking extension may leave at the end
+    /// of the child, so appended groups stay aligned.
+    fn discard_partial(&mut self) {
+        let len = self.0.len();
+        if let Some(partial) = len.checked_rem(N) {
+            self.0.truncate(len.strict_sub(partial));
+        }
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
+        self.discard_partial();
         self.0.extend(iter.into_iter().flatten());
     }
 }
@@ -222,6 +234,7 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
+        self.discard_partial();
         self.0.try_extend(iter.into_iter().flatten())
     }
 
@@ -305,6 +318,10 @@ impl<const N: usize, I: ExactSizeIterator> Iterator for ArrayChunks<N, I> {
     type Item = [I::Item; N];
 
     fn next(&mut self) -> Option<Self::Item> {
+        // A panicking extension may leave an incomplete group at the end.
+        if self.0.len() < N {
+            return None;
+        }
         let first = self.0.next()?;
         let mut items = array::from_fn(|_| None);
         items[0] = Some(first);
-- 
2.43.0


From 772fce914753067696837a7e4e9e3d18923c16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 6/7] fix: count spare bytes when reserving bits

Reserving bits ignored the bytes already in the buffer beyond the logical
end, so a list extension over a truncated bitmap requested (and could fail
on) another allocation after a sufficient reservation.
---
 src/bitmap/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 4549668..3eb2e03 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -280,6 +280,16 @@ impl<Storage: Buffer> Bitmap<Storage> {
             8_usize.strict_sub(trailing_bits)
         }
     }
+
+    /// Returns the number of bytes to add to the buffer to store `additional`
+    /// more bits, after using the padding bits and the bytes beyond the logical
+    /// end that are already in the buffer.
+    #[inline]
+    fn missing_bytes(&self, additional: usize) -> usize {
+        let used = bytes_for_bits(self.offset.strict_add(self.bits));
+        let spare = self.buffer.borrow().len().strict_sub(used);
+        bytes_for_bits(additional.saturating_sub(self.trailing_bits())).saturating_sub(spare)
+    }
 }
 
 impl<Storage: Buffer<For<u8>: Clone>> Clone for Bitmap<Storage> {
@@ -543,10 +553,10 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.try_reserve(bytes_for_bits(bits))?;
+        match self.missing_bytes(additional) {
+            0 => Ok(()),
+            bytes => self.buffer.try_reserve(bytes),
         }
-        Ok(())
     }
 
     fn try_extend<I: IntoIterator<Item = Self::Owned>>(
@@ -597,8 +607,9 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn reserve(&mut self, additional: usize) {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.reserve(bytes_for_bits(bits));
+        match self.missing_bytes(additional) {
+            0 => {}
+            bytes => self.buffer.reserve(bytes),
         }
     }
 
-- 
2.43.0


From f59037ba076d19ec149fc9217a15a9245901e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 7/7] fix: leave no unaligned items behind when an extending
 source panics

An array left by a panicking source kept values without validity, or an
incomplete group, in its child. Exporting it gave fixed-size lists whose child
does not match their length, which cannot be imported.
---
 src/collection/flatten.rs | 16 ++++++++++++++--
 src/validity.rs           | 31 +++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 649bd66..bbe3fe9 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -144,10 +144,21 @@ impl<C: CollectionRealloc, const N: usize> Flatten<C, N> {
     }
 }
 
+/// Keeps only whole groups in a [`Flatten`] when an extension of it ends, also
+/// by a panic of the extending iterator.
+struct WholeGroups<'flatten, C: CollectionRealloc, const N: usize>(&'flatten mut Flatten<C, N>);
+
+impl<C: CollectionRealloc, const N: usize> Drop for WholeGroups<'_, C, N> {
+    fn drop(&mut self) {
+        self.0.discard_partial();
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
         self.discard_partial();
-        self.0.extend(iter.into_iter().flatten());
+        let groups = WholeGroups(self);
+        groups.0.0.extend(iter.into_iter().flatten());
     }
 }
 
@@ -235,7 +246,8 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         iter: I,
     ) -> Result<(), AllocError> {
         self.discard_partial();
-        self.0.try_extend(iter.into_iter().flatten())
+        let groups = WholeGroups(self);
+        groups.0.0.try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
diff --git a/src/validity.rs b/src/validity.rs
index 6e6d98f..345ce65 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -387,6 +387,20 @@ impl<
     }
 }
 
+/// Drops the items without validity from a [`Validity`] when an extension of it
+/// ends, also by a panic of the extending iterator.
+struct Aligned<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for Aligned<'_, T, Storage> {
+    fn drop(&mut self) {
+        if let Some(bitmap) = self.0.bitmap.as_ref() {
+            self.0.collection.truncate(bitmap.len());
+        }
+    }
+}
+
 /// Number of items buffered before flushing their validity to the bitmap in
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
@@ -411,11 +425,12 @@ impl<
         // packing fast path. The bitmap is extended after the items of a
         // chunk are committed to the collection, so a panicking iterator can
         // not add validity for items that never arrive.
+        let aligned = Aligned(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            aligned.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +440,9 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            aligned
+                .0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -515,6 +532,7 @@ impl<
         self.try_materialize_bitmap()?;
         self.collection.truncate(len);
 
+        let aligned = Aligned(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
@@ -527,17 +545,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = aligned.0.collection.try_extend(values) {
+                aligned.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = aligned
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                aligned.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0

