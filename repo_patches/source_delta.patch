From 8985db13478bd6031bdd871b89defe8ff9e813e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 01/30] fix: diagonal bounds a positive offset by the columns
 and rejects equal axes

---
 rstsr-common/src/layout/layoutbase.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..22d4fd2 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -336,6 +336,7 @@ where
         let axis2 = axis2.unwrap_or(1);
         let axis1 = rstsr_check_axis!(axis1, self.ndim())?;
         let axis2 = rstsr_check_axis!(axis2, self.ndim())?;
+        rstsr_assert!(axis1 != axis2, InvalidValue, "axis1 and axis2 of diagonal cannot be the same.")?;
 
         // shape and strides of last two dimensions
         let d1 = self.shape()[axis1] as isize;
@@ -354,7 +355,7 @@ where
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From 58ae6af13493b73b078ddcc4371fbef737a2cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 02/30] fix: negative-step slices clip start below the axis and
 count an explicit stop of -1 from the end

---
 rstsr-common/src/layout/indexer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fdb4ef9..f52ba83 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -155,7 +155,7 @@ where
                 stop = (len_prev + stop).max(0);
             }
 
-            if start > len_prev || start > stop {
+            if start >= len_prev || start >= stop {
                 // zero size slice caused by inproper start and stop
                 start = 0;
                 stop = 0;
@@ -172,23 +172,25 @@ where
             // step < 0
             // default start = len_prev - 1 and stop = -1
             let mut start = slice.start().unwrap_or(len_prev - 1);
-            let mut stop = slice.stop().unwrap_or(-1);
+            // (explicit negative value counts from the end, so default stop is one before the first element)
+            let mut stop = slice.stop().unwrap_or(-1 - len_prev);
 
             // handle negative slice
             if start < 0 {
-                start = (len_prev + start).max(0);
+                start = (len_prev + start).max(-1);
             }
-            if stop < -1 {
+            if stop < 0 {
                 stop = (len_prev + stop).max(-1);
             }
 
-            if stop > len_prev - 1 || stop > start {
+            if start > len_prev - 1 {
+                // start is out of bound, set it to last element
+                start = len_prev - 1;
+            }
+            if stop >= start {
                 // zero size slice caused by inproper start and stop
                 start = 0;
                 stop = 0;
-            } else if start > len_prev - 1 {
-                // start is out of bound, set it to len_prev
-                start = len_prev - 1;
             }
 
             let offset = (self.offset() as isize + stride[axis] * start) as usize;
-- 
2.43.0


From 0871ef2aeb1fa738d1a084bec23deb46308e336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 03/30] fix: indexed layout iterator reports the yielded index
 when stepping backwards

---
 rstsr-common/src/layout/iterator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..d7fa369 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -801,11 +801,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
+        // end of iteration is exclusive, so the yielded index is known after stepping back
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        Some((index, offset))
     }
 }
 
-- 
2.43.0


From e20586591b704426fb9b8b8926e5cfd4012688b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 04/30] fix: axes iterators reject every out-of-range axis and
 accept an empty axis list

---
 rstsr-core/src/tensor/iterator_axes.rs | 36 +++++++++++++++++---------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..ff2306b 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -93,11 +93,14 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -248,11 +251,14 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -421,11 +427,14 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -593,11 +602,14 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
-- 
2.43.0


From 4ddc14ba6ecd6114647cc52687ef2268675db007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 05/30] fix: reshape with -1 and a zero-sized dimension is an
 error instead of a division by zero

---
 rstsr-common/src/layout/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 525ac4f..903b801 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -140,7 +140,7 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
         let size_in = size_in as isize;
         let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
         rstsr_assert!(
-            size_in % size_neg == 0,
+            size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
             "Shape '-1' in {:?} could not be determined to original tensor size {:?}",
             shape,
-- 
2.43.0


From 3e412e48591d2729c71eff9a68f3ec8ce8d22d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 06/30] fix: tensordot rejects axis lists of different lengths
 instead of truncating

---
 rstsr-common/src/tensordot_to_einsum.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rstsr-common/src/tensordot_to_einsum.rs b/rstsr-common/src/tensordot_to_einsum.rs
index c69ddad..ed7c7a5 100644
--- a/rstsr-common/src/tensordot_to_einsum.rs
+++ b/rstsr-common/src/tensordot_to_einsum.rs
@@ -48,6 +48,14 @@ pub fn tensordot_to_einsum_str(
         },
     };
 
+    // Summed axes are paired one by one, so both sides must have the same number of axes.
+    rstsr_assert_eq!(
+        axes_a.len(),
+        axes_b.len(),
+        InvalidValue,
+        "number of summed axes of the two tensors must be the same"
+    )?;
+
     // Axis bounds are already guaranteed by the branches above:
     //  - `Pair` runs each side through `normalize_axes_index(.., dim, ..)`, which folds negative axes
     //    and rejects any out-of-range axis with `AxisError`.
-- 
2.43.0


From 2092eed6cf660407b81def34e1c071c4a18554c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 07/30] fix: indexed axes iterators report the yielded index
 when stepping backwards

---
 rstsr-core/src/tensor/iterator_axes.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index ff2306b..73f0c82 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -361,14 +361,14 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
+        // end of iteration is exclusive, so the yielded index is known after stepping back
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            (index, unsafe { transmute(self.view.view()) })
-        })
+        self.update_offset(offset);
+        Some((index, unsafe { transmute(self.view.view()) }))
     }
 }
 
@@ -542,14 +542,14 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
+        // end of iteration is exclusive, so the yielded index is known after stepping back
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            unsafe { transmute((index, self.view.view_mut())) }
-        })
+        self.update_offset(offset);
+        Some(unsafe { transmute((index, self.view.view_mut())) })
     }
 }
 
-- 
2.43.0


From 5b3b68f5f5ae5087b17ced5455d5bf3acc18f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 08/30] fix: splitting an iterator over an empty layout does
 not divide by zero

---
 rstsr-common/src/layout/iterator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index d7fa369..1784fa5 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -413,7 +416,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From 6b17a504daaf13653e2fc5de87ad7b8a27822414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 09/30] fix: indexed element iterators report the yielded index
 when stepping backwards

---
 rstsr-core/src/tensor/iterator_elem.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..3ef04b9 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -209,11 +209,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
+        // end of iteration is exclusive, so the yielded index is known after stepping back
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        Some((index, &self.view[offset]))
     }
 }
 
@@ -309,13 +311,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
+        // end of iteration is exclusive, so the yielded index is known after stepping back
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        Some((index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
 }
 
-- 
2.43.0


From 70da9b687b115b2b2ef27984fac3398b6261604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 10/30] fix: squeeze rejects a too small negative axis even
 when other axes are valid

---
 rstsr-core/src/tensor/manipulation/squeeze.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/squeeze.rs b/rstsr-core/src/tensor/manipulation/squeeze.rs
index 52478fb..a70a93f 100644
--- a/rstsr-core/src/tensor/manipulation/squeeze.rs
+++ b/rstsr-core/src/tensor/manipulation/squeeze.rs
@@ -29,7 +29,8 @@ where
         _ => {
             let mut axes: Vec<isize> = axes.as_ref().iter().map(|&v| if v >= 0 { v } else { v + ndim }).collect();
             axes.sort_by(|a, b| b.cmp(a));
-            if axes.first().is_some_and(|&v| v < 0) {
+            // axes are sorted in descending order
+            if axes.last().is_some_and(|&v| v < 0) {
                 return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
             }
             // check no two axis are the same
-- 
2.43.0


From 16de911213fcb8893dad083dc07538721ecdf7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 11/30] fix: reshape with a forced copy checks that the size is
 preserved

---
 rstsr-core/src/tensor/manipulation/reshape.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index bb09a10..f5a139f 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -125,6 +125,15 @@ where
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
 
+    // size must be preserved, also when data is always copied
+    let size_out = shape_new.iter().try_fold(1usize, |acc, &v| acc.checked_mul(v));
+    rstsr_assert_eq!(
+        Some(tensor.size()),
+        size_out,
+        InvalidValue,
+        "Size mismatch between input tensor and output tensor."
+    )?;
+
     // rust 2021 does not allow chain if let
     if copy.is_none() || copy == Some(false) {
         if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
-- 
2.43.0


From dba929af8e3060e576d46b309e8e6dc469f0df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 12/30] fix: reshape with -1 and an overflowing product is an
 error instead of a panic

---
 rstsr-common/src/layout/reshape.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 903b801..d6ebcde 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -138,7 +138,11 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
     // substitute negative index
     if let Some(idx_neg1) = idx_neg1 {
         let size_in = size_in as isize;
-        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
+        let size_neg = shape.iter().filter(|&&v| v != -1).try_fold(1isize, |acc, &v| acc.checked_mul(v));
+        let size_neg = match size_neg {
+            Some(size_neg) => size_neg,
+            None => rstsr_raise!(InvalidValue, "Output shape {:?} product overflows isize.", shape)?,
+        };
         rstsr_assert!(
             size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
-- 
2.43.0


From 312aeaad25a0bf26f26c8ce14eff65c0fc97b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 13/30] fix: axes of length one and empty layouts are not
 broadcast destinations

---
 rstsr-common/src/layout/broadcast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index c348410..75bed08 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -267,9 +267,10 @@ where
 
     /// Check whether current layout has been broadcasted.
     ///
-    /// This check is done by checking whether any stride of axis is zero.
+    /// This check is done by checking whether any stride of axis is zero. Axes of length one, and
+    /// layouts without any element, do not repeat elements and thus are not considered.
     pub fn is_broadcasted(&self) -> bool {
-        self.stride().as_ref().contains(&0)
+        self.size() > 0 && self.stride().as_ref().iter().zip(self.shape().as_ref()).any(|(&s, &d)| s == 0 && d > 1)
     }
 }
 
-- 
2.43.0


From 693501f4d028592ca20d64e8480711d12e8c16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 14/30] fix: in-place and with-output operations reject
 broadcast destinations

---
 rstsr-core/src/tensor/operators/op_binary_arithmetic.rs | 1 +
 rstsr-core/src/tensor/operators/op_binary_assign.rs     | 1 +
 rstsr-core/src/tensor/operators/op_with_func.rs         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index 8198810..1af92ce 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -604,6 +604,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
diff --git a/rstsr-core/src/tensor/operators/op_binary_assign.rs b/rstsr-core/src/tensor/operators/op_binary_assign.rs
index 1b2af88..6ccf4b7 100644
--- a/rstsr-core/src/tensor/operators/op_binary_assign.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_assign.rs
@@ -124,6 +124,7 @@ mod impl_binary_assign {
             let lb = b.layout();
             let default_order = a.device().default_order();
             // check layout broadcast
+            rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot update broadcasted tensor in place")?;
             let (la_b, lb_b) = broadcast_layout_to_first(&la.to_dim::<IxD>()?, &lb.to_dim::<IxD>()?, default_order)?;
             rstsr_assert_eq!(la_b, la.to_dim::<IxD>()?, InvalidLayout)?;
             // op provided by device
diff --git a/rstsr-core/src/tensor/operators/op_with_func.rs b/rstsr-core/src/tensor/operators/op_with_func.rs
index 2555caf..1af47f0 100644
--- a/rstsr-core/src/tensor/operators/op_with_func.rs
+++ b/rstsr-core/src/tensor/operators/op_with_func.rs
@@ -28,6 +28,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
@@ -103,6 +104,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = a.device().default_order();
+    rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (la_b, lb_b) = broadcast_layout_to_first(la, lb, default_order)?;
-- 
2.43.0


From d1c6bec7f6fb187e3070d108154a8fffd681a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 15/30] fix: assignment rejects a source that would enlarge the
 destination

---
 rstsr-core/src/tensor/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..e6521c7 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -44,6 +44,7 @@ where
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
         let (la_b, lb_b) = broadcast_layout_to_first(&la, &lb, default_order)?;
+        rstsr_assert_eq!(la_b, la, InvalidLayout)?;
         let la_b = la_b.into_dim::<DA>()?;
         let lb_b = lb_b.into_dim::<DA>()?;
         // assign
-- 
2.43.0


From 8e3d1a6d76dc304a426fba86f470be5dcea2b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 16/30] fix: reduction over axes handles broadcast axes, empty
 axes and offsets

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 43 +++++++++++--------
 rstsr-native-impl/src/cpu_serial/reduction.rs | 43 +++++++++++--------
 2 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..1c9a72e 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -151,6 +151,13 @@ where
 
     // create output layout
     let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+
+    // no elements to be reduced: every output is the finalized initial value
+    if ls.size() == 0 || lm.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -159,11 +166,19 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
 
+    // contiguous part of input is not always contiguous in output (for example, broadcast axes are
+    // placed before the contiguous axes in output)
+    let is_mc_contig_out = {
+        let amc = amc.iter().map(|&i| i as isize).collect_vec();
+        let (loc, _) = lo.dim_split_axes(&amc)?;
+        loc.f_contig()
+    };
+
     let mut task = || -> Result<()> {
         if size_sc > 1 {
             // contiguous parts to be summed, call unrolled_reduce for inner reduce
@@ -196,7 +211,7 @@ where
                     (*ptr_out_ocd).write(f_out(acc));
                 }
             });
-        } else if size_mc > 1 {
+        } else if size_mc > 1 && is_mc_contig_out {
             // contiguous parts to be remains, but other parts to be summed
             let ascd = asc.iter().chain(asd.iter()).map(|&i| i as isize).collect_vec();
             let (lscd, _) = ls.dim_split_axes(&ascd)?;
@@ -208,15 +223,6 @@ where
             let it_md = IterLayoutColMajor::new(&lmd)?;
             let it_od = IterLayoutColMajor::new(&lod)?;
 
-            // double check the contigous of output layout
-            let amc = amc.iter().map(|&i| i as isize).collect_vec();
-            let (loc, _) = lo.dim_split_axes(&amc)?;
-            rstsr_assert!(
-                loc.f_contig(),
-                RuntimeError,
-                "probably internal bug: the contiguous part of input must be the same applied to output"
-            )?;
-
             // iterate the discontiguous remain parts
             it_md.into_par_iter().zip(it_od).for_each(|(i_md, i_od)| {
                 // initialize sequential parts
@@ -247,8 +253,8 @@ where
                 });
             });
         } else {
-            // no contiguous part, just iterate the whole layout with simple fold
-            let amd = amd.iter().map(|&i| i as isize).collect_vec();
+            // no contiguous part to be used, just iterate the whole layout with simple fold
+            let amd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
             let (lmd, _) = lm.dim_split_axes(&amd)?;
             let (lod, _) = lo.dim_split_axes(&amd)?;
             let it_md = IterLayoutColMajor::new(&lmd)?;
@@ -290,11 +296,12 @@ where
 
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
-
-                    // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
-                    out[idx_o0].write(val);
+                    // offset of output layout is zero, so it is not double-counted
+                    if idx_o0 != 0 {
+                        // Safety: the c/d part without broadcast should have been initialized by reduced value
+                        let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
+                        out[idx_o0 + idx_ocd].write(val);
+                    }
                 });
             });
         }
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..635177f 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -215,6 +215,13 @@ where
 
     // create output layout
     let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+
+    // no elements to be reduced: every output is the finalized initial value
+    if ls.size() == 0 || lm.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -223,11 +230,19 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
 
+    // contiguous part of input is not always contiguous in output (for example, broadcast axes are
+    // placed before the contiguous axes in output)
+    let is_mc_contig_out = {
+        let amc = amc.iter().map(|&i| i as isize).collect_vec();
+        let (loc, _) = lo.dim_split_axes(&amc)?;
+        loc.f_contig()
+    };
+
     if size_sc > 1 {
         // contiguous parts to be summed, call unrolled_reduce for inner reduce
         let amcd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
@@ -254,7 +269,7 @@ where
             }
             out[i_ocd].write(f_out(acc));
         });
-    } else if size_mc > 1 {
+    } else if size_mc > 1 && is_mc_contig_out {
         // contiguous parts to be remains, but other parts to be summed
         let ascd = asc.iter().chain(asd.iter()).map(|&i| i as isize).collect_vec();
         let (lscd, _) = ls.dim_split_axes(&ascd)?;
@@ -266,15 +281,6 @@ where
         let it_md = IterLayoutColMajor::new(&lmd)?;
         let it_od = IterLayoutColMajor::new(&lod)?;
 
-        // double check the contigous of output layout
-        let amc = amc.iter().map(|&i| i as isize).collect_vec();
-        let (loc, _) = lo.dim_split_axes(&amc)?;
-        rstsr_assert!(
-            loc.f_contig(),
-            RuntimeError,
-            "probably internal bug: the contiguous part of input must be the same applied to output"
-        )?;
-
         // iterate the discontiguous remain parts
         it_md.zip(it_od).for_each(|(i_md, i_od)| {
             // initialize sequential parts
@@ -303,8 +309,8 @@ where
             });
         });
     } else {
-        // no contiguous part, just iterate the whole layout with simple fold
-        let amd = amd.iter().map(|&i| i as isize).collect_vec();
+        // no contiguous part to be used, just iterate the whole layout with simple fold
+        let amd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
         let (lmd, _) = lm.dim_split_axes(&amd)?;
         let (lod, _) = lo.dim_split_axes(&amd)?;
         let it_md = IterLayoutColMajor::new(&lmd)?;
@@ -339,11 +345,12 @@ where
 
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
-
-                // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
-                out[idx_o0].write(val);
+                // offset of output layout is zero, so it is not double-counted
+                if idx_o0 != 0 {
+                    // Safety: the c/d part without broadcast should have been initialized by reduced value
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
+                    out[idx_o0 + idx_ocd].write(val);
+                }
             });
         });
     }
-- 
2.43.0


From 643aa9f321511e774140de21767f46e1fd17d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 17/30] fix: parallel positional reduction over several axes
 reports positions of the requested axes

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 1c9a72e..716eda8 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -538,7 +538,6 @@ where
 
     // split the layout into axes (to be summed) and the rest
     let (layout_axes, layout_rest) = la.dim_split_axes(axes)?;
-    let layout_axes = translate_to_col_major_unary(&layout_axes, TensorIterOrder::default())?;
 
     // generate layout for result (from layout_rest)
     let layout_out = layout_for_array_copy(&layout_rest, TensorIterOrder::default())?;
@@ -575,8 +574,7 @@ where
     };
     let out = unsafe { transmute::<Vec<MaybeUninit<IxD>>, Vec<IxD>>(out) };
     // returns (indices, layout_axes, layout_out): each index in `out` is an
-    // unraveled position within `layout_axes` (the reduced-axes space, possibly
-    // greedy-reordered by `translate_to_col_major_unary`), *not* within
+    // unraveled position within `layout_axes` (the reduced-axes space), *not* within
     // `layout_out`. Callers that ravel the indices must use `layout_axes.shape()`.
     Ok((out, layout_axes, layout_out))
 }
-- 
2.43.0


From e913bcab21d1dd5d594c94a9597d198fa82e8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 18/30] fix: matmul with a destination checks batch and matrix
 lengths and accepts operands of different rank

---
 rstsr-common/src/layout/matmul.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..bf37a12 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -312,6 +312,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             // rule 2: matrix multiplication
             rstsr_assert_eq!(nc, 2, InvalidLayout)?;
             rstsr_assert_eq!(la.shape()[1], lb.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc.shape()[0], la.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc.shape()[1], lb.shape()[1], InvalidLayout)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMM22,
                 lc: lc.clone(),
@@ -329,6 +331,9 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-1)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
+            rstsr_assert_eq!(lb_r.shape(), lc_r.shape(), InvalidLayout)?;
+            rstsr_assert_eq!(la_m.shape()[0], lb_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[0], lb_m.shape()[1], InvalidLayout)?;
             let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEVM,
@@ -347,6 +352,9 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-1)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
+            rstsr_assert_eq!(la_r.shape(), lc_r.shape(), InvalidLayout)?;
+            rstsr_assert_eq!(la_m.shape()[1], lb_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[0], la_m.shape()[0], InvalidLayout)?;
             let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMV,
@@ -365,6 +373,10 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
+            rstsr_assert_eq!(lb_r.shape(), lc_r.shape(), InvalidLayout)?;
+            rstsr_assert_eq!(la_m.shape()[1], lb_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[0], la_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[1], lb_m.shape()[1], InvalidLayout)?;
             let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMM2X,
@@ -383,6 +395,10 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
+            rstsr_assert_eq!(la_r.shape(), lc_r.shape(), InvalidLayout)?;
+            rstsr_assert_eq!(la_m.shape()[1], lb_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[0], la_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[1], lb_m.shape()[1], InvalidLayout)?;
             let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMX2,
@@ -397,11 +413,16 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
+            rstsr_assert_eq!(la_m.shape()[1], lb_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[0], la_m.shape()[0], InvalidLayout)?;
+            rstsr_assert_eq!(lc_m.shape()[1], lb_m.shape()[1], InvalidLayout)?;
+            // batch dims of C are exactly those of A and B after broadcasting
+            let (la_rest_b, _) = broadcast_layout(&la_r, &lb_r, RowMajor)?;
+            rstsr_assert_eq!(la_rest_b.shape(), lc_r.shape(), InvalidLayout)?;
             // both A and B batch dims broadcast against C's batch dims
             let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
             let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
-- 
2.43.0


From 80185fbc329f7c0923061429ede852faab98f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 19/30] fix: batched matmul layout reports the matrix part of
 the first operand

---
 rstsr-common/src/layout/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index bf37a12..472b33b 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -262,7 +262,7 @@ fn layout_matmul_dyn_row_major(la: &Layout<IxD>, lb: &Layout<IxD>) -> Result<Lay
                 la_rest: Some(la_rest_b),
                 lb_rest: Some(lb_rest_b),
                 lc_rest: Some(lc_rest),
-                la_matmul: la.to_dim()?,
+                la_matmul: la_matmul.to_dim()?,
                 lb_matmul: lb_matmul.to_dim()?,
                 lc_matmul: lc_matmul.to_dim()?,
             })
-- 
2.43.0


From 0842e70113ae9981fa72134404e92f84ddc50649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 20/30] fix: naive matmul honours a zero beta and the offset of
 a scalar destination

---
 .../src/device_cpu_serial/linalg/matmul.rs    |  3 ++-
 .../src/cpu_rayon/matmul_naive.rs             |  6 ++++--
 .../src/cpu_serial/matmul_naive.rs            | 21 ++++++++++---------
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
index 40e4e0a..fa187d3 100644
--- a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
+++ b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
@@ -3,6 +3,7 @@
 //! **This implementation is not optimized!**
 
 use core::ops::{Add, Mul};
+use num::Zero;
 
 use crate::prelude_dev::*;
 
@@ -16,7 +17,7 @@ where
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
     TB: Mul<TA, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
     Self: DeviceAPI<TA, Raw = Vec<TA>> + DeviceAPI<TB, Raw = Vec<TB>> + DeviceAPI<TC, Raw = Vec<TC>>,
 {
     fn matmul(
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..f832572 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -39,7 +39,8 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
+                let val_c = if beta.is_zero() { TC::zero() } else { (*ptr_c).clone() * beta.clone() };
+                *ptr_c = val_c
                     + (0..k).fold(TC::zero(), |acc, p| {
                         let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
                         let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
@@ -88,6 +89,7 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    let val_c = if beta.is_zero() { TC::zero() } else { c.clone() * beta };
+    *c = c_innerdot * alpha + val_c;
     Ok(())
 }
diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 95e805c..0c42bd1 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -4,6 +4,7 @@
 
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
+use num::Zero;
 
 #[allow(clippy::too_many_arguments)]
 pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
@@ -24,7 +25,7 @@ where
     DB: DimAPI,
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // NOTE: this only works for row-major layout
     // for column-major layout, we need to transpose the input:
@@ -90,7 +91,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -106,7 +107,7 @@ where
         for i_m in 0..m {
             for i_n in 0..n {
                 let idx_c = lc.index_uncheck(&[i_m, i_n]) as usize;
-                c[idx_c] = beta.clone() * c[idx_c].clone();
+                c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             }
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_m, i_k]) as usize;
@@ -137,7 +138,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -151,7 +152,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_n, i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k]) as usize;
@@ -178,7 +179,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -192,7 +193,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k, i_n]) as usize;
@@ -219,7 +220,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sa = la.shape();
@@ -230,13 +231,13 @@ where
     // naive iteration
     unsafe {
         let idx_c = lc.index_uncheck(&[]) as usize;
-        let mut sum = beta * c[idx_c].clone();
+        let mut sum = if beta.is_zero() { TC::zero() } else { beta * c[idx_c].clone() };
         for i in 0..n {
             let idx_a = la.index_uncheck(&[i]) as usize;
             let idx_b = lb.index_uncheck(&[i]) as usize;
             sum = sum + alpha.clone() * (a[idx_a].clone() * b[idx_b].clone());
         }
-        c[0] = sum;
+        c[idx_c] = sum;
     }
     Ok(())
 }
-- 
2.43.0


From 25e2af9ef731ba224fa89ce9672fdf1a33e98d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 21/30] fix: vecdot over an empty contraction yields zeros
 instead of slicing out of range

---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs  | 7 +++++++
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..9aed310 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -48,6 +48,13 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // nothing to be summed up: the result is zero (or empty)
+    if lc.size() == 0 || las.size() == 0 {
+        return layout_col_major_dim_dispatch_1(&lc, |idx_c| {
+            c[idx_c].write(Zero::zero());
+        });
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..3af07d7 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -40,6 +40,13 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // nothing to be summed up: the result is zero (or empty)
+    if lc.size() == 0 || las.size() == 0 {
+        return layout_col_major_dim_dispatch_1(&lc, |idx_c| {
+            c[idx_c].write(Zero::zero());
+        });
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
-- 
2.43.0


From fc0b8cc71b7e7fc278eade4c7d36b59f6c53622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 22/30] fix: index_select accepts an empty index list on a
 zero-length axis

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 9 ++++++++-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..4520036 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,14 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    if let Some(&index_max) = indices.iter().max() {
+        rstsr_pattern!(index_max, 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    }
+
+    // nothing to be written
+    if lc.size() == 0 {
+        return Ok(());
+    }
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..8d223cc 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,14 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    if let Some(&index_max) = indices.iter().max() {
+        rstsr_pattern!(index_max, 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    }
+
+    // nothing to be written
+    if lc.size() == 0 {
+        return Ok(());
+    }
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 00e6f9f296d8b66cee9e678b597b9b4ecc741999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 23/30] fix: bool_select rejects a mask whose length is not the
 indexed axis

---
 rstsr-core/src/tensor/adv_indexing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 1b7f13a..95940c9 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -150,10 +150,17 @@ where
     B: DeviceAPI<T> + DeviceIndexSelectAPI<T, D> + DeviceCreationAnyAPI<T>,
     I: TryInto<AxesIndex<bool>, Error: Into<Error>>,
 {
+    // mask must cover the indexed axis
+    let mask = mask.try_into().map_err(Into::into)?;
+    let axis_checked = rstsr_check_axis!(axis, tensor.ndim())?;
+    rstsr_assert_eq!(
+        mask.as_ref().len(),
+        tensor.shape()[axis_checked],
+        InvalidLayout,
+        "Length of mask should be the same to the indexed axis."
+    )?;
     // transform bool to index
     let indices = mask
-        .try_into()
-        .map_err(Into::into)?
         .as_ref()
         .iter()
         .enumerate()
-- 
2.43.0


From 78919758f751706013fbcd4ba8cc79d30f85fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 24/30] fix: arange counts elements exactly and supports
 negative steps for all integer types

---
 rstsr-native-impl/src/cpu_rayon/creation.rs  | 28 +++++++---------
 rstsr-native-impl/src/cpu_serial/creation.rs | 35 ++++++++++----------
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..7e66920 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -14,24 +14,20 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // We convert to i128, so that number of elements is exact, and no intermediate value overflows, for
+    // all values of types no wider than 64 bits.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = match step_ {
+        step_ if step_ > 0 => (end_ - start_ + step_ - 1) / step_,
+        step_ if step_ < 0 => (start_ - end_ - step_ - 1) / -step_,
+        _ => return None,
+    };
+    let n = n.max(0).to_usize()?;
 
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
+    // The unwrap here is safe, since all values are between start (inclusive) and end (exclusive).
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
-
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
-    Some(result)
+    Some((0..n).into_par_iter().map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect())
 }
 
 /// NOTE: this implementation does not involve a thread pool.
@@ -96,7 +92,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..0aae2a0 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -10,8 +10,13 @@ where
 {
     // This is serial implementation and low performance
     let mut result = Vec::new();
+    if start == end {
+        return result;
+    }
+    // values are counted downwards for negative step
+    let descending = start.clone() + step.clone() < start;
     let mut current = start;
-    while current < end {
+    while (!descending && current < end) || (descending && current > end) {
         result.push(current.clone());
         current = current + step.clone();
     }
@@ -26,24 +31,20 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // We convert to i128, so that number of elements is exact, and no intermediate value overflows, for
+    // all values of types no wider than 64 bits.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = match step_ {
+        step_ if step_ > 0 => (end_ - start_ + step_ - 1) / step_,
+        step_ if step_ < 0 => (start_ - end_ - step_ - 1) / -step_,
+        _ => return None,
+    };
+    let n = n.max(0).to_usize()?;
 
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
+    // The unwrap here is safe, since all values are between start (inclusive) and end (exclusive).
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
-
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
-    Some(result)
+    Some((0..n).map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect())
 }
 
 pub fn arange_by_primitive_f64_cpu_serial<T>(start: T, end: T, step: T) -> Option<Vec<T>>
@@ -101,7 +102,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
-- 
2.43.0


From 1abb94aacf8b81bf5586f17ef5754b6850c7945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 25/30] fix: triu never writes beyond the columns of the matrix

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..beb0fa1 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -541,7 +541,7 @@ where
 {
     let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_start = (i as isize + k + 1).max(0) as usize;
+        let j_start = (i as isize + 1).saturating_add(k).max(0) as usize;
         for j in j_start..ncol {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize).saturating_add(k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From d2ec49f892f81696a0369bff000ff5b7cbd9dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 26/30] fix: column-major eye keeps rows and columns in the
 requested order

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..82e16e1 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
-- 
2.43.0


From 9b8225d1375f4f0b6f5adc3055a7a1720352617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 27/30] fix: full with a prescribed layout allocates the range
 the layout reaches

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 82e16e1..c9834ff 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
-- 
2.43.0


From d90c7c5a97a39380644112dbdaab4c29217738ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 28/30] fix: into_pack_array rejects empty groups and strides
 that do not align with groups

---
 rstsr-core/src/tensor/pack_array.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rstsr-core/src/tensor/pack_array.rs b/rstsr-core/src/tensor/pack_array.rs
index ba3daa1..da8895b 100644
--- a/rstsr-core/src/tensor/pack_array.rs
+++ b/rstsr-core/src/tensor/pack_array.rs
@@ -137,8 +137,17 @@ where
         let axis = rstsr_check_axis!(axis, self.ndim())?;
         rstsr_assert_eq!(self.layout().stride()[axis], 1, InvalidLayout, "The axis must be contiguous")?;
         rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be a exactly {N}")?;
+        rstsr_assert!(N > 0, InvalidLayout, "The axis length must not be zero")?;
         rstsr_assert!(self.layout().offset() % N == 0, InvalidLayout, "The offset must be a multiple of {N}")?;
 
+        for i in 0..self.ndim() {
+            rstsr_assert!(
+                i == axis || self.layout().shape()[i] <= 1 || self.layout().stride()[i] % (N as isize) == 0,
+                InvalidLayout,
+                "The strides of other axes must be multiples of {N}"
+            )?;
+        }
+
         let (storage, layout) = self.into_raw_parts();
         let (data, device) = storage.into_raw_parts();
         let data = data.pack_array_f::<N>()?;
-- 
2.43.0


From 9e797f03d558b89d7cb24c3805db4d96a1167e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 29/30] fix: unpacking without symmetry initialises the other
 triangle with zeros

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index beb0fa1..a8cd299 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -210,6 +210,9 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    a[i * n + j].write(T::zero());
+                }
             }
         },
     }
@@ -290,6 +293,10 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ij].write(b[loc_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
             }
         },
     }
@@ -352,6 +359,9 @@ pub fn inner_unpack_triu_c_contig<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    a[i * n + j].write(T::zero());
+                }
                 for j in i..n {
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
@@ -430,6 +440,10 @@ pub fn inner_unpack_triu_general<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
                 for j in i..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                     let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
-- 
2.43.0


From 98ac3fbbb4647f886646d5ec303bbacdd83a373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 30/30] fix: triangular packing of empty matrices touches no
 storage

---
 rstsr-native-impl/src/cpu_rayon/op_tri.rs  | 6 ++++++
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_tri.rs b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
index bb8d8ac..62ea501 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
@@ -38,6 +38,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(()); // no element to be handled, and offsets may be out of range
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -139,6 +142,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(()); // no element to be handled, and offsets may be out of range
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index a8cd299..f033b20 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -100,6 +100,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(()); // no element to be handled, and offsets may be out of range
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -486,6 +489,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(()); // no element to be handled, and offsets may be out of range
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
-- 
2.43.0

