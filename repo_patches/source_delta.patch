From b3287fd2853268cbb31443395bceb73df7c74237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 01/25] fix: Tensor::get on a view added the view offset twice

as_ptr() already points at the first element of the view, so get() (and
Debug, which uses it) read past the view, and past the allocation.
---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From 3c643da7c046ad0a3cfc4a06fe84e976e2af52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 02/25] fix: as_wrap_slice_n on a view added the view offset
 twice

fold_row on a view panicked or folded the wrong rows.
---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..4ea492a 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(len <= self.size - offset);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From 73c8ff0a4ceb5b2970527a23b818c361ab4d2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 03/25] fix: undefined behavior in unsafe_init

- a zero-size layout was passed to alloc (empty tensors, zero-size types)
- a failed allocation was not detected
- the init pointer was derived from a reference to the first element
  only, so writing the other elements was out of its bounds
- a shape that doesn't match the length was only detected after the
  allocation, and the unwind then dropped uninitialized values
---
 src/tensor/data.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..455490d 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -1,6 +1,6 @@
 use core::slice;
 use std::{
-    alloc::{self, Layout}, mem, ptr::NonNull
+    alloc::{self, Layout}, ptr::NonNull
 };
 
 use crate::tensor::Tensor;
@@ -87,12 +87,25 @@ pub unsafe fn unsafe_init<T: Type>(
 {
     let shape = shape.into();
 
+    // the mismatch must be caught before the data exists, because dropping 
+    // the tensor data would drop uninitialized values.
+    assert_eq!(
+        shape.size(), len, 
+        "Tensor data len={} must match shape size {:?}", len, shape.as_vec()
+    );
+
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
 
-    (init)(data.cast::<T>().as_mut());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        match NonNull::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
+    };
 
-    let data = mem::ManuallyDrop::new(data);
+    (init)(data.as_ptr());
 
-    TensorData::<T>::new(len, *data, shape)
+    TensorData::<T>::new(len, data, shape)
 }
-- 
2.43.0


From 57c1639437b7d727425814cbbd8f5e5bcf95cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 04/25] fix: tile with scalar or rank 2 multiples

The number of multiples was taken from the outermost dimension of the
multiples instead of from its size.
---
 src/array/tile.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index 868c3f5..f9018e8 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -30,8 +30,8 @@ where
 
     let mut o_shape_r = Vec::<usize>::new();
     let rank = shape.rank();
-    let m_len = multiples.len();
-    let o_rank = rank.max(multiples.len());
+    let m_len = mult_r.len();
+    let o_rank = rank.max(m_len);
     for i in 0..o_rank {
         let tile_dim = if i < rank { shape_r[i] } else { 1 };
         let repeat_dim = if i < m_len { mult_r[i] } else { 1 };
-- 
2.43.0


From 76c01869f9115cda35bffc5c07363fe1c284b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 05/25] fix: matmul read past the end of b when the batches
 differ

Re-enables the batch assertion for the current Shape.
---
 src/linalg/matmul.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..e17d454 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,11 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert_eq!(
+        a.shape().as_vec()[..a.rank() - 2], b.shape().as_vec()[..b.rank().max(2) - 2],
+        "matmul batch shape must match. A={:?} B={:?}", 
+        a.shape().as_vec(), b.shape().as_vec()
+    );
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From 5cd725a4a6870fbba0cfef5a6fbb94160a98792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 06/25] fix: matmul of non-square result had rows and columns
 swapped

A m x k by k x n multiplication is a m x n matrix.
---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e17d454..d4cd7e0 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -57,7 +57,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From 51ed207fc8edaa101c1a8729b953930ef0d9b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 07/25] fix: normalize over a non-last axis wrote values to the
 wrong position

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From e612ce3df27a4a7a37d11fde1f2720c2ea8344ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 08/25] fix: squeeze of an axis looked at the axis before it

squeeze(0) never removed the outermost dimension and squeeze(1) removed
the outermost.
---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..d404bfa 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From ead163ff639eac2eecc215d0937d6de687bf2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 09/25] fix: Shape::append always added MAX_RANK to the rank

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d404bfa..d29a481 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From 26f64bb893851bd2df65d901f8859675b5f28e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 10/25] fix: Shape::batch_len multiplied the inner dimensions

dims are stored in reverse order, so the batch dimensions are at its end.
---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d29a481..a1a6328 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From f87ac7b91bc0019644c8d339fbf29af2650717ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 11/25] fix: Shape::insert rejected an outermost insert into a
 rank 5 shape

So concatenate of rank 6 and stack of rank 5 tensors failed at axis 0,
while an axis beyond the rank left unset dimensions in the shape.
---
 src/tensor/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index a1a6328..66ae4a2 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -384,6 +384,8 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn insert(self, axis: usize, len: usize) -> Shape {
+        assert!(axis <= self.rank);
+
         let axis = self.rank - axis;
 
         self.rinsert(axis, len)
@@ -392,7 +394,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 029b28a2f19a3f68def490f1c9e351285d7ec6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 12/25] fix: Shape dimensions and sizes were truncated to 32
 bits

A dimension beyond u32 was silently truncated, and the size of a shape
with more than u32::MAX elements wrapped around (release) so a tensor
could be smaller than its shape, e.g. reshape([65536, 65536, 1, 1]).
---
 src/tensor/shape.rs | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 66ae4a2..4fe3d6f 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -25,7 +25,7 @@ impl Shape {
         assert!(len > 0, "Shape requires a non-zero size");
 
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = len as u32;
+        dims[0] = as_dim(len);
 
         Self {
             dims,
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        dims_size(&self.dims[0..self.rank])
     }
 
     #[inline]
@@ -81,7 +81,7 @@ impl Shape {
     pub fn rreplace(mut self, i: usize, value: usize) -> Self {
         assert!(i < self.rank);
 
-        self.dims[i] = value as u32;
+        self.dims[i] = as_dim(value);
 
         self
     }
@@ -116,7 +116,7 @@ impl Shape {
     pub fn with_cols(self, col: usize) -> Self {
         let mut own = self;
 
-        own.dims[0] = col as u32;
+        own.dims[0] = as_dim(col);
 
         own
     }
@@ -139,7 +139,7 @@ impl Shape {
 
         let mut own = self;
 
-        own.dims[1] = row as u32;
+        own.dims[1] = as_dim(row);
 
         own
     }
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[base_rank..rank].iter().product::<u32>() as usize
+            dims_size(&self.dims[base_rank..rank])
         } else {
             1
         }
@@ -231,7 +231,7 @@ impl Shape {
 
     pub fn push(&self, dim: usize) -> Self {
         let mut dims = self.dims.clone();
-        dims[self.rank as usize] = dim as u32;
+        dims[self.rank as usize] = as_dim(dim);
 
         Self {
             dims,
@@ -244,7 +244,7 @@ impl Shape {
         let mut dims = self.dims.clone();
 
         for (i, dim) in tail.iter().enumerate() {
-            dims[i + self.rank as usize] = *dim as u32;
+            dims[i + self.rank as usize] = as_dim(*dim);
         }
 
         Self {
@@ -256,27 +256,15 @@ impl Shape {
     #[inline]
     pub fn sublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
         let (start, end) = (self.rank - end, self.rank - start);
 
-        for i in start..end {
-            size *= self.dims[i];
-        }
-
-        size as usize
+        dims_size(&self.dims[start..end])
     }
 
     #[inline]
     pub fn rsublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
-        for i in start..end {
-            size *= self.dims[i];
-        }
-
-        size as usize
+        dims_size(&self.dims[start..end])
     }
 
     #[inline]
@@ -400,7 +388,7 @@ impl Shape {
             self.dims[i + 1] = self.dims[i];
         }
 
-        self.dims[axis] = len as u32;
+        self.dims[axis] = as_dim(len);
         self.rank += 1;
 
         self
@@ -420,6 +408,22 @@ impl Shape {
     }
 }
 
+// dims are stored as u32, so larger values must be rejected, not truncated
+#[inline]
+fn as_dim(value: usize) -> u32 {
+    assert!(value <= u32::MAX as usize, "Shape dimension {} is too large", value);
+
+    value as u32
+}
+
+// the size is larger than each dimension, and can be larger than u32
+#[inline]
+fn dims_size(dims: &[u32]) -> usize {
+    dims.iter().fold(1, |size: usize, dim| {
+        size.checked_mul(*dim as usize).expect("Shape size is too large")
+    })
+}
+
 impl fmt::Debug for Shape {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "Shape{:?}", self.as_vec())
@@ -435,7 +439,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = as_dim(value);
 
         Shape {
             dims,
@@ -449,7 +453,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = as_dim(*dim);
         }
 
         Shape {
@@ -464,7 +468,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = as_dim(*dim);
         }
 
         Shape {
@@ -480,7 +484,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = as_dim(*v);
         }
 
         Shape {
-- 
2.43.0


From b5ddfdbae1e32cf3472751068761839cf63edc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 13/25] fix: subslice_flat accepted a shape that doesn't match
 its length

An empty shape was accepted for a single value (a scalar shape already has
size 1), and the range check could overflow.
---
 src/tensor/tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 4ea492a..97f1963 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,12 +137,12 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From 28db9e79a4a5418a9eabb2bced4cb94b45b68562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 14/25] fix: index by 3 or 4 values compared the size with the
 rank

A valid index of a small tensor, such as [(0, 0, 0)] of a [1, 1, 2]
tensor, panicked.
---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From c18af00e5a60bcc860a7740ab02eec9b293ddce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 15/25] fix: unstack returned no tensors (axis 0) or the tensor
 itself

unstack is the inverse of stack: one tensor for each index of the axis,
with the axis removed.
---
 src/array/stack.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/array/stack.rs b/src/array/stack.rs
index c565cb3..ac1216c 100644
--- a/src/array/stack.rs
+++ b/src/array/stack.rs
@@ -154,24 +154,13 @@ impl<T: Type + Clone> Tensor<T> {
     
         let axis = axis.axis_from_rank(self.rank());
     
-        let cuts = Vec::<usize>::new();
-    
-        if axis == 0 {
-            let mut slices = Vec::<Tensor<T>>::new();
-    
-            let mut prev = 0;
-            for i in cuts {
-                if i != prev {
-                    slices.push(self.subslice(prev, i - prev));
-                }
-                prev = i;
-            }
-        
-    
-            slices
-        } else {
-            self.split_axis(Axis::axis(axis as isize), cuts)
-        }
+        let cuts : Vec<usize> = (1..self.dim(axis)).collect();
+        let shape = self.shape().clone().remove(axis);
+
+        self.split_axis(Axis::axis(axis as isize), cuts)
+            .into_iter()
+            .map(|slice| slice.reshape(&shape))
+            .collect()
     }
 }
 
-- 
2.43.0


From e3c145b23835e7f6de1cdcf9b86f91e984f119ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 16/25] fix: map2 and map3 of empty tensors divided by zero

Adding two empty tensors panicked, although map of an empty tensor is an
empty tensor.
---
 src/tensor/map.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index 897d102..fc58c07 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -291,9 +291,9 @@ where
     let a_len = a.size();
     let b_len = b.size();
 
-    let size = a_len.max(b_len);
+    let size = shape.size();
     let inner = a_len.min(b_len);
-    let batch = size / inner;
+    let batch = if inner > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={}", a_len, b_len);
     
@@ -376,9 +376,9 @@ where
     let b_len = b.size();
     let c_len = c.size();
 
-    let size = a_len.max(b_len).max(c_len);
+    let size = shape.size();
     let inner = a_len.min(b_len).min(c_len);
-    let batch = size / inner;
+    let batch = if inner > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={} c.len={}", a_len, b_len, c_len);
     
-- 
2.43.0


From cae63c49ca0d9b0c79c12a5de50ebccbec8c91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 17/25] fix: arange never ended for a negative step or a small
 step

A negative step was subtracted, moving away from the end, and a step
smaller than the resolution of start made no progress. Both allocated
until memory ran out.
---
 src/init/vector.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..53f78fc 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -9,23 +9,21 @@ use crate::tensor::{Shape, Tensor, unsafe_init};
 pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
     assert!(step != 0.);
 
-    let mut start = start;
+    let mut vec = Vec::<f32>::new();
 
-    if start <= end && step > 0. {
-        let mut vec = Vec::<f32>::new();
+    // start + i * step instead of adding the step, because adding a small
+    // step might not change the value.
+    let value = |i: usize| (start as f64 + i as f64 * step as f64) as f32;
 
-        while start < end {
-            vec.push(start);
-            start += step;
+    if start <= end && step > 0. {
+        while value(vec.len()) < end {
+            vec.push(value(vec.len()));
         }
 
         Tensor::from(vec)
     } else if end <= start && step < 0. {
-        let mut vec = Vec::<f32>::new();
-
-        while end < start {
-            vec.push(start);
-            start -= step;
+        while end < value(vec.len()) {
+            vec.push(value(vec.len()));
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 2aa433eb32dc05956226be2bbc1ba095642093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 18/25] fix: rfft_norm of a batch used the outermost dimension
 as its size

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 2a9908291717ba503b253f70f5559fe0038aba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 19/25] fix: histogram2d always panicked

It needs the minimum and maximum of each column, not of all values.
---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From 9c917907b02da247c9cc7b7a8557de8dc3a4cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 20/25] fix: Rand64::next_uniform was not in 0..1

A 64 bit value was divided by u32::MAX, and next_normal, which takes the
logarithm of the uniform value, was NaN.
---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 3d5d5ea2bab72e219d5eb9cb21d47795048929fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 21/25] fix: next_normal was infinite when the uniform value is
 zero

---
 src/random/random.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index c92d42a..707d690 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -33,7 +33,8 @@ impl Rand32 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f32 {
-        let rng_a = self.next_uniform();
+        // ln(0) is infinite
+        let rng_a = self.next_uniform().max(f32::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
@@ -81,7 +82,8 @@ impl Rand64 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f64 {
-        let rng_a = self.next_uniform();
+        // ln(0) is infinite
+        let rng_a = self.next_uniform().max(f64::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
-- 
2.43.0


From a6f7e37f9d77e379efccf4b3e834de1c15d7b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 22/25] fix: read_file ignored a short read

A single read may return less than the file, and the rest of the tensor was
silently zero. It also failed when interrupted, and returned nothing for a
file without a known length.
---
 src/io/read_file.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..f5553bc 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -4,13 +4,10 @@ use crate::tensor::Tensor;
 
 pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std::io::Error> {
     let mut file = File::open(&filename.into()[0])?;
-    let len = file.metadata()?.len();
 
     let mut data: Vec<u8> = Vec::new();
-    data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From ce1690769149f02b2bdd00fc8b133f0051d53d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 23/25] fix: fold_row over the axis of a vector folded its only
 row repeatedly

A vector is a single row, as it is for fold_row without an axis.
---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From 87733177ad8dee9bb57181194f999d62ae7149a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 24/25] hook: name the transpose and fft options from outside
 the crate

Only with --cfg verif_hooks: matmul_t, matvec_t and rfft_norm take types and
traits which are not exported, so a harness in another crate could not use
these arguments.
---
 src/linalg/mod.rs | 3 +++
 src/signal/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..076a510 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -5,3 +5,6 @@ mod matvec;
 
 pub use matmul::matmul;
 
+#[cfg(verif_hooks)]
+pub use matmul::Transpose;
+
diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..0652c0c 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -4,3 +4,6 @@ mod rfft;
 pub use frame::frame;
 pub use rfft::rfft_norm;
 
+#[cfg(verif_hooks)]
+pub use rfft::{FftArg, FftOpt};
+
-- 
2.43.0


From 81fadfd9ed46494a2f891bb6c8a17793516c71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:43 +0000
Subject: [PATCH 25/25] fix: decode_wav reserved up to 8 GB for a truncated
 file

---
 src/io/decode_wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..c2babd7 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -32,6 +32,9 @@ pub fn decode_wav(
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
 
+    // before reserving memory for the samples
+    assert!(size as usize <= contents.as_slice().len() - cursor.index);
+
     let n_samples = size / 2;
     //let len = meta.n_channels * 
 
-- 
2.43.0

