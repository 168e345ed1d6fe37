From 73623a896577dbceba83faf9852db45c58643b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:45 +0000
Subject: [PATCH 1/9] fix: iteration over empty expressions

An expression with a zero-sized dimension outside the inner dimensions gave
elements out of bounds, and one with a zero-sized inner dimension did so when
iterating with next().
---
 src/expr/iter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..1842838 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,15 +20,24 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let inner_limit = if expr.is_empty() {
+            0 // No elements, also if only some of the outer dimensions have zero size.
+        } else {
+            expr.shape().with_dims(|dims| dims[outer_rank..].iter().product())
+        };
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
 
         if outer_rank > 0 {
             outer_index = Dims::new(expr.rank());
-            outer_limit =
-                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+            outer_limit = Dims::new(expr.rank());
+
+            // If there are no elements, the outer dimensions must not be stepped.
+            if !expr.is_empty() {
+                outer_limit =
+                    expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+            }
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From 50f931a64eba7c780ce94d3fc1963f5971b17cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 2/9] fix: iterator not fused after the last element

For expressions with outer dimensions, the iterator restarted after
returning None and reported a non-zero length.
---
 src/expr/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 1842838..cbdc80c 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -66,7 +66,10 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that following calls return false and that no elements remain.
+        self.outer_limit.as_mut().fill(0);
+        self.inner_index = 0;
+        self.inner_limit = 0;
 
         false
     }
-- 
2.43.0


From 0c65b2e6e9775e1c2b7b9ad66ce61ae0a748554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:52 +0000
Subject: [PATCH 3/9] fix: lanes repeated for outer dimensions

The offset from stepping the outer dimensions was not used, so that the first
lanes were repeated and mutable lanes were aliased.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From 7eb13b983b2c00d4ad0b5ba0ed2caed9853948ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:57 +0000
Subject: [PATCH 4/9] fix: creating arrays with dynamic rank from a function

The index had length zero for dynamic rank.
---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..30ab88a 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From 1d29af19e0b17f9b730a6f6296fbc4642c6253bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 5/9] fix: permutations with rank 64 or more

The bit mask overflowed, so that valid permutations were rejected or
invalid ones were accepted.
---
 src/mapping.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d996750..f0832af 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -324,22 +324,17 @@ impl<S: Shape> Mapping for StridedMapping<S> {
     fn permute<M: Mapping>(mapping: &M, perm: &[usize]) -> Self {
         assert!(perm.len() == mapping.rank(), "invalid permutation");
 
-        let mut index_mask = 0;
-
-        for i in 0..mapping.rank() {
-            assert!(perm[i] < mapping.rank(), "invalid permutation");
-
-            index_mask |= 1 << perm[i];
-        }
-
-        assert!(index_mask == !(usize::MAX << mapping.rank()), "invalid permutation");
-
         let mut shape = S::new(mapping.rank());
         let mut strides = S::Dims::new(mapping.rank());
 
         shape.with_mut_dims(|dims| {
+            dims.fill(usize::MAX);
+
             // Calculate inverse permutation
             for i in 0..mapping.rank() {
+                assert!(perm[i] < mapping.rank(), "invalid permutation");
+                assert!(dims[perm[i]] == usize::MAX, "invalid permutation");
+
                 dims[perm[i]] = i;
             }
 
-- 
2.43.0


From 9b55ee29305e63418df5d8657a26ab49c4d06f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 6/9] fix: leak of elements when assigning clones of moving
 expressions

The buffer does not drop its elements, so these must be dropped before
the buffer is overwritten.
---
 src/expr/into_expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..3437864 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -49,9 +49,9 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     }
 
     fn clone_from(&mut self, source: &Self) {
-        assert!(self.index == 0 && source.index == 0, "expression in use");
+        assert!(self.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        *self = source.clone(); // The existing elements must be dropped.
     }
 }
 
-- 
2.43.0


From b8459c6291cfc22f6306d13f072c936e6b58595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 7/9] fix: abort when resizing with mismatch in constant-sized
 dimensions

The mismatch was detected after modifying the array, which gave a panic
in the cleanup during unwinding if all dimensions are constant-sized.
---
 src/raw_tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..a741284 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -118,6 +118,9 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
 
+            // Ensure that the shape is valid before modifying the array.
+            let new_shape = S::from_dims(new_dims);
+
             unsafe {
                 self.with_mut_parts(|vec, old_mapping| {
                     old_mapping.shape().with_dims(|old_dims| {
@@ -144,7 +147,7 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
                         }
                     });
 
-                    old_mapping.shape_mut().with_mut_dims(|dims| dims.copy_from_slice(new_dims));
+                    *old_mapping = DenseMapping::new(new_shape);
                 });
             }
         }
-- 
2.43.0


From aa46ad9590a0620da82b6b559d828cbcf6d4a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:58 +0000
Subject: [PATCH 8/9] fix: leak of an element if the zipped expression panics

The last written element was taken to be moved out when the panic came from
the other expression and not from the closure.
---
 src/tensor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..2c7481a 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -431,6 +431,7 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
             index: usize,
+            is_written: bool,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
@@ -438,14 +439,16 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
                 let ptr = self.tensor.as_mut_ptr();
                 let tail = self.tensor.len() - self.index;
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except the current one if it is read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
+                    if self.index > 0 {
+                        let head = if self.is_written { self.index } else { self.index - 1 };
+
+                        ptr::slice_from_raw_parts_mut(ptr, head).drop_in_place();
                     }
 
                     ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
@@ -453,12 +456,14 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0, is_written: true };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
             guard.index += 1;
+            guard.is_written = false;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.is_written = true;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From 676ef3e0d9d3aa245e16d7e8315b3ee32117238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:59 +0000
Subject: [PATCH 9/9] fix: formatting of a finished iterator that moves
 elements

The check for an iterator in use did not hold after the last element, so that
the moved elements could be read.
---
 src/expr/iter.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index cbdc80c..dd53a44 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -66,10 +66,11 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        // Ensure that following calls return false and that no elements remain.
-        self.outer_limit.as_mut().fill(0);
-        self.inner_index = 0;
-        self.inner_limit = 0;
+        // Ensure that following calls return false and that no elements remain,
+        // while the inner index is kept nonzero if any element was given.
+        self.outer_limit.as_mut().fill(1);
+        self.inner_index = self.inner_index.min(1);
+        self.inner_limit = self.inner_index;
 
         false
     }
-- 
2.43.0

