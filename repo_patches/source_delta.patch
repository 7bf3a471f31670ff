From 441632c7b5e6e6660b140b8aa0d672e4619ed24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 01/21] fix: clear the right bits when replacing a letter of a
 tensor key

set_letter cleared bits at `letter` instead of `letter * bits_per_letter`,
so iterating the tensor basis past (3,3) skipped and corrupted words.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..f194704 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), letter * Self::bits_per_letter());
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 9e236b0355f205693042932b1fbd765a65c73dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 02/21] fix: Display for TensorKey recursed into itself until
 the stack overflowed

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index f194704..a2e6ccb 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From 76700ee3bbe56ee964adb557a27d0407f8f201f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 03/21] fix: TensorBasis::compare ignored word length

Words of different length with the same packed data compared Equal, and
short words could compare Greater than longer ones, against index order.
---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..daf9911 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&lhs.size(), &rhs.size()).then_with(|| Ord::cmp(&lhs.data(), &rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From eb335850c7c70b52d5293b2c8d59f241b443a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 04/21] fix: start_of_degree divided by zero for the one-letter
 alphabet

---
 src/free_tensor/tensor_basis/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index daf9911..920187f 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,6 +28,10 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
+        if NLETTERS == 1 {
+            // One word of each degree, the geometric series formula divides by zero.
+            return deg as DimensionType;
+        }
         (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
     }
 
-- 
2.43.0


From 3a52f2ddb5c29069b6193db634b5972de64222f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 05/21] fix: get and get_mut of dereferencing vectors recursed
 into themselves

---
 src/vector/implementation/deref_impl.rs | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..84e1852 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,31 +6,31 @@ use crate::vector::*;
 
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + DerefMut + From<<V as Deref>::Target> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          <V as Deref>::Target: Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <V::Target as Vector<'vec>>::BasisType;
+    type KeyType = <V::Target as Vector<'vec>>::KeyType;
+    type ScalarType = <V::Target as Vector<'vec>>::ScalarType;
+    type RationalType = <V::Target as Vector<'vec>>::RationalType;
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(V::Target::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(V::Target::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(V::Target::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(V::Target::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +46,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From fbbc4d0d4e9ca367f166a08bcccd2358d19212cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 06/21] fix: inserting into a dense vector dropped the value or
 panicked

insert_single did nothing, so keyed updates of keys beyond the current
dimension were lost, and insert was a todo!().
---
 src/vector/implementation/simple_dense_vector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..c76332e 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,11 +241,16 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
-
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
-- 
2.43.0


From 20d6b7ec5322b9e6607cfa0818f6254558fc9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 07/21] fix: sub_scalar_divide added the quotient when the key
 was present

It subtracted -1/val from an existing coefficient.
---
 src/vector/traits/extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..5797791 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -55,11 +55,11 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
         val: impl Into<<Self::ScalarType as CoefficientField>::RationalType>
     ) -> &mut Self
     {
-        let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
+        let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::ONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
             <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
         } else {
-            self.insert_single(key.borrow().clone(), sca);
+            self.insert_single(key.borrow().clone(), <Self::ScalarType as CoefficientField>::uminus(&sca));
         }
         self
     }
-- 
2.43.0


From d5ceaba1b8aafb2b2684e6fd173e7f9e573e32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 08/21] fix: sparse vectors panicked in every operation that
 returns a new vector

to_owned was a todo!(), and add, sub, uminus and the scalar products are
built on it; swap, insert and erase were also todo!().
---
 src/vector/implementation/simple_sparse_vector.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..63d52dc 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -2,6 +2,7 @@
 
 use std::collections::{HashMap, hash_map::{Iter as HashMapIter, IterMut as HashMapIterMut}};
 use std::marker::PhantomData;
+use std::mem;
 use std::iter::IntoIterator;
 
 use crate::basis::{Basis};
@@ -107,12 +108,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -132,11 +133,13 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From 5e07c203986a01fe3cdd125c0d9f4763e2e5601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 09/21] fix: sparse from_iterator dropped all but the last
 value of a repeated key

The dense vector sums repeated keys (and has a test for it); both
implement the same trait method.
---
 src/vector/implementation/simple_sparse_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 63d52dc..8b078f4 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -103,7 +103,10 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            match inner.get_mut(&key) {
+                Some(curr) => { S::add_inplace(curr, &val); },
+                None => { inner.insert(key, val); }
+            }
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From c03df5aee518cdccff7013b3649be4b37d831856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 10/21] fix: mobius recursed forever on composite square-free
 numbers

Every degree range map or Hall set reaching degree 6 overflowed the stack.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From aa3d897bb5768a088c4fb3628d762a940b7f4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 11/21] fix: Hall set sizes were off by one where the
 per-divisor division truncates

Witt's formula divides the whole sum by the level; truncating each term
gives one too many elements, for instance at degree 35 over 2 letters.
---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From 87536097adc96756f4c4d4f95940b169fc0cee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:56 +0000
Subject: [PATCH 12/21] fix: the last key of each degree was given the next
 degree

Hall keys are numbered from 1, so key k has degree d when
size(d-1) < k <= size(d).
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From f6800da7386b5a129af6a8dcafff886bf2d04fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 13/21] fix: in-place tensor products were wrong and accessed
 memory out of bounds

multiply_into_impl wrote each term to the degree of the right factor, took
absolute ranges of a split slice without bounds checks, never cleared or
updated the lower degrees and underflowed when the right factor had the
higher degree. Form the product separately and swap it in.
---
 src/free_tensor/implementation/dense.rs | 109 ++----------------------
 1 file changed, 6 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..a70b5f7 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -322,99 +309,15 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        // Every coefficient of the product depends on several coefficients of self, so it cannot
+        // be formed in the storage of self.
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs, func, to_degree);
+        self.swap(result);
     }
 
 }
-- 
2.43.0


From c92a6b5c11017447ea13cd1cca1f7e49384979e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 14/21] fix: products of empty or partially filled tensors read
 and wrote out of bounds

Dense vectors may have any dimension (new, from, from_dimension), but the
product assumed every operand and the result held complete degrees. The
product of two scalars wrote through a dangling pointer.
---
 src/free_tensor/implementation/dense.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index a70b5f7..d841dfa 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -65,9 +65,11 @@ mod tensor_mul_impl {
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_dim: usize,
         func: &mut impl FnMut(&S) -> S,
     )
     {
+        // rhs holds the leading coefficients of a degree of dimension rhs_dim.
         let mut out_ptr = out.as_mut_ptr();
 
         for lhs_v in lhs {
@@ -75,6 +77,7 @@ mod tensor_mul_impl {
                 S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                 out_ptr = out_ptr.add(1);
             }
+            out_ptr = out_ptr.add(rhs_dim - rhs.len());
         }
     }
 
@@ -269,10 +272,16 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let out_dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < out_dim {
+            self.resize(out_dim);
         }
 
+        // The last degree of an operand need not be complete.
+        let stored = |slice: &[S], deg| {
+            let range = TensorBasis::<NLETTERS>::degree_range(deg);
+            cmp::min(range.start, slice.len())..cmp::min(range.end, slice.len())
+        };
 
         for out_deg in (0..=max_deg).rev() {
             // Notice that out_deg >= rhs_deg, out_deg - rhs_deg >= 0
@@ -294,11 +303,10 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
                             .get_unchecked_mut(
                                 TensorBasis::<NLETTERS>::degree_range(out_deg)),
                         lhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
+                            .get_unchecked(stored(lhs_r.as_slice(), lhs_d)),
                         rhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
+                            .get_unchecked(stored(rhs_r.as_slice(), rhs_d)),
+                        TensorBasis::<NLETTERS>::degree_range(rhs_d).len(),
                         &mut func
                     );
                 }
-- 
2.43.0


From ff673c93731dded0fb43d2a29a04df45fc87fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 15/21] fix: mul_rat_rdiv multiplied by the rational instead of
 dividing

exp and fmexp scaled the terms of their series by i instead of 1/i.
---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From f2d4821e1a364f230abe4a479de78bdf4fbb6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 16/21] fix: exp, fmexp and log left out the term of the
 highest degree

---
 src/free_tensor/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..09b9798 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,7 +67,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
-- 
2.43.0


From fc95b1ccd7ba447eb8c7b9de061e78c71576aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 17/21] fix: log discarded its products

multiply returns a new tensor, which was dropped, so log only ever
returned a multiple of the unit.
---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 09b9798..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -73,7 +73,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 41ad8d5af6fef4aac733b96b45846b8930e6f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 18/21] verification hooks, guarded by --cfg verif_hooks

---
 src/free_tensor/tensor_basis/tensor_key.rs       |  8 ++++++++
 src/lib.rs                                       |  1 +
 src/lie/lie_basis/hall_key.rs                    | 11 ++++++++++-
 src/lie/lie_basis/mod.rs                         |  7 +++++++
 src/lie/mod.rs                                   |  5 ++++-
 src/vector/implementation/simple_dense_vector.rs | 15 +++++++++++++++
 6 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index a2e6ccb..1c5875d 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -219,6 +219,14 @@ impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
 }
 
 
+#[cfg(verif_hooks = "key_iter")]
+impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
+    pub fn verif_new(key: &'a TensorKey<NLETTERS>) -> Self
+    {
+        Self::new(key)
+    }
+}
+
 impl<'a, const NLETTERS: DegreeType> Iterator for TensorKeyIterator<'a, NLETTERS> {
     type Item = LetterType;
 
diff --git a/src/lib.rs b/src/lib.rs
index 6ab78eb..ae35000 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // the guards of the verification hooks, --cfg verif_hooks="..."
 
 
 pub type DegreeType = u32;
diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..7b53d7c 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -116,4 +116,13 @@ impl<const NLETTERS: DegreeType> Display for HallKey<NLETTERS> {
             write!(f, "[{}, {}]", self.get_lparent(), self.get_rparent())
         }
     }
-}
\ No newline at end of file
+}
+
+
+#[cfg(verif_hooks = "hall_key")]
+impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
+    pub const fn verif_from_parts(key: DataType, lparent: DataType, rparent: DataType, size: DegreeType) -> Self
+    {
+        Self(Self::make_key_data(key, lparent, rparent, size))
+    }
+}
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..00d275a 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,10 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+#[cfg(verif_hooks = "lie")]
+pub mod verif {
+    pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetError};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..85f6b5a 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(verif_hooks = "lie")]
+pub use lie_basis::verif;
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index c76332e..173d2af 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -100,6 +100,21 @@ impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 }
 
 
+#[cfg(verif_hooks = "borrowed")]
+impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
+
+    pub fn verif_borrowed(data: &'a [S]) -> Self
+    {
+        SimpleDenseVector(Borrowed(data), PhantomData)
+    }
+
+    pub fn verif_borrowed_mut(data: &'a mut [S]) -> Self
+    {
+        SimpleDenseVector(BorrowedMut(data), PhantomData)
+    }
+}
+
+
 impl<'a, B: OrderedBasisWithDegree, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 
     fn from_degree(deg: DegreeType) -> Self
-- 
2.43.0


From d72fa2a45a781d92d9602631f12c33fc25cfa6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:40 +0000
Subject: [PATCH 19/21] Hook: Hall set outside the cache (cfg verif_hooks =
 "hall_set")

---
 src/lie/lie_basis/hall_set.rs | 19 +++++++++++++++++++
 src/lie/lie_basis/mod.rs      |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..2dff754 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -273,6 +273,25 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
 
 
+#[cfg(verif_hooks = "hall_set")]
+pub mod verif_hall_set {
+    use super::*;
+
+    /// A Hall set as get_hall_set makes it, outside the cache.
+    pub fn bare<const NLETTERS: DegreeType>(degree: DegreeType) -> impl HallSet + Send + Sync
+    {
+        let mut inner = HallSetInner::<NLETTERS>::new();
+        inner.grow_up(degree);
+        inner
+    }
+
+    pub fn shared<const NLETTERS: DegreeType>(degree: DegreeType) -> HallSetObject
+    {
+        HallSetObject::new(bare::<NLETTERS>(degree))
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index 00d275a..ec30c94 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -17,4 +17,6 @@ pub mod verif {
     pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
     pub use super::hall_key::HallKey;
     pub use super::hall_set::{get_hall_set, HallSet, HallSetError};
+    #[cfg(verif_hooks = "hall_set")]
+    pub use super::hall_set::verif_hall_set;
 }
-- 
2.43.0


From 0a479bd92086b25f28cdd5e439dc313e26f13ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:43 +0000
Subject: [PATCH 20/21] fix: the first request for a Hall set waited for a lock
 it held itself

---
 src/lie/lie_basis/hall_set.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 2dff754..24b3fab 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The guard must be released before the cache is written to.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
-- 
2.43.0


From 3284a94afd579ff80e590943ea326585e47894f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:44 +0000
Subject: [PATCH 21/21] fix: concurrent first requests for a Hall set got
 different sets

---
 src/lie/lie_basis/hall_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 24b3fab..6e8e60e 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -268,8 +268,8 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            // Another thread may have been first.
+            .entry(NLETTERS).or_insert(new_hs).clone()
     }
 
 }
-- 
2.43.0

