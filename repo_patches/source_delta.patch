From 2a7e4a90e6d99c11e23782a984977d083cae135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 01/14] fix: IntoIter::nth must not skip past the remaining
 elements

Skipping more elements than are left dropped elements that were already
handed out (or memory past the array) and left the cursors crossed.
---
 src/vector.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..d352a78 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,10 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..cmp::min(n, self.len()) {
+            self.next();
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From b5b3f898abc068a9a8c3100b7dd2f1a33739ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 02/14] fix: IntoIter::next_back must stop at the front cursor

Elements already returned by next() were returned (and dropped) again
when the iterator was then consumed from the back.
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index d352a78..e6cd73e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -797,7 +797,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From b204a9e75fe4e37d7af9e1ae0e0c729e88a2dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 03/14] fix: RowsIter/ColsIter lengths must account for items
 taken from the back

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From c5e98224185e77d5e089dac2edb7a31c30bb452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 04/14] fix: nth on row and column iterators must not skip past
 the back

---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..ead21d2 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
-- 
2.43.0


From c5fc20205a66da2510b0d035128c1623ab8e3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 05/14] fix: Inverse picks a non-zero pivot row for 4x4 and
 larger matrices

The Gauss-Jordan elimination returned None whenever a diagonal entry
became zero, although the matrix is invertible.
---
 src/matrix/ops.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..e2a8f15 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,15 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
-                }
-                T::one() / d
+            // bring a row with a non-zero pivot into place
+            let pivot = match (i..n).find(|&j| !mat[(j, i)].is_zero()) {
+                Some(j) => j,
+                None => return None,
             };
+            mat.0.as_slice_mut().swap(i, pivot);
+            inv.0.as_slice_mut().swap(i, pivot);
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From 345af0d5773d6de540ae661b79f8ac19ecf4add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 06/14] fix: Vector and Matrix are Eq only when their elements
 are

Eq promises a reflexive equality, which PartialEq elements such as floats
do not have.
---
 src/matrix/mod.rs | 2 +-
 src/vector.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..26e86da 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
diff --git a/src/vector.rs b/src/vector.rs
index e6cd73e..4281eef 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -208,7 +208,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0


From 214edd7f030be8f79bcfb2cfaef70b1703a9d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 07/14] fix: Debug of a matrix with zero rows must not panic

The index of the last row was computed as len() - 1.
---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index 26e86da..d5a57a1 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 32c38d6e5f29bb5628dfd170069985d36b8b7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 08/14] fix: collecting too many items must not leak the items
 already stored

The debug assertion ran while the array was still inside NoDrop.
---
 src/vector.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 4281eef..ac1a43d 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -715,15 +715,16 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 ptr::write(arr.as_mut().get_unchecked_mut(i), item);
             }
 
-            // making this `assert_eq` slows down matrix multiplication by 7x in release build!
-            debug_assert_eq!(it.count(), 0,
-                             "Vector<_, U{0}> can only be created with exactly {0} elements.",
-                             N::to_usize());
-
             arr.into_inner()
         };
+        let vec = Vector::new(arr);
+
+        // making this `assert_eq` slows down matrix multiplication by 7x in release build!
+        debug_assert_eq!(it.count(), 0,
+                         "Vector<_, U{0}> can only be created with exactly {0} elements.",
+                         N::to_usize());
 
-        Vector::new(arr)
+        vec
     }
 }
 
-- 
2.43.0


From c3da77698a0869279eb842bb95c5a2da07ef29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 09/14] fix: collecting too few items must not drop items twice
 when a drop panics

---
 src/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index ac1a43d..70ed236 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -702,11 +702,10 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
+                        // `arr` stays inside `NoDrop`, in case dropping an item panics
                         for j in 0..i {
                             ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
                         }
-                        mem::forget(arr);
 
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
-- 
2.43.0


From 444031905d8a58d1acc88757c6fcf1ff208640c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 10/14] fix: Vector of length zero must not accept the
 compile-time index U0

---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 70ed236..d38a7fb 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From ebf91d4eb7265498d6e0b77073ee4717cbf243fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 11/14] fix: ColsIterRefInner::new must reject a column out of
 range in every build

---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index ead21d2..74c6723 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From 7950918979f1fb5d5255828363c92b9a435308a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 12/14] fix: Matrix2f64 must hold f64 elements

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From e4e79a884ce30ef4f1403e548c4b5425d75bc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 13/14] fix: collecting must not create an uninitialised array
 value

---
 src/vector.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index d38a7fb..535bd83 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -701,26 +701,26 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
         let mut it = iter.into_iter();
 
         let arr = unsafe {
-            // NOTE: somehow `NoDrop` drops performance - it should be optimized out
-            let mut arr = NoDrop::new(mem::uninitialized::<N::Array>());
+            // an `N::Array` must not exist before all of its elements do
+            let mut arr = mem::MaybeUninit::<N::Array>::uninit();
 
             for i in 0..N::to_usize() {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        // `arr` stays inside `NoDrop`, in case dropping an item panics
+                        // `arr` stays inside `MaybeUninit`, in case dropping an item panics
                         for j in 0..i {
-                            ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
+                            ptr::drop_in_place((*arr.as_mut_ptr()).as_mut().get_unchecked_mut(j));
                         }
 
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
                     }
                 };
-                ptr::write(arr.as_mut().get_unchecked_mut(i), item);
+                ptr::write((*arr.as_mut_ptr()).as_mut().get_unchecked_mut(i), item);
             }
 
-            arr.into_inner()
+            arr.assume_init()
         };
         let vec = Vector::new(arr);
 
-- 
2.43.0


From dc512592a04dff7be2ef17082432cd9afadd724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 14/14] fix: without unicode_width, Display measures text in
 characters, not bytes

---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index d5a57a1..be77655 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -341,7 +341,7 @@ impl<T, Row, Col> Display for Matrix<T, Row, Col>
         }
         #[cfg(not(feature = "unicode_width"))]
         fn str_len(s: &str) -> usize {
-            s.len()
+            s.chars().count()
         }
 
         let mut ws = Vector::<usize, Col>::default();
-- 
2.43.0

