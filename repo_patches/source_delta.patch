From 145fd49013d7e1781efd3fb449946988042ebc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 1/8] fix: get_row_copy reads the requested row

The index of the row's last element is (row + 1) * cols - 1; the code used
(row + 1) * (cols - 1), which is right for row 0 only.
---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..4f9b09d 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = (row + 1) * self.cols() - 1;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From 92eceb4a4e02f11c3770dd6cc08ed2d7ce2ab748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 2/8] fix: select exactly one scalar back-end when libm and
 micromath are both enabled

With both features and without std no implementation was selected, so the
crate did not compile.
---
 crates/minikalman/src/matrix/data_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/minikalman/src/matrix/data_type.rs b/crates/minikalman/src/matrix/data_type.rs
index db57526..3298e56 100644
--- a/crates/minikalman/src/matrix/data_type.rs
+++ b/crates/minikalman/src/matrix/data_type.rs
@@ -57,7 +57,7 @@ impl MatrixDataType for f32 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -73,7 +73,7 @@ impl MatrixDataType for f32 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrtf(self)
         }
@@ -92,7 +92,7 @@ impl MatrixDataType for f64 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -108,7 +108,7 @@ impl MatrixDataType for f64 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrt(self)
         }
-- 
2.43.0


From 83c4be847966aa5a4b1d53ba4e7deb7598257822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 3/8] fix: build nalgebra support with the unsafe feature but
 without std

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..a26beb2 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -66,7 +66,7 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     unsafe fn as_slice_unchecked(&self) -> &[T] {
-        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
+        core::slice::from_raw_parts(self.ptr(), ROWS * COLS)
     }
 }
 
-- 
2.43.0


From 97532bd78c30ac18b5cfc49b46c12cd3b6a15b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 4/8] fix: set_all, clear and set_zero leave storage beyond the
 matrix alone

Storage may be larger than the matrix; only its rows * cols elements belong
to it.
---
 crates/minikalman/src/matrix/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 4f9b09d..f9a1a3b 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -992,7 +992,8 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
-        self.as_mut_slice().fill(value);
+        let count = self.rows() * self.cols();
+        self.as_mut_slice()[..count].fill(value);
     }
 
     /// Sets all elements of the matrix to the provided value.
-- 
2.43.0


From 2c018a2969bb5969d8eb81518639f109c3dab605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 5/8] fix: copying an empty matrix does not underflow

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index f9a1a3b..e2ad095 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -151,7 +151,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let adata = self.as_slice();
         let bdata = target.as_mut_slice();
 
-        for index in (0..=(count - 1)).rev() {
+        for index in (0..count).rev() {
             bdata[idx!(index)] = adata[idx![index]];
         }
     }
-- 
2.43.0


From 97e98b04bc925b6356d687b9660eb178ded05a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 6/8] fix: ignore a measurement whose innovation covariance is
 not positive definite

The result of the Cholesky decomposition was not looked at, so that such a
measurement filled the estimate with undefined values or divided by zero.
---
 crates/minikalman/src/observations/extended.rs | 5 ++++-
 crates/minikalman/src/observations/regular.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/minikalman/src/observations/extended.rs b/crates/minikalman/src/observations/extended.rs
index 805e56e..b3a19da 100644
--- a/crates/minikalman/src/observations/extended.rs
+++ b/crates/minikalman/src/observations/extended.rs
@@ -408,7 +408,10 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        if !S.cholesky_decompose_lower() {
+            // S is not positive definite: there is no gain to apply.
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
diff --git a/crates/minikalman/src/observations/regular.rs b/crates/minikalman/src/observations/regular.rs
index 1f20d82..26224af 100644
--- a/crates/minikalman/src/observations/regular.rs
+++ b/crates/minikalman/src/observations/regular.rs
@@ -396,7 +396,10 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        if !S.cholesky_decompose_lower() {
+            // S is not positive definite: there is no gain to apply.
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
-- 
2.43.0


From 17645fe5c74738def2a7392565298ad43c684f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 7/8] fix: viewing too short an array through nalgebra read
 beyond its end

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index a26beb2..31d77da 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -46,6 +46,11 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     fn ptr(&self) -> *const T {
+        // nalgebra accesses every element of the shape without further checks.
+        assert!(
+            ROWS * COLS <= TOTAL,
+            "The array is too short for the matrix"
+        );
         self.as_slice().as_ptr()
     }
 
-- 
2.43.0


From 02b684402071b5b8cfa57088bdf5e5d259a34f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:05 +0000
Subject: [PATCH 8/8] fix: copy_from copies from read-only matrices, too

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index e2ad095..26f6446 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -165,7 +165,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
     fn copy_from<Source>(&mut self, source: &Source)
     where
         Self: MatrixMut<ROWS, COLS, T> + Sized,
-        Source: MatrixMut<ROWS, COLS, T>,
+        Source: Matrix<ROWS, COLS, T>,
         T: Copy,
     {
         source.copy_to(self)
-- 
2.43.0

