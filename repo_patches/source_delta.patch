From 329dcc1355d5d63dfe16c917e542fe295e41d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/15] fix: multicubic interpn returns an error instead of
 panicking on mismatched dimensions

---
 src/multicubic/rectilinear.rs | 3 +++
 src/multicubic/regular.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..2faeaa7 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..2c9babf 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From 77195d250ba0ca213479cc2217b015a4c5335f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 02/15] fix: multicubic regular grid index no longer overflows
 for points at the lower integer limit

---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 2c9babf..f8a83c3 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -438,7 +438,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..018eccd 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -389,7 +389,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From c49727adb568566c0071129b3dda946adf4fae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/15] fix: grid sizes whose product overflows are a dimension
 mismatch instead of a panic

---
 src/multicubic/rectilinear.rs            | 5 ++++-
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular.rs                | 5 ++++-
 src/multicubic/regular_recursive.rs      | 5 ++++-
 src/multilinear/rectilinear.rs           | 5 ++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular.rs               | 5 ++++-
 src/multilinear/regular_recursive.rs     | 5 ++++-
 src/nearest/rectilinear.rs               | 5 ++++-
 src/nearest/regular.rs                   | 5 ++++-
 10 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 2faeaa7..399fa0d 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -207,7 +207,10 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..5043c7c 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -175,7 +175,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         let ndims = grids.len();
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index f8a83c3..de3b55b 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -253,7 +253,10 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 018eccd..d70f35e 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..121c9f3 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,10 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..1314d8d 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -162,7 +162,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         let ndims = grids.len();
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..d36dd09 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -235,7 +235,10 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..7fda6ab 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -196,7 +196,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..0865715 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,10 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..1eee4d0 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,10 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From c55886d3b1fb1cdc11989f8434f5e4ab67889970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 04/15] fix: recursive interpolators refuse more dimensions
 than their maximum instead of panicking

---
 src/multicubic/rectilinear_recursive.rs  | 3 +++
 src/multicubic/regular_recursive.rs      | 7 ++++++-
 src/multilinear/rectilinear_recursive.rs | 3 +++
 src/multilinear/regular_recursive.rs     | 7 ++++++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 5043c7c..1e19751 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,6 +173,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals = dims[..ndims]
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index d70f35e..46397e6 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -246,7 +246,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
             .iter()
             .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
             .ok_or("Dimension mismatch")?;
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
 
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index 1314d8d..0b6c66d 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,6 +160,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals = dims[..ndims]
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 7fda6ab..59d4e2b 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -200,7 +200,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
             .iter()
             .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
             .ok_or("Dimension mismatch")?;
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
         // Make sure all dimensions have at least four entries
-- 
2.43.0


From 8cbc95e8d230d1ca661ba2520112737e1897e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/15] fix: interpn_alloc without observation columns returns
 an error instead of panicking

---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 399fa0d..5104198 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -117,7 +117,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 1e19751..949ed45 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index de3b55b..82f3411 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -151,7 +151,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 46397e6..dd1397a 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 121c9f3..779d1c1 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index 0b6c66d..d095255 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index d36dd09..f0c6104 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 59d4e2b..3b549bc 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 0865715..8e10487 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index 1eee4d0..54bd3b4 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From 093b80ddc1c2ca7d821acf892d60491738d02827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 06/15] fix: regular grid check_bounds returns an error instead
 of panicking on missing or empty dimensions

---
 src/multilinear/regular.rs           | 7 ++++++-
 src/multilinear/regular_recursive.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index f0c6104..adbc239 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,7 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(starts.len() == n
+        && steps.len() == n
+        && obs.len() == n
+        && out.len() == n
+        && dims.iter().all(|&x| x > 0))
+    {
         return Err("Dimension mismatch");
     }
 
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 3b549bc..f8ac529 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,7 +114,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(starts.len() == ndims
+        && steps.len() == ndims
+        && obs.len() == ndims
+        && out.len() == ndims
+        && dims.iter().all(|&x| x > 0))
+    {
         return Err("Dimension mismatch");
     }
 
-- 
2.43.0


From 0a736bf5fcfcee3b178e27c0f0e87cf8588fb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 07/15] fix: one-dimensional regular grid refuses fewer than
 two values instead of panicking

---
 src/one_dim/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..a57ad4b 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,10 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Length mismatch");
+        }
+
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
-- 
2.43.0


From 21c0a25ff14c6649ce5e5bfaa2b47c9217dfb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 08/15] fix: python bindings refuse more than 8 arrays with an
 error instead of a panic

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..f62acab 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Dimension exceeds maximum (8).",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 2efe3604153b3a5f8b1759b54dd28b44aba80117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 09/15] fix: python bindings raise an ordinary error for a
 read-only or overlapping output array

---
 src/python.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index f62acab..9ae7a16 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,4 +1,5 @@
-use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::borrow::PyReadonlyArray1;
+use numpy::{PyArray1, PyArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -66,8 +67,9 @@ macro_rules! interpn_linear_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -98,8 +100,9 @@ macro_rules! check_bounds_regular_impl {
             steps: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -128,8 +131,9 @@ macro_rules! interpn_linear_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
@@ -160,8 +164,9 @@ macro_rules! interpn_nearest_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             match nearest::regular::interpn(
@@ -189,8 +194,9 @@ macro_rules! interpn_nearest_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -212,8 +218,9 @@ macro_rules! check_bounds_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
@@ -240,8 +247,9 @@ macro_rules! interpn_cubic_regular_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -272,8 +280,9 @@ macro_rules! interpn_cubic_rectilinear_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
-- 
2.43.0


From 1557928f6c20447327668fef6ab9764e1e1f7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 10/15] fix: regular grid classes check the data type of the
 grid starts as well

---
 src/interpn/multicubic_regular.py  | 5 ++++-
 src/interpn/multilinear_regular.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interpn/multicubic_regular.py b/src/interpn/multicubic_regular.py
index 3e4ed67..3262f11 100644
--- a/src/interpn/multicubic_regular.py
+++ b/src/interpn/multicubic_regular.py
@@ -107,7 +107,10 @@ class MulticubicRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
diff --git a/src/interpn/multilinear_regular.py b/src/interpn/multilinear_regular.py
index 9fecf4a..266044e 100644
--- a/src/interpn/multilinear_regular.py
+++ b/src/interpn/multilinear_regular.py
@@ -87,7 +87,10 @@ class MultilinearRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
-- 
2.43.0


From 3c965a1506dedd428433342e40fe05ffcf40fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 11/15] fix: front-end bounds check uses one flag per grid
 dimension

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..07114e2 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -113,7 +113,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0


From 0123e45b6a30c94e50f2151f720798fa6ac489a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 12/15] fix: front-end function writes into the supplied output
 array

---
 src/interpn/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 07114e2..4c3060b 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,9 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    result = out if out is not None else np.zeros_like(obs[0])
+    outshape = result.shape
+    out = result.ravel()  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
     obs = [np.ascontiguousarray(x.ravel()) for x in obs]
@@ -191,6 +191,10 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
+    # Write back to the supplied output if the flat array had to be reallocated
+    if not np.may_share_memory(out, result):
+        result[...] = out.reshape(outshape)
+
     return out.reshape(outshape)
 
 
-- 
2.43.0


From 8c4f626d9d44a47907470cd2b211d78475aae2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:01 +0000
Subject: [PATCH 13/15] fix: python bindings refuse an output sharing memory
 with an input that is not a view of the same array

---
 src/python.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index 9ae7a16..d4b5f53 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,5 +1,5 @@
-use numpy::borrow::PyReadonlyArray1;
-use numpy::{PyArray1, PyArrayMethods};
+use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::{Element, PyArray1, PyArrayMethods, PyUntypedArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -39,6 +39,29 @@ fn interpn<'py>(_py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+/// Refuse an output that shares memory with any of the inputs.
+///
+/// The borrow checks in the `numpy` crate do this for views of the same base array, but can not
+/// see that arrays share memory that belongs to another object (a buffer, a memory view, the
+/// result of `as_strided`, etc).
+fn check_disjoint<T, U: Element>(out: &PyReadwriteArray1<'_, U>, inputs: &[&[T]]) -> PyResult<()> {
+    let start = out.data() as usize;
+    let end = start + out.len() * size_of::<U>();
+    for x in inputs {
+        let range = x.as_ptr_range();
+        if start < end
+            && !x.is_empty()
+            && start < range.end as usize
+            && (range.start as usize) < end
+        {
+            return Err(exceptions::PyTypeError::new_err(
+                "The output array shares memory with an input array",
+            ));
+        }
+    }
+    Ok(())
+}
+
 macro_rules! unpack_vec_of_arr {
     ($inname:ident, $outname:ident, $T:ty) => {
         // We need a mutable slice-of-slice,
@@ -71,6 +94,11 @@ macro_rules! interpn_linear_regular_impl {
         ) -> PyResult<()> {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(
+                &out,
+                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+            )?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::regular::interpn(
@@ -104,6 +132,8 @@ macro_rules! check_bounds_regular_impl {
         ) -> PyResult<()> {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(&out, &[starts.as_slice()?, steps.as_slice()?])?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::regular::check_bounds(
@@ -137,6 +167,9 @@ macro_rules! interpn_linear_rectilinear_impl {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, grids)?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::rectilinear::interpn(
@@ -168,6 +201,11 @@ macro_rules! interpn_nearest_regular_impl {
         ) -> PyResult<()> {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(
+                &out,
+                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+            )?;
+            check_disjoint(&out, obs)?;
 
             match nearest::regular::interpn(
                 &dims,
@@ -199,6 +237,9 @@ macro_rules! interpn_nearest_rectilinear_impl {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, grids)?;
+            check_disjoint(&out, obs)?;
 
             match nearest::rectilinear::interpn(grids, vals.as_slice()?, obs, out.as_slice_mut()?) {
                 Ok(()) => Ok(()),
@@ -224,6 +265,8 @@ macro_rules! check_bounds_rectilinear_impl {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(&out, grids)?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::rectilinear::check_bounds(&grids, obs, atol, out.as_slice_mut()?) {
@@ -251,6 +294,11 @@ macro_rules! interpn_cubic_regular_impl {
         ) -> PyResult<()> {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(
+                &out,
+                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+            )?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multicubic::regular::interpn(
@@ -286,6 +334,9 @@ macro_rules! interpn_cubic_rectilinear_impl {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, grids)?;
+            check_disjoint(&out, obs)?;
 
             // Evaluate
             match multicubic::rectilinear::interpn(
-- 
2.43.0


From 8262769659f4f835059b1affacc06a7406f91f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 14/15] fix: python bindings load the NumPy C API at import,
 not inside the first call

---
 src/python.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python.rs b/src/python.rs
index d4b5f53..344461e 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -13,7 +13,11 @@ const MAXDIMS: usize = 8;
 /// Python bindings for select functions from `interpn`.
 #[pymodule]
 #[pyo3(name = "interpn")]
-fn interpn<'py>(_py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
+fn interpn<'py>(py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
+    // The NumPy C API and the borrow checks are loaded on first use, which imports python modules
+    // and panics if that is interrupted. Use them here instead of in the middle of the first call.
+    drop(PyArray1::<f64>::zeros(py, 0, false).try_readwrite()?);
+
     // Multilinear regular grid
     m.add_function(wrap_pyfunction!(interpn_linear_regular_f64, m)?)?;
     m.add_function(wrap_pyfunction!(interpn_linear_regular_f32, m)?)?;
-- 
2.43.0


From 4b39c44ae61799e7eddea66b21442ac39fbc4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:54 +0000
Subject: [PATCH 15/15] fix: python bindings refuse unaligned arrays instead of
 undefined behaviour

---
 src/interpn/__init__.py | 13 +++++--
 src/python.rs           | 86 +++++++++++++++++++++++++++--------------
 2 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 4c3060b..e9a878e 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -85,12 +85,12 @@ def interpn(
     # Allocate for the output if it is not supplied
     result = out if out is not None else np.zeros_like(obs[0])
     outshape = result.shape
-    out = result.ravel()  # Flat view, reallocating only if not contiguous
+    out = _flat(result)  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
-    obs = [np.ascontiguousarray(x.ravel()) for x in obs]
-    grids = [np.ascontiguousarray(x.ravel()) for x in grids]
-    vals = np.ascontiguousarray(vals.ravel())
+    obs = [_flat(x) for x in obs]
+    grids = [_flat(x) for x in grids]
+    vals = _flat(vals)
 
     # Check data type
     dtype = vals.dtype
@@ -198,6 +198,11 @@ def interpn(
     return out.reshape(outshape)
 
 
+def _flat(x: NDArray) -> NDArray:
+    """Flatten, reallocating if and only if not contiguous and aligned yet"""
+    return np.require(x.ravel(), requirements=["C_CONTIGUOUS", "ALIGNED"])
+
+
 def _check_regular(grids: Sequence[NDArray]) -> bool:
     """Check if grids are all regularly spaced"""
     is_regular = True
diff --git a/src/python.rs b/src/python.rs
index 344461e..99534dd 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -43,6 +43,28 @@ fn interpn<'py>(py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+/// Borrow the contents of an array, which must be contiguous and aligned.
+fn as_slice<'a, T: Element>(x: &'a PyReadonlyArray1<'_, T>) -> PyResult<&'a [T]> {
+    check_aligned(x.data())?;
+    Ok(x.as_slice()?)
+}
+
+/// Borrow the contents of an output array, which must be contiguous and aligned.
+fn as_slice_mut<'a, T: Element>(x: &'a mut PyReadwriteArray1<'_, T>) -> PyResult<&'a mut [T]> {
+    check_aligned(x.data())?;
+    Ok(x.as_slice_mut()?)
+}
+
+/// The `numpy` crate does not check this, although slices require it.
+fn check_aligned<T>(data: *const T) -> PyResult<()> {
+    match data.is_aligned() {
+        true => Ok(()),
+        false => Err(exceptions::PyTypeError::new_err(
+            "The given array is not aligned",
+        )),
+    }
+}
+
 /// Refuse an output that shares memory with any of the inputs.
 ///
 /// The borrow checks in the `numpy` crate do this for views of the same base array, but can not
@@ -79,7 +101,7 @@ macro_rules! unpack_vec_of_arr {
             ));
         }
         for i in 0..n {
-            _arr[i] = $inname[i].as_slice()?;
+            _arr[i] = as_slice(&$inname[i])?;
         }
         let $outname = &_arr[..n];
     };
@@ -100,18 +122,18 @@ macro_rules! interpn_linear_regular_impl {
             unpack_vec_of_arr!(obs, obs, $T);
             check_disjoint(
                 &out,
-                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+                &[as_slice(&starts)?, as_slice(&steps)?, as_slice(&vals)?],
             )?;
             check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                as_slice(&starts)?,
+                as_slice(&steps)?,
+                as_slice(&vals)?,
                 obs,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -136,17 +158,17 @@ macro_rules! check_bounds_regular_impl {
         ) -> PyResult<()> {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
-            check_disjoint(&out, &[starts.as_slice()?, steps.as_slice()?])?;
+            check_disjoint(&out, &[as_slice(&starts)?, as_slice(&steps)?])?;
             check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::regular::check_bounds(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
+                as_slice(&starts)?,
+                as_slice(&steps)?,
                 obs,
                 atol,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -171,16 +193,16 @@ macro_rules! interpn_linear_rectilinear_impl {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
-            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, &[as_slice(&vals)?])?;
             check_disjoint(&out, grids)?;
             check_disjoint(&out, obs)?;
 
             // Evaluate
             match multilinear::rectilinear::interpn(
                 grids,
-                vals.as_slice()?,
+                as_slice(&vals)?,
                 obs,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -207,17 +229,17 @@ macro_rules! interpn_nearest_regular_impl {
             unpack_vec_of_arr!(obs, obs, $T);
             check_disjoint(
                 &out,
-                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+                &[as_slice(&starts)?, as_slice(&steps)?, as_slice(&vals)?],
             )?;
             check_disjoint(&out, obs)?;
 
             match nearest::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                as_slice(&starts)?,
+                as_slice(&steps)?,
+                as_slice(&vals)?,
                 obs,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -241,11 +263,16 @@ macro_rules! interpn_nearest_rectilinear_impl {
             let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
-            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, &[as_slice(&vals)?])?;
             check_disjoint(&out, grids)?;
             check_disjoint(&out, obs)?;
 
-            match nearest::rectilinear::interpn(grids, vals.as_slice()?, obs, out.as_slice_mut()?) {
+            match nearest::rectilinear::interpn(
+                grids,
+                as_slice(&vals)?,
+                obs,
+                as_slice_mut(&mut out)?,
+            ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
             }
@@ -273,7 +300,8 @@ macro_rules! check_bounds_rectilinear_impl {
             check_disjoint(&out, obs)?;
 
             // Evaluate
-            match multilinear::rectilinear::check_bounds(&grids, obs, atol, out.as_slice_mut()?) {
+            match multilinear::rectilinear::check_bounds(&grids, obs, atol, as_slice_mut(&mut out)?)
+            {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
             }
@@ -300,19 +328,19 @@ macro_rules! interpn_cubic_regular_impl {
             unpack_vec_of_arr!(obs, obs, $T);
             check_disjoint(
                 &out,
-                &[starts.as_slice()?, steps.as_slice()?, vals.as_slice()?],
+                &[as_slice(&starts)?, as_slice(&steps)?, as_slice(&vals)?],
             )?;
             check_disjoint(&out, obs)?;
 
             // Evaluate
             match multicubic::regular::interpn(
                 &dims,
-                starts.as_slice()?,
-                steps.as_slice()?,
-                vals.as_slice()?,
+                as_slice(&starts)?,
+                as_slice(&steps)?,
+                as_slice(&vals)?,
                 linearize_extrapolation,
                 obs,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
@@ -338,17 +366,17 @@ macro_rules! interpn_cubic_rectilinear_impl {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
-            check_disjoint(&out, &[vals.as_slice()?])?;
+            check_disjoint(&out, &[as_slice(&vals)?])?;
             check_disjoint(&out, grids)?;
             check_disjoint(&out, obs)?;
 
             // Evaluate
             match multicubic::rectilinear::interpn(
                 grids,
-                vals.as_slice()?,
+                as_slice(&vals)?,
                 linearize_extrapolation,
                 obs,
-                out.as_slice_mut()?,
+                as_slice_mut(&mut out)?,
             ) {
                 Ok(()) => Ok(()),
                 Err(msg) => Err(exceptions::PyAssertionError::new_err(msg)),
-- 
2.43.0

