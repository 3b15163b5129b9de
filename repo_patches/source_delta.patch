From 2e9a7a6633671a54d8645361fb6d01f3db753199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 01/18] fix: report shallow bias cuts as no-effect instead of
 cutting off feasible points

---
 src/ell_calc.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..fa22b6f 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -762,9 +762,16 @@ impl EllCalc {
             return self.calc_bias_cut(beta0, tsq);
         }
 
+        let b0b1 = beta0 * beta1;
+        let eta = tsq + self.n_f * b0b1;
+        if eta < 0.0 {
+            return (CutStatus::NoEffect, (0.0, 0.0, 1.0)); // too shallow to shrink
+        }
+
         (
             CutStatus::Success,
-            self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
+            self.helper
+                .calc_parallel_bias_cut_fast(beta0, beta1, tsq, b0b1, eta),
         )
     }
 
@@ -868,12 +875,20 @@ impl EllCalc {
     /// assert_approx_eq!(delta, 0.8);
     /// ```
     pub fn calc_bias_cut(&self, beta: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
-        if tsq < beta * beta {
+        if beta > 0.0 && tsq < beta * beta {
             return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
         }
 
         let tau = tsq.sqrt();
-        (CutStatus::Success, self.helper.calc_bias_cut(beta, tau))
+        let eta = tau + self.n_f * beta;
+        if eta < 0.0 {
+            return (CutStatus::NoEffect, (0.0, 0.0, 1.0)); // too shallow to shrink
+        }
+
+        (
+            CutStatus::Success,
+            self.helper.calc_bias_cut_fast(beta, tau, eta),
+        )
     }
 
     /// Discrete Deep Cut
-- 
2.43.0


From 6cb1233b9debb6edfa938ff1250c36c9d6799d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 02/18] fix: report a parallel cut whose strip misses the
 ellipsoid as no solution

---
 src/ell_calc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index fa22b6f..e61caa9 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -761,6 +761,9 @@ impl EllCalc {
         if (beta1 > 0.0 && tsq <= beta1 * beta1) || !self.use_parallel_cut {
             return self.calc_bias_cut(beta0, tsq);
         }
+        if beta1 < 0.0 && tsq < beta1 * beta1 {
+            return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // strip misses the ellipsoid
+        }
 
         let b0b1 = beta0 * beta1;
         let eta = tsq + self.n_f * b0b1;
@@ -804,6 +807,9 @@ impl EllCalc {
         if (beta1 > 0.0) && beta1 * beta1 >= tsq || !self.use_parallel_cut {
             return self.calc_bias_cut_q(beta0, tsq);
         }
+        if beta1 < 0.0 && tsq < beta1 * beta1 {
+            return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // strip misses the ellipsoid
+        }
 
         let b0b1 = beta0 * beta1;
         let eta = tsq + self.n_f * b0b1;
-- 
2.43.0


From 65757ce8e61113819a1863e5a2091ab965c6d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 03/18] fix: handle one-dimensional ellipsoids in the cut
 formulas

---
 src/ell_calc.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index e61caa9..bcdc5c1 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -77,6 +77,13 @@ impl EllCalcCore {
         }
     }
 
+    /// One-dimensional case: the smallest "ellipsoid" is the interval that remains between
+    /// the two cuts (the general formulas divide by n^2 - 1)
+    const fn calc_interval(beta0: f64, beta1: f64, tau: f64) -> (f64, f64, f64) {
+        let width = (beta1 - beta0) / (2.0 * tau);
+        ((beta0 + beta1) / 2.0, 0.5, 2.0 * width * width)
+    }
+
     #[doc = svgbobdoc::transform!(
     /// The function calculates the core values for updating an ellipsoid with either a parallel-cut or
     /// a deep-cut.
@@ -223,6 +230,10 @@ impl EllCalcCore {
         b0b1: f64,
         eta: f64,
     ) -> (f64, f64, f64) {
+        if self.n_f == 1.0 {
+            let tau = tsq.sqrt();
+            return Self::calc_interval(beta0.max(-tau), beta1, tau);
+        }
         let b0sq = beta0 * beta0;
         let b1sq = beta1 * beta1;
         let zeta0 = tsq - b0sq;
@@ -381,6 +392,9 @@ impl EllCalcCore {
     /// ```
     )]
     pub fn calc_parallel_central_cut(&self, beta1: f64, tsq: f64) -> (f64, f64, f64) {
+        if self.n_f == 1.0 {
+            return Self::calc_interval(0.0, beta1, tsq.sqrt());
+        }
         let b1sq = beta1 * beta1;
         let a1sq = b1sq / tsq;
         let half_val = self.half_n * a1sq;
@@ -451,6 +465,9 @@ impl EllCalcCore {
     /// ```
     )]
     pub const fn calc_bias_cut_fast(&self, beta: f64, tau: f64, eta: f64) -> (f64, f64, f64) {
+        if self.n_f == 1.0 {
+            return Self::calc_interval(beta, tau, tau);
+        }
         let rho = eta / self.n_plus_1;
         let sigma = 2.0 * rho / (tau + beta);
         let alpha = beta / tau;
@@ -603,6 +620,10 @@ impl EllCalcCore {
     /// ```
     )]
     pub fn calc_central_cut(&self, tsq: f64) -> (f64, f64, f64) {
+        if self.n_f == 1.0 {
+            let tau = tsq.sqrt();
+            return Self::calc_interval(0.0, tau, tau);
+        }
         // self.mu = self.half_n_minus_1;
         let sigma = self.cst2;
         let rho = tsq.sqrt() / self.n_plus_1;
-- 
2.43.0


From b51a76a10e16362aed36751a50b45f97b7090b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:59 +0000
Subject: [PATCH 04/18] fix: keep the EllStable factors finite when a cut
 leaves the shape unchanged or flat

---
 src/ell_stable.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..040e8fe 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -103,12 +103,20 @@ impl EllStable {
             self.xc[i] -= rho_over_omega * g_t[i];
         }
 
+        if sigma == 0.0 {
+            self.kappa *= delta; // the shape is unchanged
+            return status;
+        }
+
         // Rank-one update
         let mu_val = sigma / (1.0 - sigma);
         let mut oldt = omega / mu_val;
         let last_idx = ndim - 1;
         for j in 0..last_idx {
             let temp = oldt + gg_t[j];
+            if temp == 0.0 {
+                continue; // sigma == 1 and no component along this direction so far
+            }
             let beta2 = inv_md_inv_ml_g[j] / temp;
             self.mq.data_mut()[j * n + j] *= oldt / temp;
             let row_start_j = j * n;
@@ -118,7 +126,9 @@ impl EllStable {
             oldt = temp;
         }
         let temp = oldt + gg_t[last_idx];
-        self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
+        if temp != 0.0 {
+            self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
+        }
         self.kappa *= delta;
 
         status
-- 
2.43.0


From 32c507d10cf013e3b72a68a643413b93432f1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:03 +0000
Subject: [PATCH 05/18] fix: leave the ellipsoid alone on a cut with no extent
 along the gradient

---
 src/ell.rs        | 3 +++
 src/ell_stable.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ell.rs b/src/ell.rs
index 8fed4ed..b38f9ab 100644
--- a/src/ell.rs
+++ b/src/ell.rs
@@ -107,6 +107,9 @@ impl Ell {
         if status != CutStatus::Success {
             return status;
         }
+        if self.tsq == 0.0 {
+            return CutStatus::NoEffect; // zero gradient or flat ellipsoid: nothing to cut
+        }
 
         let n = self.xc.len();
         let rho_over_omega = rho / omega;
diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 040e8fe..6d55169 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -88,6 +88,9 @@ impl EllStable {
         if status != CutStatus::Success {
             return status;
         }
+        if self.tsq == 0.0 {
+            return CutStatus::NoEffect; // zero gradient or flat ellipsoid: nothing to cut
+        }
 
         // calculate mq*grad = inv(L')*inv(D)*inv(L)*grad
         let mut g_t = inv_md_inv_ml_g.clone();
-- 
2.43.0


From c9089fff96cf014341be932df92ec4a36c5e1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:18 +0000
Subject: [PATCH 06/18] fix: bsearch reports the final bracket through intrvl

---
 src/cutting_plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..81a106e 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -461,6 +461,7 @@ where
         } else {
             lower = gamma;
         }
+        *intrvl = (lower, upper);
     }
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From 69082bfb91221c734c57b621d4205d9e4301edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 07/18] fix: carry the off-diagonal factors in the EllStable
 update

---
 src/ell_stable.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 6d55169..ce2ad4c 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -62,9 +62,8 @@ impl EllStable {
         for i in 1..ndim {
             let row_start_i = i * n;
             for j in 0..i {
-                let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
-                inv_ml_g[i] -= val;
+                inv_ml_g[i] -= self.mq.at(j, i) * inv_ml_g[j];
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i]; // keep for rank-one update
             }
         }
 
@@ -96,7 +95,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
-- 
2.43.0


From f1100cd9e90f22ef970fdef452e0841b8c9934e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:54 +0000
Subject: [PATCH 08/18] fix: EllStable::new_with_matrix factorizes a
 non-diagonal shape matrix

---
 src/ell_stable.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index ce2ad4c..0eb13ad 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -17,6 +17,7 @@ pub struct EllStable {
 impl EllStable {
     pub fn new_with_matrix(kappa: f64, mq: Arr, xc: Arr) -> EllStable {
         let helper = EllCalc::new(xc.len());
+        let mq = Self::factorize(mq);
         EllStable {
             kappa,
             mq,
@@ -26,6 +27,39 @@ impl EllStable {
         }
     }
 
+    /// Factorize $$ mq = L^{-T} D^{-1} L^{-1} $$: the result holds $$ D^{-1} $$ on its diagonal
+    /// and $$ L^T $$ above it, the form that `update_core` works on.
+    fn factorize(mut mq: Arr) -> Arr {
+        let n = mq.rows();
+        // mq = W D^{-1} W^T with W unit upper triangular
+        for j in (0..n).rev() {
+            let diag = mq.at(j, j);
+            for i in 0..j {
+                let val = mq.at(i, j);
+                let w = if val == 0.0 { 0.0 } else { val / diag };
+                for k in 0..=i {
+                    let update = mq.at(k, j) * w;
+                    *mq.at_mut(k, i) -= update;
+                }
+            }
+            for i in 0..j {
+                let val = mq.at(i, j);
+                mq.set(i, j, if val == 0.0 { 0.0 } else { val / diag });
+            }
+        }
+        // L^T = W^{-1}
+        for i in (0..n).rev() {
+            for j in (i + 1..n).rev() {
+                let mut val = -mq.at(i, j);
+                for k in (i + 1)..j {
+                    val -= mq.at(i, k) * mq.at(k, j);
+                }
+                mq.set(i, j, val);
+            }
+        }
+        mq
+    }
+
     pub fn new(val: Arr, xc: Arr) -> EllStable {
         EllStable::new_with_matrix(1.0, Arr::from_diag(&val), xc)
     }
-- 
2.43.0


From 81492e1aecabb6e24afcd399a869823304f45d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:08 +0000
Subject: [PATCH 09/18] fix: conjugate_gradient accepts an initial guess that
 already solves the system

---
 src/conjugate_gradient.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..126002a 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -34,6 +34,9 @@ pub fn conjugate_gradient(
     let mut residual = b - &a.dot_mv(&x);
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x); // the initial guess already solves the system
+    }
 
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
-- 
2.43.0


From f91abd8e4ded75031ef9cda15c92bb8b839740c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:11 +0000
Subject: [PATCH 10/18] fix: power_iteration3 normalizes small iterates and the
 vector left by max_iters

---
 src/power_iteration.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 6fdbfa9..ff67218 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -153,7 +153,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
         let eigenval_prev = eigenval;
         x.clone_from(&new_vec);
         dot = x.dot(x);
-        if dot >= 1e150 {
+        if dot >= 1e150 || dot <= 1e-150 {
             *x /= x.dot(x).sqrt();
             new_vec = a.dot_mv(x);
             eigenval = x.dot(&new_vec);
@@ -169,6 +169,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
             }
         }
     }
+    *x /= x.dot(x).sqrt();
     (eigenval, options.max_iters)
 }
 
-- 
2.43.0


From 7989c7eb728dc48480a1d4ba80b64b7cd2637110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:32 +0000
Subject: [PATCH 11/18] fix: LDLTMgr::witness clears the entries of an earlier
 witness

---
 src/oracles/ldlt_mgr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oracles/ldlt_mgr.rs b/src/oracles/ldlt_mgr.rs
index 332bb9e..53c3bd7 100644
--- a/src/oracles/ldlt_mgr.rs
+++ b/src/oracles/ldlt_mgr.rs
@@ -99,6 +99,7 @@ impl LDLTMgr {
         assert!(!self.is_spd(), "witness called on SPD matrix");
         let (start, pos) = self.pos;
         let m = pos - 1;
+        self.wit = Arr::new(self.ndim); // no entries left from an earlier witness
         self.wit[m] = 1.0;
         for i in (start + 1..=m).rev() {
             let mut s = 0.0;
-- 
2.43.0


From 47e3e3ae03e5dc16fe910dc7f0588fea9146a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 12/18] fix: LDLTMgr does not accept a matrix with a NaN pivot
 as positive definite

---
 src/oracles/ldlt_mgr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oracles/ldlt_mgr.rs b/src/oracles/ldlt_mgr.rs
index 53c3bd7..46a4019 100644
--- a/src/oracles/ldlt_mgr.rs
+++ b/src/oracles/ldlt_mgr.rs
@@ -46,7 +46,7 @@ impl LDLTMgr {
                 diag = get_elem(i, stop) - s;
             }
             self.storage[i * self.ndim + i] = diag;
-            if diag <= 0.0 {
+            if diag <= 0.0 || diag.is_nan() {
                 self.pos = (start, i + 1);
                 break;
             }
@@ -78,7 +78,7 @@ impl LDLTMgr {
                 diag = get_elem(i, stop) - s;
             }
             self.storage[i * self.ndim + i] = diag;
-            if diag < 0.0 {
+            if diag < 0.0 || diag.is_nan() {
                 self.pos = (start, i + 1);
                 break;
             } else if diag == 0.0 {
-- 
2.43.0


From d3680ee20e4c68013744c17dc6ceb21fd102ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:56 +0000
Subject: [PATCH 13/18] fix: create_lowpass_case derives the pass and stop band
 levels from the ripple

---
 src/oracles/lowpass_oracle.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..3866600 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -1,6 +1,5 @@
 use crate::arr::{linspace, Arr};
 use crate::cutting_plane::{OracleFeas, OracleOptim, ParallelCut};
-use std::f64::consts::PI;
 
 pub type Cut = (Arr, ParallelCut);
 
@@ -151,10 +150,10 @@ impl OracleOptim<Arr> for LowpassOracle {
 }
 
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
-    let delta0_wpass = 0.025;
-    let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
-    let delta2 = 20.0 * (delta0_wstop * PI).log10();
+    let delta0_wpass: f64 = 0.025;
+    let delta0_wstop: f64 = 0.125;
+    let delta1 = 20.0 * (1.0 + delta0_wpass).log10();
+    let delta2 = 20.0 * delta0_wstop.log10();
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
     let up_pass = 10.0f64.powf(delta1 / 20.0);
-- 
2.43.0


From 9876cbe9d34c8715cc01a3ef4a582815143eb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:36 +0000
Subject: [PATCH 14/18] fix: Arr::rank_one_update rejects a non-square matrix
 instead of writing with the wrong stride

---
 src/arr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arr.rs b/src/arr.rs
index dfe616a..efba87d 100644
--- a/src/arr.rs
+++ b/src/arr.rs
@@ -470,6 +470,7 @@ impl Arr {
         assert!(self.is_2d());
         assert!(!u.is_2d());
         let n = self.rows;
+        assert_eq!(n, self.cols);
         assert_eq!(n, u.len());
         for i in 0..n {
             let ui = u[i];
-- 
2.43.0


From cb91f392e64c40547bb47467a36ed92f9578ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 15/18] fix: export the Python drivers that the package
 documents and its tests import

---
 python_ai/ellalgo/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python_ai/ellalgo/__init__.py b/python_ai/ellalgo/__init__.py
index d0be0f4..5201d66 100644
--- a/python_ai/ellalgo/__init__.py
+++ b/python_ai/ellalgo/__init__.py
@@ -11,7 +11,14 @@ Modules:
     oracles: Various oracle implementations for specific problems
 """
 
-from .cutting_plane import CutStatus, Options, cutting_plane
+from .cutting_plane import (
+    CutStatus,
+    Options,
+    binary_search,
+    cutting_plane,
+    cutting_plane_feas,
+    cutting_plane_optim,
+)
 from .ell import Ell
 from .ell_calc import EllCalc, EllCalcCore
 
@@ -19,7 +26,10 @@ __version__ = "0.1.0"
 __all__ = [
     "CutStatus",
     "Options",
+    "binary_search",
     "cutting_plane",
+    "cutting_plane_feas",
+    "cutting_plane_optim",
     "Ell",
     "EllCalc",
     "EllCalcCore",
-- 
2.43.0


From 4a47ba7020276355c50ebb9b0ad013569758e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 16/18] fix: Python drivers accept the package's own Ell, whose
 centre and tsq are attributes

---
 python_ai/ellalgo/cutting_plane.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/python_ai/ellalgo/cutting_plane.py b/python_ai/ellalgo/cutting_plane.py
index 9fd0e7a..32630fe 100644
--- a/python_ai/ellalgo/cutting_plane.py
+++ b/python_ai/ellalgo/cutting_plane.py
@@ -241,6 +241,18 @@ class SearchSpaceQ(Protocol):
         ...
 
 
+def _center(space: SearchSpace) -> ArrayType:
+    """Current center of a search space; Ell has it as an attribute."""
+    xc = space.xc
+    return xc() if callable(xc) else xc.copy()
+
+
+def _tsq(space: SearchSpace) -> float:
+    """Current tsq of a search space; Ell has it as an attribute."""
+    tsq = space.tsq
+    return tsq() if callable(tsq) else tsq
+
+
 def cutting_plane_feas(
     oracle: OracleFeas,
     space: SearchSpace,
@@ -261,7 +273,7 @@ def cutting_plane_feas(
         options = Options.default()
 
     for i in range(options.max_iters):
-        xc = space.xc()
+        xc = _center(space)
         cut = oracle.assess_feas(xc)
 
         if cut is None:
@@ -274,10 +286,10 @@ def cutting_plane_feas(
             return status, xc, i
 
         # Check convergence
-        if space.tsq() < options.tolerance:
-            return CutStatus.SUCCESS, space.xc(), i
+        if _tsq(space) < options.tolerance:
+            return CutStatus.SUCCESS, _center(space), i
 
-    return CutStatus.UNKNOWN, space.xc(), options.max_iters
+    return CutStatus.UNKNOWN, _center(space), options.max_iters
 
 
 def cutting_plane_optim(
@@ -302,7 +314,7 @@ def cutting_plane_optim(
     gamma = float("inf")
 
     for i in range(options.max_iters):
-        xc = space.xc()
+        xc = _center(space)
         (grad, beta), is_optimal = oracle.assess_optim(xc, gamma)
 
         if is_optimal:
@@ -315,10 +327,10 @@ def cutting_plane_optim(
             return status, xc, gamma, i
 
         # Check convergence
-        if space.tsq() < options.tolerance:
-            return CutStatus.SUCCESS, space.xc(), gamma, i
+        if _tsq(space) < options.tolerance:
+            return CutStatus.SUCCESS, _center(space), gamma, i
 
-    return CutStatus.UNKNOWN, space.xc(), gamma, options.max_iters
+    return CutStatus.UNKNOWN, _center(space), gamma, options.max_iters
 
 
 def cutting_plane(
-- 
2.43.0


From ab468b9c7df38302bca1e2bac6117890ff0ac37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 17/18] fix: Python ProfitOracle no longer calls a point with
 non-positive inputs optimal

---
 python_ai/ellalgo/oracles/profit_oracle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python_ai/ellalgo/oracles/profit_oracle.py b/python_ai/ellalgo/oracles/profit_oracle.py
index c499c43..b9ef22d 100644
--- a/python_ai/ellalgo/oracles/profit_oracle.py
+++ b/python_ai/ellalgo/oracles/profit_oracle.py
@@ -120,6 +120,14 @@ class ProfitOracle(OracleOptim):
             beta = self.capacity - xc[0]  # x₁ - k ≤ 0 → β = k - x₁
             return (grad, beta), False
 
+        # Check positivity: profit and its gradient are undefined otherwise
+        for i in range(2):
+            if xc[i] <= 0.0:
+                # Violates -x_i < 0
+                grad = np.zeros(2)
+                grad[i] = -1.0
+                return (grad, xc[i]), False
+
         # Compute current profit (negative for minimization)
         current_profit = self._compute_profit(xc)
         current_objective = -current_profit  # Negative profit for minimization
-- 
2.43.0


From 188cd1217fb92f978fc04713f535a8a618bac7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:12 +0000
Subject: [PATCH 18/18] fix: settle the deferred size factor before it
 overflows

Over a long history of shallow cuts kappa grows without bound while mq
shrinks, although the ellipsoid itself hardly changes: after some 60000
updates (n = 2) tsq became infinite.
---
 src/ell.rs        | 3 ++-
 src/ell_stable.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ell.rs b/src/ell.rs
index b38f9ab..75903da 100644
--- a/src/ell.rs
+++ b/src/ell.rs
@@ -132,7 +132,8 @@ impl Ell {
 
         self.kappa *= delta;
 
-        if self.no_defer_trick {
+        // kappa and mq drift apart over a long history: settle before one of them overflows
+        if self.no_defer_trick || !(1e-100..=1e100).contains(&self.kappa) {
             self.mq *= self.kappa;
             self.kappa = 1.0;
         }
diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 0eb13ad..83bb342 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -167,6 +167,14 @@ impl EllStable {
         }
         self.kappa *= delta;
 
+        // kappa and mq drift apart over a long history: settle before one of them overflows
+        if !(1e-100..=1e100).contains(&self.kappa) {
+            for i in 0..ndim {
+                self.mq.data_mut()[i * n + i] *= self.kappa;
+            }
+            self.kappa = 1.0;
+        }
+
         status
     }
 }
-- 
2.43.0

