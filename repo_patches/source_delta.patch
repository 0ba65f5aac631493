From 6fb235aaaa7fcb0a79dbc9c545b4fe475d6c375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 01/66] fix: LHS designs of a single point (optimized kind
 looped forever, maximin kinds panicked)

---
 crates/doe/src/lhs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 9024687..92a2333 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -73,6 +73,9 @@ impl<F: Float, R: Rng> SamplingMethod<F> for Lhs<F, R> {
         match &self.kind {
             LhsKind::Classic => self._classic_lhs(ns),
             LhsKind::Centered => self._centered_lhs(ns),
+            // With less than two points there is no pairwise distance to maximize
+            LhsKind::Maximin | LhsKind::Optimized if ns < 2 => self._classic_lhs(ns),
+            LhsKind::CenteredMaximin if ns < 2 => self._centered_lhs(ns),
             LhsKind::Maximin => self._maximin_lhs(ns, false, 5),
             LhsKind::CenteredMaximin => self._maximin_lhs(ns, true, 5),
             LhsKind::Optimized => {
-- 
2.43.0


From b745a37b03e3c3ca2763f67f0b6e155b37a5b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 02/66] fix: Matern correlations returned NaN when the
 polynomial factor overflows at large distances

---
 crates/gp/src/correlation_models.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/correlation_models.rs b/crates/gp/src/correlation_models.rs
index 3ab5aab..0830858 100644
--- a/crates/gp/src/correlation_models.rs
+++ b/crates/gp/src/correlation_models.rs
@@ -349,6 +349,12 @@ impl Matern32Corr {
             });
 
         let b = d_theta_w.sum_axis(Axis(1)).mapv(|v| F::exp(-sqrt3 * v));
+        // polynomial factor may overflow when exponential one vanishes: the latter prevails
+        Zip::from(&mut a).and(&b).for_each(|a_i, b_i| {
+            if *b_i == F::zero() {
+                *a_i = F::zero()
+            }
+        });
         (a, b)
     }
 
@@ -383,7 +389,11 @@ impl Matern32Corr {
         Zip::from(da.rows_mut())
             .and(abs_d.rows())
             .and(sign_d.rows())
-            .for_each(|mut da_i, abs_d_i, sign_i| {
+            .and(b)
+            .for_each(|mut da_i, abs_d_i, sign_i, b_i| {
+                if *b_i == F::zero() {
+                    return;
+                }
                 Zip::indexed(&mut da_i)
                     .and(&sign_i)
                     .for_each(|j, da_ij, sign_ij| {
@@ -519,6 +529,12 @@ impl Matern52Corr {
 
         let d_theta_w = d.mapv(|v| v.abs()).dot(&theta_w);
         let b = d_theta_w.sum_axis(Axis(1)).mapv(|v| F::exp(-sqrt5 * v));
+        // polynomial factor may overflow when exponential one vanishes: the latter prevails
+        Zip::from(&mut a).and(&b).for_each(|a_i, b_i| {
+            if *b_i == F::zero() {
+                *a_i = F::zero()
+            }
+        });
         (a, b)
     }
 
@@ -556,7 +572,11 @@ impl Matern52Corr {
         Zip::from(da.rows_mut())
             .and(abs_d.rows())
             .and(sign_d.rows())
-            .for_each(|mut da_i, abs_d_i, sign_i| {
+            .and(b)
+            .for_each(|mut da_i, abs_d_i, sign_i, b_i| {
+                if *b_i == F::zero() {
+                    return;
+                }
                 Zip::indexed(&mut da_i).and(&abs_d_i).and(&sign_i).for_each(
                     |j, da_ij, abs_d_ij, sign_ij| {
                         Zip::indexed(theta_w.columns()).for_each(|k, theta_w_k| {
-- 
2.43.0


From 48aeaac261687a433b395166105879db7d77418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 03/66] fix: GP training panicked instead of returning an error
 with fewer points than trend coefficients

---
 crates/gp/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c98527f..7f857b7 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1004,7 +1004,7 @@ fn reduced_likelihood<F: Float>(
     let r_chol = r_mx.cholesky()?;
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(fxl, UPLO::Lower)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap().into_decomp();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?.into_decomp();
 
     // Check whether we have an ill-conditionned problem
     let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
@@ -1078,7 +1078,7 @@ fn reduced_likelihood<F: Float>(
 
     // Solve generalized least squared problem
     let ft = r_chol.solve_triangular(UPLO::Lower, Diag::NonUnit, &fxl)?;
-    let (ft_qr_q, ft_qr_r) = ft.qr().unwrap();
+    let (ft_qr_q, ft_qr_r) = ft.qr()?;
 
     // Check whether we have an ill-conditionned problem
     let (_, sv_qr_r, _) = ft_qr_r.svd(false, false).unwrap();
-- 
2.43.0


From af25d2362fd69b8a8b54db30b28dfcef3dc30e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 04/66] fix: predict_kth_derivatives was wrong for all kernels,
 quadratic trends and KPLS (obsolete formula)

---
 crates/gp/src/algorithm.rs | 59 +-------------------------------------
 1 file changed, 1 insertion(+), 58 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 7f857b7..77893ef 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -445,64 +445,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         x: &ArrayBase<impl Data<Elem = F>, Ix2>,
         kx: usize,
     ) -> Array1<F> {
-        let xnorm = (x - &self.xt_norm.mean) / &self.xt_norm.std;
-        let corr = self._compute_correlation(&xnorm);
-
-        let beta = &self.inner_params.beta;
-        let gamma = &self.inner_params.gamma;
-
-        let df_dx_kx = if self.inner_params.beta.nrows() <= 1 + self.xt_norm.data.ncols() {
-            // for constant or linear: df/dx = cst ([0] or [1]) for all x, so takes use x[0] to get the constant
-            let df = self.params.mean.jacobian(&x.row(0));
-            let df_dx = df.t().row(kx).dot(beta);
-            df_dx.broadcast((x.nrows(), 1)).unwrap().to_owned()
-        } else {
-            // for quadratic df/dx really depends on x
-            let mut dfdx = Array2::zeros((x.nrows(), 1));
-            Zip::from(dfdx.rows_mut())
-                .and(xnorm.rows())
-                .for_each(|mut dfxi, xi| {
-                    let df = self.params.mean.jacobian(&xi);
-                    let df_dx = (df.t().row(kx)).dot(beta);
-                    dfxi.assign(&df_dx);
-                });
-            dfdx
-        };
-
-        let nr = x.nrows();
-        let nc = self.xt_norm.data.nrows();
-        let d_dx_1 = &xnorm
-            .column(kx)
-            .to_owned()
-            .into_shape_with_order((nr, 1))
-            .unwrap()
-            .broadcast((nr, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx_2 = self
-            .xt_norm
-            .data
-            .column(kx)
-            .to_owned()
-            .as_standard_layout()
-            .into_shape_with_order((1, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx = d_dx_1 - d_dx_2;
-
-        // Get pairwise componentwise L1-distances to the input training set
-        let theta = &self.theta.to_owned();
-        let d_dx_corr = d_dx * corr;
-
-        // (df(xnew)/dx).beta + (dr(xnew)/dx).R^-1(ytrain - f.beta)
-        // gamma = R^-1(ytrain - f.beta)
-        // Warning: squared exponential only
-        let res = (df_dx_kx - d_dx_corr.dot(gamma).map(|v| F::cast(2.) * theta[kx] * *v))
-            * self.yt_norm.std[0]
-            / self.xt_norm.std[kx];
-        res.column(0).to_owned()
+        x.map_axis(Axis(1), |xi| self.predict_jacobian(&xi)[[kx, 0]])
     }
 
     /// Predict derivatives at a set of point `x` specified as a (n, nx) matrix where x has nx components.
-- 
2.43.0


From 427ce0c684f45a4a7560c67f6b75630b011d93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 05/66] fix: one-component theta guess was not extended to all
 components with fixed or partial tuning

---
 crates/gp/src/algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 77893ef..d822895 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -809,9 +809,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let fx = self.mean().value(&xtrain.data);
 
         let opt_params = match self.theta_tuning() {
-            ThetaTuning::Fixed(init) => {
+            ThetaTuning::Fixed(_) => {
                 // Easy path no optimization
-                init.to_owned()
+                theta0.to_owned()
             }
             ThetaTuning::Full { init: _, bounds }
             | ThetaTuning::Partial {
@@ -895,11 +895,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let opt_params = match self.theta_tuning() {
             ThetaTuning::Fixed(_) | ThetaTuning::Full { init: _, bounds: _ } => opt_params,
             ThetaTuning::Partial {
-                init,
+                init: _,
                 bounds: _,
                 active,
             } => {
-                let mut opt_theta = init.to_owned();
+                let mut opt_theta = theta0.to_owned();
                 std::iter::zip(active.clone(), opt_params)
                     .for_each(|(i, xi)| opt_theta[i] = F::cast(xi));
                 opt_theta
-- 
2.43.0


From 4ab56eb822365ffd625e91e69bb7acd3f8f81031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 06/66] fix: single precision models read out of bounds memory
 as f64 in likelihood optimization and sparse gradients

---
 crates/gp/src/algorithm.rs        |  4 ++--
 crates/gp/src/optimization.rs     |  6 +++---
 crates/gp/src/sparse_algorithm.rs | 12 ++++++------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index d822895..acadb89 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1,6 +1,6 @@
 use crate::errors::{GpError, Result};
 use crate::mean_models::*;
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::parameters::{GpParams, GpValidParams};
 use crate::utils::{DiffMatrix, NormalizedData, pairwise_differences};
 use crate::{ThetaTuning, correlation_models::*};
@@ -834,7 +834,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                     }
                     let rxx = self.corr().value(&x_distances.d, &theta, &w_star);
                     match reduced_likelihood(&fx, rxx, &x_distances, &ytrain, self.nugget()) {
-                        Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                        Ok(r) => -into_f64(&r.0),
                         Err(_) => f64::INFINITY,
                     }
                 };
diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c076756..305124e 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -88,7 +88,7 @@ where
     // block to drop optimizer and allow self.corr borrowing after
     let mut optimizer = Nlopt::new(Algorithm::Cobyla, param0.len(), objfn, Target::Minimize, ());
     let mut param = param0
-        .map(|v| unsafe { *(v as *const F as *const f64) })
+        .map(|v| into_f64(v))
         .into_raw_vec();
 
     let lower_bounds = bounds.iter().map(|b| into_f64(&b.0)).collect::<Vec<_>>();
@@ -169,6 +169,6 @@ where
 }
 
 #[inline(always)]
-fn into_f64<F: Float>(v: &F) -> f64 {
-    unsafe { *(v as *const F as *const f64) }
+pub(crate) fn into_f64<F: Float>(v: &F) -> f64 {
+    v.to_f64().unwrap()
 }
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 02010d3..50a55a9 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -1,6 +1,6 @@
 use crate::ThetaTuning;
 use crate::errors::{GpError, Result};
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::sparse_parameters::{Inducings, ParamTuning, SgpParams, SgpValidParams, SparseMethod};
 use crate::{GpSamplingMethod, correlation_models::*, sample, utils::pairwise_differences};
 use finitediff::ndarr;
@@ -302,12 +302,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let g_central = ndarr::central_diff(&f);
                 let grad = g_central(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
@@ -322,12 +322,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict_var(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let grad = ndarr::central_diff(&f)(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
             });
@@ -550,7 +550,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 &z,
                 self.nugget(),
             ) {
-                Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                Ok(r) => -into_f64(&r.0),
                 Err(_) => f64::INFINITY,
             }
         };
-- 
2.43.0


From 93c8eb426a94367786bed29fdc42bdd117cc061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 07/66] fix: GP hyperparameters left their bounds when the
 likelihood failed for every start point

---
 crates/gp/src/algorithm.rs        | 2 +-
 crates/gp/src/sparse_algorithm.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index acadb89..8171127 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -883,7 +883,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                         )
                     })
                     .reduce(
-                        || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                        || (f64::INFINITY, theta_inits.row(0).mapv(|v| into_f64(&v))),
                         |a, b| if b.0 < a.0 { b } else { a },
                     );
                 debug!("elapsed optim = {:?}", now.elapsed().as_millis());
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 50a55a9..afca84b 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -604,7 +604,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 )
             })
             .reduce(
-                || (f64::INFINITY, Array::ones((theta_inits.ncols(),))),
+                || (f64::INFINITY, theta_inits.row(0).mapv(|v| into_f64(&v))),
                 |a, b| if b.0 < a.0 { b } else { a },
             );
         debug!("elapsed optim = {:?}", now.elapsed().as_millis());
-- 
2.43.0


From 11aca4a7d853f28cc48c62de78d4f0deac95749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 08/66] fix: GP training with one restart was not reproducible

---
 crates/gp/src/optimization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index 305124e..b5c8a66 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -40,8 +40,8 @@ pub(crate) fn prepare_multistart<F: Float>(
 
     match n_start.cmp(&1) {
         std::cmp::Ordering::Equal => {
-            //let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let mut rng = Xoshiro256Plus::from_entropy();
+            // Use a seed here for reproducibility (see below)
+            let mut rng = Xoshiro256Plus::seed_from_u64(42);
             let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
-- 
2.43.0


From 9edf2a060184b13aa0e0332533dd9c5aeef5a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 09/66] fix: partial theta tuning swapped bounds when active
 components were not given in order

---
 crates/gp/src/algorithm.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 8171127..d34e4ba 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -855,12 +855,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 };
 
                 // Select init params and bounds wrt to activity
-                let active_bounds = bounds
-                    .iter()
-                    .enumerate()
-                    .filter(|(i, _)| active.contains(i))
-                    .map(|(_, &b)| b)
-                    .collect::<Vec<_>>();
+                let active_bounds = active.iter().map(|&i| bounds[i]).collect::<Vec<_>>();
                 let (theta_inits, bounds) = prepare_multistart(
                     self.n_start(),
                     &theta0.select(Axis(0), &active),
-- 
2.43.0


From 8f4a5e406bce4f94c566c747d75c41465211ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 10/66] fix: variance of VFE sparse GP was wrong (sign error in
 Woodbury formula)

---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index afca84b..1f33f7b 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -820,7 +820,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         let likelihood = -F::cast(0.5) * (term1 + term2 + term3 + term4 + term5 + term6);
 
         let li_ui = li.dot(&ui);
-        let bi = Array::eye(nz) + li.t().dot(&li);
+        let bi = Array::eye(nz) - li.t().dot(&li);
         let w_data = WoodburyData {
             vec: li_ui.t().dot(&b),
             inv: ui.t().dot(&bi).dot(&ui),
-- 
2.43.0


From c628b1286ef01457b5dcb0fec7c086c7dfa0c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 11/66] fix: dims of a sparse GP returned the number of
 training samples as output dimension

---
 crates/gp/src/sparse_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 1f33f7b..39643f2 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -292,7 +292,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
 
     /// Retrieve input and output dimensions
     pub fn dims(&self) -> (usize, usize) {
-        (self.training_data.0.ncols(), self.training_data.1.len())
+        (self.training_data.0.ncols(), 1)
     }
 
     /// Predict gradients of the mean function at n given `x` points of nx components specified as a (n, nx) matrix.
-- 
2.43.0


From ec32369a926e2f367b56624df3fdf01e56c257ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 12/66] fix: sparse GP trajectories were drawn with the prior
 covariance instead of the posterior one

---
 crates/gp/src/sparse_algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 39643f2..17c366d 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -356,7 +356,9 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         method: GpSamplingMethod,
     ) -> Array2<F> {
         let mean = self.predict(x).unwrap().insert_axis(Axis(1));
-        let cov = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2);
+        let kx = self.compute_k(&self.inducings, x, &self.w_star, &self.theta, self.sigma2);
+        let kxx = self.compute_k(x, x, &self.w_star, &self.theta, self.sigma2);
+        let cov = kxx - kx.t().dot(&self.w_data.inv.dot(&kx));
         sample(x, mean, cov, n_traj, method)
     }
 }
-- 
2.43.0


From ba6c510410943c1a5be03c210da63f8ef4082570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 13/66] fix: sparse GP training panicked with per-component
 theta bounds or fixed theta

---
 crates/gp/src/sparse_algorithm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 17c366d..6a58dcf 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -563,13 +563,16 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         let bounds_dim = bounds.len();
         let bounds = if bounds_dim == 1 {
             vec![bounds[0]; params_0.len()]
-        } else if theta0_dim == params_0.len() {
-            bounds.to_vec()
+        } else if bounds_dim == w_star.ncols() {
+            // bounds of variance and noise are set below
+            let mut params_bounds = vec![bounds[0]; params_0.len()];
+            params_bounds[..bounds_dim].copy_from_slice(bounds.as_slice().unwrap());
+            params_bounds
         } else {
             panic!(
                 "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                 w_star.ncols(),
-                theta0_dim
+                bounds_dim
             )
         };
 
-- 
2.43.0


From 5f36d1440252d3217fefa82b1421a83c4225c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 14/66] fix: GP trajectories collapsed on the mean for outputs
 expressed in large units (absolute eigenvalue threshold)

---
 crates/gp/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index d34e4ba..d4f4560 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1110,9 +1110,10 @@ pub(crate) fn sample<F: Float>(
             #[cfg(not(feature = "blas"))]
             let (v, w) = cov_x.with_lapack().eigh_into().unwrap();
             let v = v.mapv(F::cast);
+            let vmax = v.iter().fold(F::zero(), |a, &b| if b > a { b } else { a });
             let v = v.mapv(|x| {
-                // We lower bound the float value at 1e-9
-                if x < F::cast(1e-9) {
+                // We discard eigenvalues lower than 1e-9 wrt the largest one
+                if x <= F::cast(1e-9) * vmax {
                     return F::zero();
                 }
                 x.sqrt()
-- 
2.43.0


From 7f99ec003d869ffc8e7b033acd7d2d250173b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 15/66] fix: GP trajectories were wrong when eigenvectors
 computed by linfa-linalg are inaccurate (eg. sampling at a training point)

---
 crates/gp/src/algorithm.rs | 60 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index d4f4560..561eef0 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -16,7 +16,7 @@ use log::warn;
 use ndarray_linalg::{cholesky::*, eigh::*, qr::*, svd::*, triangular::*};
 
 use linfa_pls::PlsRegression;
-use ndarray::{Array, Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip};
+use ndarray::{Array, Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, s};
 
 use ndarray_rand::RandomExt;
 use ndarray_rand::rand_distr::Normal;
@@ -1083,6 +1083,60 @@ fn reduced_likelihood<F: Float>(
     ))
 }
 
+/// Eigenvalues and eigenvectors of the given symmetric matrix.
+///
+/// QR algorithm of `linfa-linalg` may return inaccurate eigenvectors when a nearly decoupled 2x2 block
+/// is met (eg. covariance with rows of very different magnitudes), in this case Jacobi algorithm is used.
+#[cfg(not(feature = "blas"))]
+fn symmetric_eig<F: Float>(mat: &Array2<F>) -> (Array1<F>, Array2<F>) {
+    let maxabs = |m: &Array2<F>| {
+        m.iter()
+            .fold(F::zero(), |a, b| num_traits::Float::max(a, b.abs()))
+    };
+    let (v, w) = mat.eigh().unwrap();
+    let residual = (&w * &v).dot(&w.t()) - mat;
+    let tol = num_traits::Float::max(F::cast(1e-12), F::cast(100.) * F::epsilon());
+    if maxabs(&residual) <= tol * maxabs(mat) {
+        return (v, w);
+    }
+
+    let n = mat.nrows();
+    let (mut a, mut w) = (mat.to_owned(), Array2::<F>::eye(n));
+    let small = F::epsilon() * F::cast(0.1) * maxabs(mat);
+    for _ in 0..100 {
+        let mut rotated = false;
+        for p in 0..n {
+            for q in p + 1..n {
+                let apq = a[[p, q]];
+                if apq.abs() <= small {
+                    continue;
+                }
+                rotated = true;
+                let tau = (a[[q, q]] - a[[p, p]]) / (F::cast(2.) * apq);
+                let sign = if tau < F::zero() { -F::one() } else { F::one() };
+                let t = sign / (tau.abs() + num_traits::Float::hypot(F::one(), tau));
+                let c = F::one() / num_traits::Float::hypot(F::one(), t);
+                let s = t * c;
+                let rotate = |x: &mut F, y: &mut F| {
+                    let (xv, yv) = (*x, *y);
+                    *x = c * xv - s * yv;
+                    *y = s * xv + c * yv;
+                };
+                for m in [&mut a, &mut w] {
+                    let (mut cp, mut cq) = m.multi_slice_mut((s![.., p], s![.., q]));
+                    Zip::from(&mut cp).and(&mut cq).for_each(rotate);
+                }
+                let (mut rp, mut rq) = a.multi_slice_mut((s![p, ..], s![q, ..]));
+                Zip::from(&mut rp).and(&mut rq).for_each(rotate);
+            }
+        }
+        if !rotated {
+            break;
+        }
+    }
+    (a.diag().to_owned(), w)
+}
+
 /// Sample the gaussian process for `n_traj` trajectories using either
 /// cholesky or eigenvalues decomposition to compute the decomposition of the conditioned covariance matrix.
 /// `cov_x` is the covariance matrix at the given x points [n, nx]
@@ -1108,7 +1162,7 @@ pub(crate) fn sample<F: Float>(
             #[cfg(feature = "blas")]
             let (v, w) = cov_x.with_lapack().eigh(UPLO::Lower).unwrap();
             #[cfg(not(feature = "blas"))]
-            let (v, w) = cov_x.with_lapack().eigh_into().unwrap();
+            let (v, w) = symmetric_eig(&cov_x);
             let v = v.mapv(F::cast);
             let vmax = v.iter().fold(F::zero(), |a, &b| if b > a { b } else { a });
             let v = v.mapv(|x| {
@@ -1122,7 +1176,7 @@ pub(crate) fn sample<F: Float>(
             #[cfg(feature = "blas")]
             let c = w.dot(&d);
             #[cfg(not(feature = "blas"))]
-            let c = w.dot(&d);
+            let c = w.with_lapack().dot(&d);
             c
         }
     }
-- 
2.43.0


From deca0c5469217f726d8e250d329be109a7f114af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 16/66] fix: sparse GP training panicked instead of rejecting
 hyperparameters with a singular covariance

---
 crates/gp/src/sparse_algorithm.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 6a58dcf..4bc0d49 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -669,9 +669,11 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
     ) -> Result<(F, WoodburyData<F>)> {
         let (likelihood, w_data) = match self.method() {
             SparseMethod::Fitc => {
-                self.fitc(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)
+                self.fitc(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)?
+            }
+            SparseMethod::Vfe => {
+                self.vfe(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget)?
             }
-            SparseMethod::Vfe => self.vfe(theta, sigma2, noise, w_star, xtrain, ytrain, z, nugget),
         };
 
         Ok((likelihood, w_data))
@@ -707,14 +709,14 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         let nz = z.nrows();
         let knn = Array1::from_elem(xtrain.nrows(), sigma2);
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute (lower) Cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
         let ui = u
@@ -735,7 +737,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         // Compute (lower) Cholesky decomposition: A = I + V diag(beta) V^T = L L^T
         let a = Array::eye(nz) + &(v.to_owned() * beta.to_owned().insert_axis(Axis(0))).dot(&v.t());
 
-        let l = a.cholesky().unwrap();
+        let l = a.cholesky()?;
         let li = l
             .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
             .unwrap();
@@ -766,7 +768,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: (ui.t()).dot(&ui) - li_ui_t.dot(&li_ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 
     /// VFE method
@@ -781,14 +783,14 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
         ytrain: &ArrayView2<F>,
         z: &Array2<F>,
         nugget: F,
-    ) -> (F, WoodburyData<F>) {
+    ) -> Result<(F, WoodburyData<F>)> {
         // Compute: Kmm and Kmn
         let nz = z.nrows();
         let kmm = self.compute_k(z, z, w_star, theta, sigma2) + Array::eye(nz) * nugget;
         let kmn = self.compute_k(z, xtrain, w_star, theta, sigma2);
 
         // Compute cholesky decomposition: Kmm = U U^T
-        let u = kmm.cholesky().unwrap();
+        let u = kmm.cholesky()?;
 
         // Compute cholesky decomposition: Qnn = V^T V
         let ui = u
@@ -804,7 +806,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
 
         // Compute cholesky decomposition: B = I + A = L L^T
         let b: Array2<F> = Array::eye(nz) + &a;
-        let l = b.cholesky().unwrap();
+        let l = b.cholesky()?;
         let li = l
             .solve_triangular(&Array::eye(l.nrows()), UPLO::Lower)
             .unwrap();
@@ -831,7 +833,7 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpValidParams<F, Corr> {
             inv: ui.t().dot(&bi).dot(&ui),
         };
 
-        (likelihood, w_data)
+        Ok((likelihood, w_data))
     }
 }
 
-- 
2.43.0


From 40c1999d8ca5ad1f27f6d12d227e82b80f325f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 17/66] fix: compute gaussian mixture membership without
 underflow far from clusters

---
 crates/moe/src/gaussian_mixture.rs | 43 ++++++++++--------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/crates/moe/src/gaussian_mixture.rs b/crates/moe/src/gaussian_mixture.rs
index 7468eef..ad0df26 100644
--- a/crates/moe/src/gaussian_mixture.rs
+++ b/crates/moe/src/gaussian_mixture.rs
@@ -128,7 +128,11 @@ impl<F: Float> GaussianMixture<F> {
         &self,
         x: &ArrayBase<D, Ix1>,
     ) -> Array2<F> {
-        let v = self.weights.to_owned().dot(&self.pdfs(x));
+        if self.n_clusters() == 1 {
+            return Array2::zeros((1, x.len()));
+        }
+        let xx = x.to_owned().insert_axis(Axis(0));
+        let probas = self.predict_probas(&xx).row(0).to_owned();
         let precs = &self.precisions / self.heaviside_factor;
         let mut deriv = Array2::zeros((self.means.nrows(), self.means.ncols()));
         Zip::from(deriv.rows_mut())
@@ -137,18 +141,10 @@ impl<F: Float> GaussianMixture<F> {
             .for_each(|mut der, mu, prec| {
                 der.assign(&(&x.to_owned() - &mu).dot(&prec));
             });
-        let vprime =
-            deriv.to_owned() * &(-self.weights.to_owned() * self.pdfs(x)).insert_axis(Axis(1));
-        let vprime = vprime.sum_axis(Axis(0));
-
-        let u = (self.weights.to_owned() * self.pdfs(x))
-            .to_owned()
-            .insert_axis(Axis(1));
-        let uprime = -(deriv.to_owned() * &u.to_owned());
-        let v2 = v * v;
-        (uprime.mapv(|up| up * v)
-            - u.to_owned() * vprime.broadcast((u.nrows(), vprime.len())).unwrap())
-        .mapv(|w| w / v2)
+        // p_k' = p_k * (sum_j p_j d_j - d_k) where d_k = (x - mu_k).P_k, written with
+        // probabilities instead of densities as the latter may underflow far from the means
+        let mean_deriv = probas.dot(&deriv);
+        (&mean_deriv - &deriv) * &probas.insert_axis(Axis(1))
     }
 
     /// Compute the derivatives of the probability of a set of x points given as a (m, nx) vector
@@ -232,22 +228,11 @@ impl<F: Float> GaussianMixture<F> {
         x: &ArrayBase<D, Ix2>,
     ) -> (Array1<F>, Array2<F>) {
         let weighted_log_prob = self.compute_log_gaussian_prob(x) + self.weights().mapv(|v| v.ln());
-        let log_prob_norm = weighted_log_prob
-            .mapv(|v| {
-                if v <= F::cast(f64::MIN_10_EXP) {
-                    F::zero()
-                } else {
-                    v.exp()
-                }
-            })
-            .sum_axis(Axis(1))
-            .mapv(|v| {
-                if v.abs() < F::epsilon() {
-                    F::zero()
-                } else {
-                    v.ln()
-                }
-            });
+        // log-sum-exp: the greatest term is factored out, densities may underflow far from the means
+        let log_prob_norm = weighted_log_prob.map_axis(Axis(1), |row| {
+            let max = row.fold(F::neg_infinity(), |acc, &v| if v > acc { v } else { acc });
+            max + row.fold(F::zero(), |acc, &v| acc + (v - max).exp()).ln()
+        });
         let log_resp = weighted_log_prob - log_prob_norm.to_owned().insert_axis(Axis(1));
         (log_prob_norm, log_resp)
     }
-- 
2.43.0


From 2e4c169d5f93d677fc1e0980d3bb93aad9ecf066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 18/66] fix: apply the heaviside factor when the recombination
 of a mixture is changed

---
 crates/moe/src/algorithm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..1f5347c 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -635,6 +635,9 @@ impl GpMixture {
             Recombination::Smooth(Some(_)) => recombination,
             Recombination::Smooth(_) => Recombination::Smooth(Some(1.)),
         };
+        if let Recombination::Smooth(Some(factor)) = self.recombination {
+            self.gmx = self.gmx.heaviside_factor(factor);
+        }
         self
     }
 
-- 
2.43.0


From 10910c0ca5740732753bca099171a84b3324034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 19/66] fix: check the number of points of each cluster, not
 its number of values

---
 crates/moe/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 1f5347c..2d06f00 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -392,11 +392,11 @@ fn check_number_of_points<F>(
             1
         };
         for cluster in clusters {
-            if cluster.len() < min_number_point {
+            if cluster.nrows() < min_number_point {
                 return Err(MoeError::ClusteringError(format!(
                     "Not enough points in training set. Need {} points, got {}",
                     min_number_point,
-                    cluster.len()
+                    cluster.nrows()
                 )));
             }
         }
-- 
2.43.0


From ccdd955ec911b84e61fb206a974b2931d86705de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 20/66] fix: make the automatic number of clusters reproducible

---
 crates/moe/src/clustering.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index c334c8c..47db558 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -8,7 +8,8 @@ use linfa::dataset::{Dataset, DatasetView};
 use linfa::traits::{Fit, Predict};
 use linfa_clustering::GaussianMixtureModel;
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, concatenate};
-use ndarray_rand::rand::Rng;
+use ndarray_rand::rand::{Rng, SeedableRng};
+use rand_xoshiro::Xoshiro256Plus;
 // use std::ops::Sub;
 
 fn mean(list: &[f64]) -> f64 {
@@ -71,6 +72,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
         max_nb_clusters
     };
     let dataset: DatasetView<f64, f64, Ix1> = DatasetView::new(x.view(), y.view());
+    let cv_rng = Xoshiro256Plus::seed_from_u64(rng.clone().r#gen());
 
     // Stock
     let mut mean_err_h: Vec<f64> = Vec::new();
@@ -146,6 +148,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                         .correlation_spec(correlation_spec)
                         .kpls_dim(kpls_dim)
                         .gmm(gmm.clone())
+                        .with_rng(cv_rng.clone())
                         .fit(&train)
                     {
                         Ok(mixture) => {
-- 
2.43.0


From eda21303a3e148329a1c294151c695b744423433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 21/66] fix: do not panic when a number of clusters cannot be
 assessed

---
 crates/moe/src/clustering.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index 47db558..e09d6ff 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -21,6 +21,9 @@ fn median(v: &[f64]) -> f64 {
     let mut list = v.to_vec();
     list.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     let len = list.len();
+    if len == 0 {
+        return f64::INFINITY; // no value at all
+    }
     let mid = len / 2;
     if len.is_multiple_of(2) {
         mean(&list[(mid - 1)..(mid + 1)])
-- 
2.43.0


From be8c3c2e76f17e844d73957596fde326496437ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 22/66] fix: start the selection of the number of clusters from
 the first possible one

---
 crates/moe/src/clustering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index e09d6ff..cf0ef2d 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -316,8 +316,8 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
     }
 
     // Find The best number of cluster
-    let mut cluster_mse = 1;
-    let mut cluster_mses = 1;
+    let mut cluster_mse = nb_clusters_ok[0] + 1;
+    let mut cluster_mses = nb_clusters_ok[0] + 1;
     let (mut min_err, mut min_errs) = if use_median {
         (
             median_err_h[nb_clusters_ok[0]],
-- 
2.43.0


From 9f2e455d77a6d005ebbc34457e0dea95be29a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 23/66] fix: report an error when a surrogate file cannot be
 created

---
 crates/moe/src/algorithm.rs  | 2 +-
 crates/moe/src/surrogates.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 2d06f00..a86ab5f 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -509,7 +509,7 @@ impl GpSurrogate for GpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
 
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index 7b963a3..d526a0d 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -179,7 +179,7 @@ macro_rules! declare_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -347,7 +347,7 @@ macro_rules! declare_sgp_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
-- 
2.43.0


From 23619487684a3843d9d70507149061998cce43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 24/66] fix: save sparse surrogates in the format the load
 function reads

---
 crates/moe/src/surrogates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index d526a0d..73488db 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -349,10 +349,10 @@ macro_rules! declare_sgp_surrogate {
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
                     let mut file = fs::File::create(path)?;
                     let bytes = match format {
-                        GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
+                        GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
                         GpFileFormat::Binary => {
-                            bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
+                            bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
                     file.write_all(&bytes)?;
-- 
2.43.0


From 18fe52f0359cb99aea270bada8e08a6303d03fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 25/66] fix: use the requested tuning of each cluster with
 sparse experts

---
 crates/moe/src/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index a86ab5f..104cc17 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -332,8 +332,13 @@ impl GpMixtureValidParams<f64> {
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
                 expert_params.n_start(self.n_start());
+                expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-                expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                if nc > 0 && self.theta_tunings().len() == 1 {
+                    expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                } else {
+                    expert_params.theta_tuning(self.theta_tunings()[nc].clone());
+                }
                 debug!("Train best expert...");
                 expert_params.train(&xtrain.view(), &ytrain.view())
             }
-- 
2.43.0


From 21adea39d3ca9b7ebacdcaee97af1516baf759e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 26/66] fix: do not panic in cluster selection when actual
 values are all zero

---
 crates/moe/src/clustering.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index cf0ef2d..0174d7a 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -186,7 +186,9 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                                         //     (pred - actual).mapv(|x| x * x).sum().sqrt()
                                         // }
                                         debug!("Diff: {}", &pred.to_owned() - actual);
-                                        let err = (pred - actual).mapv(|x| x.abs()).sum() / denom;
+                                        let err = (pred - actual).mapv(|x| x.abs()).sum();
+                                        // relative error unless all actual values are zero
+                                        let err = if denom > 0. { err / denom } else { err };
                                         debug!("Err = {err}");
                                         err
                                     }
-- 
2.43.0


From 80b4f05c56a64991c049387908675e94194a8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 27/66] fix: do not panic when a candidate expert cannot be
 trained

---
 crates/moe/src/expertise_macros.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/moe/src/expertise_macros.rs b/crates/moe/src/expertise_macros.rs
index 2875d81..b898ab3 100644
--- a/crates/moe/src/expertise_macros.rs
+++ b/crates/moe/src/expertise_macros.rs
@@ -30,16 +30,14 @@ macro_rules! compute_error {
             f64::INFINITY // not enough points => huge error
         } else {
             for (gp, valid) in $dataset.iter_fold(n_fold, |train| {
-                let gp = params
-                    .clone()
-                    .kpls_dim($self.kpls_dim())
-                    .fit(&train)
-                    .unwrap();
+                let gp = params.clone().kpls_dim($self.kpls_dim()).fit(&train);
                 trace!("GP trained");
                 gp
             }) {
-                let pred = gp.predict(valid.records()).unwrap();
-                let error = (valid.targets() - pred).norm_l2();
+                let error = match gp.and_then(|gp| gp.predict(valid.records())) {
+                    Ok(pred) => (valid.targets() - pred).norm_l2(),
+                    Err(_) => f64::INFINITY, // model can not be trained => huge error
+                };
                 trace!("Prediction error = {error}");
                 errors.push(error);
             }
-- 
2.43.0


From 021806270abc1ee6729ce5959d60addd160e137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 28/66] fix: refuse inconsistent mixture parameters with an
 error

---
 crates/moe/src/algorithm.rs  | 7 ++++++-
 crates/moe/src/parameters.rs | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 104cc17..44e74f0 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -250,7 +250,12 @@ impl GpMixtureValidParams<f64> {
                 .enumerate()
                 .min_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Equal))
                 .map(|(index, _)| index)
-                .unwrap();
+                .ok_or_else(|| {
+                    MoeError::ExpertError(
+                        "At least one regression and one correlation model should be allowed"
+                            .to_string(),
+                    )
+                })?;
             (map_error[argmin].0.clone(), Some(map_error[argmin].1))
         };
         debug!("after Find best expert");
diff --git a/crates/moe/src/parameters.rs b/crates/moe/src/parameters.rs
index 996da22..73ddaa3 100644
--- a/crates/moe/src/parameters.rs
+++ b/crates/moe/src/parameters.rs
@@ -352,11 +352,11 @@ impl<F: Float> ParamGuard for GpMixtureParams<F> {
         } else if let NbClusters::Fixed { nb } = self.0.n_clusters
             && nb != self.0.theta_tunings.len()
         {
-            panic!(
+            return Err(MoeError::InvalidValueError(format!(
                 "Number of clusters (={}) and theta init size (={}) not compatible, should be equal",
                 nb,
                 self.0.theta_tunings.len()
-            );
+            )));
         }
         Ok(&self.0)
     }
-- 
2.43.0


From 12020ad09f167e8e68002c400b6551dae67a6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 29/66] fix: GP training with one restart panicked when a
 hyperparameter is fixed (empty sampling range)

---
 crates/gp/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index b5c8a66..1528032 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -42,7 +42,7 @@ pub(crate) fn prepare_multistart<F: Float>(
         std::cmp::Ordering::Equal => {
             // Use a seed here for reproducibility (see below)
             let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
+            let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..=*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
         std::cmp::Ordering::Greater => {
-- 
2.43.0


From 761bf6b310d8fb08946cb045311f39b2749a387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 30/66] fix: variance gradients of smooth mixtures panicked or
 mixed up clusters and components

---
 crates/moe/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 44e74f0..6003cb8 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -786,7 +786,7 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let term2 = (p.insert_axis(Axis(1)).to_owned() * pprime * preds).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -878,7 +878,7 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let var_term2 = (p.insert_axis(Axis(1)).to_owned() * pprime * vars).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From 00a9b6f7ef67a38c58e167cbef97324af3da2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 31/66] fix: seed of sparse experts was drawn as an option,
 half of the generators gave irreproducible inducing points

---
 crates/moe/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6003cb8..252332f 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -332,10 +332,10 @@ impl GpMixtureValidParams<f64> {
                         }
                     };
                 let mut expert_params = best_expert_params?;
-                let seed = self.rng().r#gen();
+                let seed = self.rng().r#gen::<u64>();
                 debug!("Theta tuning = {:?}", self.theta_tunings());
                 expert_params.sparse_method(*sparse_method);
-                expert_params.seed(seed);
+                expert_params.seed(Some(seed));
                 expert_params.n_start(self.n_start());
                 expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-- 
2.43.0


From 75af505706c1ce186660f93eb479c7679218b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 32/66] fix: refuse to make more clusters than points with an
 error

---
 crates/moe/src/algorithm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 252332f..c5092fd 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -117,6 +117,13 @@ impl GpMixtureValidParams<f64> {
             self.gmx().unwrap().clone()
         } else {
             trace!("GMM training...");
+            if dataset.nsamples() < n_clusters {
+                return Err(MoeError::ClusteringError(format!(
+                    "Not enough points to make {} clusters, got {}",
+                    n_clusters,
+                    dataset.nsamples()
+                )));
+            }
             let gmm = GaussianMixtureModel::params(n_clusters)
                 .n_runs(20)
                 .with_rng(self.rng())
-- 
2.43.0


From dc0cfdfde5b4831fa2eeb3da0afc197c59070683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 33/66] fix: KPLS training with as many components as points
 returned NaN rotations and panicked

---
 crates/gp/src/algorithm.rs        | 11 +++++++++++
 crates/gp/src/sparse_algorithm.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 561eef0..c8ad212 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -749,6 +749,17 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
             )));
         }
 
+        // PLS breaks down when there are not enough points to get the components
+        if let Some(d) = self.kpls_dim()
+            && *d >= x.nrows()
+        {
+            return Err(GpError::InvalidValueError(format!(
+                "Dimension reduction {} should be smaller than the number of training points {}",
+                d,
+                x.nrows()
+            )));
+        }
+
         let dim = if let Some(n_components) = self.kpls_dim() {
             *n_components
         } else {
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 4bc0d49..5760c23 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -439,6 +439,17 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
             )));
         }
 
+        // PLS breaks down when there are not enough points to get the components
+        if let Some(d) = self.kpls_dim()
+            && *d >= x.nrows()
+        {
+            return Err(GpError::InvalidValueError(format!(
+                "Dimension reduction {} should be smaller than the number of training points {}",
+                d,
+                x.nrows()
+            )));
+        }
+
         let xtrain = x;
         let ytrain = y;
 
-- 
2.43.0


From 22641b5a16dea4885d53be07c1260ef4a9c167a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 34/66] fix: folding of a variable placed after an enum read
 the wrong columns when preceded by several enums levels

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..e896275 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -86,7 +86,7 @@ pub(crate) fn fold_with_enum_index<F: Float>(
             unfold_index += 1;
         }
         XType::Enum(v) => {
-            let xenum = x.slice(s![.., j..j + v]);
+            let xenum = x.slice(s![.., unfold_index..unfold_index + v]);
             let argmaxx = xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap()));
             col.assign(&argmaxx);
             unfold_index += v;
-- 
2.43.0


From f77330a185a9f9ba996936ad2e9eb71906a15fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 35/66] fix: unfolding of a variable placed after an enum read
 the wrong column

---
 crates/ego/src/gpmix/mixint.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index e896275..67c26f2 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -121,9 +121,7 @@ pub(crate) fn unfold_with_enum_mask(
     let mut unfold_index = 0;
     xtypes.iter().enumerate().for_each(|(i, s)| match s {
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
-            xunfold
-                .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+            xunfold.column_mut(unfold_index).assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From 32e1d6b91086267be900f6e9a99ddc49d9fa83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 36/66] fix: Predict trait of mixed-integer mixtures ignored
 the types of variables

---
 crates/ego/src/gpmix/mixint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 67c26f2..b9b76a0 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -751,7 +751,8 @@ impl<D: Data<Elem = f64>> PredictInplace<ArrayBase<D, Ix2>, Array1<f64>> for Mix
             "The number of data points must match the number of output targets."
         );
 
-        let values = self.moe.predict(x).expect("MixintGpMixture prediction");
+        let values =
+            GpSurrogate::predict(self, &x.view()).expect("MixintGpMixture prediction");
         *y = values;
     }
 
-- 
2.43.0


From 67ea776f084685c8d8d85b381141a774ce827243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 37/66] fix: save and load of mixed-integer mixtures panicked
 instead of reporting errors

---
 crates/ego/src/gpmix/mixint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index b9b76a0..fa8acad 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -620,7 +620,7 @@ impl GpSurrogate for MixintGpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> egobox_moe::Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
@@ -639,7 +639,9 @@ impl MixintGpMixture {
     pub fn load(path: &str, format: GpFileFormat) -> Result<Box<MixintGpMixture>> {
         let data = fs::read(path)?;
         let moe = match format {
-            GpFileFormat::Json => serde_json::from_slice(&data).unwrap(),
+            GpFileFormat::Json => {
+                serde_json::from_slice(&data).map_err(MoeError::SaveJsonError)?
+            }
             GpFileFormat::Binary => {
                 bincode::serde::decode_from_slice(&data, bincode::config::standard())
                     .map(|(surrogate, _)| surrogate)?
-- 
2.43.0


From 2db25f163bf847ab88e5f40c08b744119e560e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 38/66] fix: training of mixed-integer mixtures on given
 clusters panicked instead of returning an error

---
 crates/ego/src/gpmix/mixint.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index fa8acad..ed24be9 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -382,8 +382,7 @@ impl MixintGpMixtureValidParams {
                 .surrogate_builder
                 .clone()
                 .check_ref()?
-                .train_on_clusters(&xcast, &yt.to_owned(), clustering)
-                .unwrap(),
+                .train_on_clusters(&xcast, &yt.to_owned(), clustering)?,
             xtypes: self.xtypes.clone(),
             work_in_folded_space: self.work_in_folded_space,
             training_data: (xt.to_owned(), yt.to_owned()),
-- 
2.43.0


From 7a5c960d956a27ea314136f595fbd9e214d2deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 39/66] fix: variance gradients panicked when the trend is
 nearly collinear

---
 crates/gp/src/algorithm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c8ad212..6e5f148 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -532,10 +532,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         // A = f(x)^t - r(x, X)^t . R^-1 . F(X)   -> (1 x m)
         let a_mat = f_x.t().to_owned() - r.t().dot(&inv_kf);
 
-        // B = F(X)^t . R^-1 . F(X)
-        let b_mat = f_mean.t().dot(&inv_kf);
-        // rho3 = Bc
-        let rho3 = b_mat.cholesky().unwrap();
+        // B = F(X)^t . R^-1 . F(X) = Ft^t . Ft where Ft = Rc^-1 . F(X) = Q . G, hence B = G^t . G
+        // rho3 = Bc (B is not factorized as its condition number is the square of the one of Ft)
+        let rho3 = self.inner_params.ft_qr_r.t();
         // inv_bat = Bc^-1 . A^t
         let inv_bat = rho3.solve_triangular(&a_mat.t(), UPLO::Lower).unwrap();
         // D = Bc^t-1 . Bc^-1 . A^t = B^-1 . A^t
-- 
2.43.0


From 3fd0b8a75c96756403c90fc557df997db1c36c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 40/66] fix: KPLS training panicked when fewer components than
 asked can be extracted from training data

---
 crates/gp/src/algorithm.rs        | 30 +++++++++++++++++---------
 crates/gp/src/sparse_algorithm.rs | 35 ++++++++++++++++++++++---------
 crates/gp/src/utils.rs            | 28 +++++++++++++++++++++++++
 3 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 6e5f148..3ab5a81 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -2,7 +2,7 @@ use crate::errors::{GpError, Result};
 use crate::mean_models::*;
 use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::parameters::{GpParams, GpValidParams};
-use crate::utils::{DiffMatrix, NormalizedData, pairwise_differences};
+use crate::utils::{DiffMatrix, NormalizedData, count_pls_components, pairwise_differences};
 use crate::{ThetaTuning, correlation_models::*};
 
 use linfa::dataset::{WithLapack, WithoutLapack};
@@ -796,15 +796,25 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let mut w_star = Array2::eye(x.ncols());
         if let Some(n_components) = self.kpls_dim() {
             let ds = Dataset::new(x.to_owned(), y.to_owned());
-            w_star = PlsRegression::params(*n_components).fit(&ds).map_or_else(
-                |e| match e {
-                    linfa_pls::PlsError::PowerMethodConstantResidualError() => {
-                        Ok(Array2::zeros((x.ncols(), *n_components)))
-                    }
-                    err => Err(err),
-                },
-                |v| Ok(v.rotations().0.to_owned()),
-            )?;
+            // PLS breaks down when there are fewer components than asked
+            w_star = match count_pls_components(&x, &y, *n_components) {
+                0 => Array2::zeros((x.ncols(), *n_components)),
+                n if n < *n_components => {
+                    return Err(GpError::InvalidValueError(format!(
+                        "Dimension reduction {n_components} should not be greater than {n}, the number of \
+                            components which can be extracted from training data"
+                    )));
+                }
+                _ => PlsRegression::params(*n_components).fit(&ds).map_or_else(
+                    |e| match e {
+                        linfa_pls::PlsError::PowerMethodConstantResidualError() => {
+                            Ok(Array2::zeros((x.ncols(), *n_components)))
+                        }
+                        err => Err(err),
+                    },
+                    |v| Ok(v.rotations().0.to_owned()),
+                )?,
+            };
         };
         let x_distances = DiffMatrix::new(&xtrain.data);
         let sums = x_distances
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 5760c23..d76eca5 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -2,7 +2,12 @@ use crate::ThetaTuning;
 use crate::errors::{GpError, Result};
 use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::sparse_parameters::{Inducings, ParamTuning, SgpParams, SgpValidParams, SparseMethod};
-use crate::{GpSamplingMethod, correlation_models::*, sample, utils::pairwise_differences};
+use crate::{
+    GpSamplingMethod,
+    correlation_models::*,
+    sample,
+    utils::{count_pls_components, pairwise_differences},
+};
 use finitediff::ndarr;
 use linfa::prelude::{Dataset, DatasetBase, Fit, Float, PredictInplace};
 use linfa_linalg::{cholesky::*, triangular::*};
@@ -456,15 +461,25 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         let mut w_star = Array2::eye(x.ncols());
         if let Some(n_components) = self.kpls_dim() {
             let ds = Dataset::new(xtrain.to_owned(), ytrain.to_owned());
-            w_star = PlsRegression::params(*n_components).fit(&ds).map_or_else(
-                |e| match e {
-                    linfa_pls::PlsError::PowerMethodConstantResidualError() => {
-                        Ok(Array2::zeros((x.ncols(), *n_components)))
-                    }
-                    err => Err(err),
-                },
-                |v| Ok(v.rotations().0.to_owned()),
-            )?;
+            // PLS breaks down when there are fewer components than asked
+            w_star = match count_pls_components(xtrain, &ytrain, *n_components) {
+                0 => Array2::zeros((x.ncols(), *n_components)),
+                n if n < *n_components => {
+                    return Err(GpError::InvalidValueError(format!(
+                        "Dimension reduction {n_components} should not be greater than {n}, the number of \
+                            components which can be extracted from training data"
+                    )));
+                }
+                _ => PlsRegression::params(*n_components).fit(&ds).map_or_else(
+                    |e| match e {
+                        linfa_pls::PlsError::PowerMethodConstantResidualError() => {
+                            Ok(Array2::zeros((x.ncols(), *n_components)))
+                        }
+                        err => Err(err),
+                    },
+                    |v| Ok(v.rotations().0.to_owned()),
+                )?,
+            };
         };
 
         let mut rng = match self.seed() {
diff --git a/crates/gp/src/utils.rs b/crates/gp/src/utils.rs
index 734a8f7..a93ba9a 100644
--- a/crates/gp/src/utils.rs
+++ b/crates/gp/src/utils.rs
@@ -53,6 +53,34 @@ pub fn normalize<F: Float>(
     (xnorm, x_mean, x_std)
 }
 
+/// Number of components which can be extracted by partial least squares from data (x, y), up to `n_max`.
+/// There are fewer than the dimension of `x` when the deflated inputs have no covariance left with the output.
+pub fn count_pls_components<F: Float>(
+    x: &ArrayBase<impl Data<Elem = F>, Ix2>,
+    y: &ArrayBase<impl Data<Elem = F>, Ix2>,
+    n_max: usize,
+) -> usize {
+    let norm2 = |a: &Array2<F>| a.fold(F::zero(), |acc, v| acc + *v * *v);
+    let (mut x, _, _) = normalize(x);
+    let (mut y, _, _) = normalize(y);
+    let tol = F::cast(x.len()) * F::epsilon();
+    let tol = tol * tol * norm2(&x) * norm2(&y);
+    for n in 0..n_max {
+        let w = x.t().dot(&y);
+        let w_norm2 = norm2(&w);
+        if w_norm2 <= tol {
+            return n;
+        }
+        let t = x.dot(&(w / w_norm2.sqrt()));
+        let t_norm2 = norm2(&t);
+        let x_loadings = t.t().dot(&x) / t_norm2;
+        let y_loadings = t.t().dot(&y) / t_norm2;
+        x = x - t.dot(&x_loadings);
+        y = y - t.dot(&y_loadings);
+    }
+    n_max
+}
+
 /// A structure to retain absolute differences computation used to compute covariance matrix
 #[derive(Debug)]
 pub struct DiffMatrix<F: Float> {
-- 
2.43.0


From e6be6bbc26561d0d3f1c75133aca09bc995f51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 41/66] fix: log EI and its gradient were NaN far from the
 current best (erfcx overflow)

---
 crates/ego/src/utils/logei_helper.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/utils/logei_helper.rs b/crates/ego/src/utils/logei_helper.rs
index 6dddd1f..7f1c6d8 100644
--- a/crates/ego/src/utils/logei_helper.rs
+++ b/crates/ego/src/utils/logei_helper.rs
@@ -4,7 +4,9 @@ use libm::{erfc, exp, expm1, log, log1p};
 const INV_SQRT_2: f64 = 0.7071067811865475;
 const LOG_2PI_OVER_2: f64 = 0.9189385332046727; // log(2π)/2
 const LOG_PI_OVER_2_ALL_OVER_2: f64 = 0.2257913526447274; // log(π/2)/2
-const INV_SQRT_EPSILON: f64 = 1.0 / 1e-6;
+/// Below this value, the asymptotic expansion is used as erfcx computation overflows (and then
+/// log1mexp and its derivative suffer from cancellation)
+const ASYMPTOTIC_LIMIT: f64 = -25.;
 
 fn erfcx(u: f64) -> f64 {
     exp(u * u) * erfc(u)
@@ -19,17 +21,30 @@ fn log1mexp(x: f64) -> f64 {
     }
 }
 
+/// Asymptotic expansion of `(pdf(u) + u * cdf(u)) * u^2 / pdf(u) - 1` when u tends to -infinity:
+/// -3/u^2 + 15/u^4 - 105/u^6 + ... together with its derivative wrt u
+fn asymptotic_series(u: f64) -> (f64, f64) {
+    let inv_u2 = 1. / (u * u);
+    let (mut val, mut deriv, mut term) = (0., 0., 1.);
+    for k in 1..=8 {
+        term *= -((2 * k + 1) as f64) * inv_u2;
+        val += term;
+        deriv += -((2 * k) as f64) * term / u;
+    }
+    (val, deriv)
+}
+
 pub fn log_ei_helper(u: f64) -> f64 {
     if u > -1.0 {
         log(norm_pdf(u) + u * norm_cdf(u))
     } else {
         let log_phi_u = -0.5 * u * u - LOG_2PI_OVER_2;
 
-        let log_term = if u > -INV_SQRT_EPSILON {
+        let log_term = if u > ASYMPTOTIC_LIMIT {
             let w = log(erfcx(-INV_SQRT_2 * u) * u.abs()) + LOG_PI_OVER_2_ALL_OVER_2;
             log1mexp(w)
         } else {
-            -2.0 * log(u.abs())
+            -2.0 * log(u.abs()) + log1p(asymptotic_series(u).0)
         };
 
         log_phi_u + log_term
@@ -64,10 +79,11 @@ pub fn d_log_ei_helper(u: f64) -> f64 {
     } else {
         let d_log_phi_u = -u;
 
-        let d_log_term = if u > -INV_SQRT_EPSILON {
+        let d_log_term = if u > ASYMPTOTIC_LIMIT {
             log1mexp_w_derivative(u)
         } else {
-            -2. / u
+            let (val, deriv) = asymptotic_series(u);
+            -2. / u + deriv / (1. + val)
         };
 
         d_log_phi_u + d_log_term
-- 
2.43.0


From fe4a093f533194c84710a4a6b8eb60be2d63e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 42/66] fix: LogEI ignored the standard deviation weight

---
 crates/ego/src/criteria/ei.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/criteria/ei.rs b/crates/ego/src/criteria/ei.rs
index 39d7b4c..f2fb191 100644
--- a/crates/ego/src/criteria/ei.rs
+++ b/crates/ego/src/criteria/ei.rs
@@ -108,7 +108,7 @@ impl InfillCriterion for LogExpectedImprovement {
         x: &[f64],
         obj_model: &dyn MixtureGpSurrogate,
         fmin: f64,
-        _sigma_weight: Option<f64>,
+        sigma_weight: Option<f64>,
         _scale: Option<f64>,
     ) -> f64 {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
@@ -119,7 +119,8 @@ impl InfillCriterion for LogExpectedImprovement {
                     f64::MIN
                 } else {
                     let pred = p[0];
-                    let sigma = s[0].sqrt();
+                    let k = sigma_weight.unwrap_or(1.0);
+                    let sigma = k * s[0].sqrt();
                     let u = (fmin - pred) / sigma;
                     log_ei_helper(u) + sigma.ln()
                 }
@@ -135,7 +136,7 @@ impl InfillCriterion for LogExpectedImprovement {
         x: &[f64],
         obj_model: &dyn MixtureGpSurrogate,
         fmin: f64,
-        _sigma_weight: Option<f64>,
+        sigma_weight: Option<f64>,
         _scale: Option<f64>,
     ) -> Array1<f64> {
         let pt = ArrayView::from_shape((1, x.len()), x).unwrap();
@@ -147,13 +148,14 @@ impl InfillCriterion for LogExpectedImprovement {
                 } else {
                     let pred = p[0];
                     let diff_y = fmin - pred;
-                    let sigma = s[0].sqrt();
+                    let k = sigma_weight.unwrap_or(1.0);
+                    let sigma = k * s[0].sqrt();
                     let arg = diff_y / sigma;
 
                     let (y_prime, var_prime) = obj_model.predict_valvar_gradients(&pt).unwrap();
                     let y_prime = y_prime.row(0);
                     let sig_2_prime = var_prime.row(0);
-                    let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
+                    let sig_prime = sig_2_prime.mapv(|v| k * k * v / (2. * sigma));
 
                     let arg_prime = y_prime.mapv(|v| v / (-sigma))
                         - diff_y.to_owned() * sig_prime.mapv(|v| v / (sigma * sigma));
-- 
2.43.0


From 6511972f21378439bfe123bb80b5db37cfda9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 43/66] fix: probability of feasibility gradient was wrong with
 a non-zero constraint tolerance

---
 crates/ego/src/utils/cstr_pof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 159439c..4640d38 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -40,7 +40,7 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
                 let sig_2_prime = var_prime.row(0);
                 let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
                 let arg_prime =
-                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * pred / (sigma * sigma));
+                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * (pred - cstr_tol) / (sigma * sigma));
                 norm_pdf(arg) * arg_prime.to_owned()
             }
         }
-- 
2.43.0


From 046cb6a5cd1c54e170556043bb0748d11b193aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 44/66] fix: upper trust bound gradient used the first
 component of the variance gradient for all components

---
 crates/ego/src/solver/solver_computations.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..a729056 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -237,13 +237,12 @@ where
         if let Some(grad) = gradient {
             let (pred_grad, var_grad) = cstr_model.predict_valvar_gradients(&x.view()).unwrap();
             let sigma_prime = if sigma < f64::EPSILON {
-                0.
+                Array1::zeros(var_grad.ncols())
             } else {
-                var_grad[[0, 0]] / (2. * sigma)
+                var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
-            let grd = pred_grad
-                .row(0)
-                .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
+            let grd = (&pred_grad.row(0) + &(sigma_prime * CSTR_DOUBT))
+                .mapv(|v| v / scale_cstr)
                 .to_vec();
             let grd_coop = grd
                 .iter()
-- 
2.43.0


From dc7310695a7cdd1ac6b5997e7a3f4b21f570acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 45/66] fix: infill objective gradient ignored the standard
 deviation weight used by its value

---
 crates/ego/src/solver/solver_computations.rs | 44 +++++++++++++++-----
 crates/ego/src/solver/solver_infill_optim.rs |  1 +
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index a729056..50de3e4 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -381,13 +381,16 @@ where
         fmin: f64,
         scale: f64,
         scale_ic: f64,
+        sigma_weight: f64,
     ) -> Vec<f64> {
         let x_f = x.to_vec();
-        let grad =
-            -(self
-                .config
-                .infill_criterion
-                .grad(&x_f, obj_model, fmin, None, Some(scale_ic)));
+        let grad = -(self.config.infill_criterion.grad(
+            &x_f,
+            obj_model,
+            fmin,
+            Some(sigma_weight),
+            Some(scale_ic),
+        ));
         (grad / scale).to_vec()
     }
 
@@ -435,16 +438,30 @@ where
         sigma_weight: f64,
     ) -> Vec<f64> {
         if cstr_models.is_empty() {
-            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic)
+            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-                Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                Array1::from_vec(self.eval_grad_infill_obj(
+                    x,
+                    obj_model,
+                    fmin,
+                    scale,
+                    scale_ic,
+                    sigma_weight,
+                ))
             } else {
                 // when no feasible point is found, make the infill criterion gradient neutral factor
                 if self.config.infill_criterion.name() == "LogEI" {
                     Array1::zeros(x.len())
                 } else {
-                    Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                    Array1::from_vec(self.eval_grad_infill_obj(
+                        x,
+                        obj_model,
+                        fmin,
+                        scale,
+                        scale_ic,
+                        sigma_weight,
+                    ))
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
@@ -454,9 +471,14 @@ where
                 let (infill, infill_grad) = if feasibility {
                     (
                         self.eval_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight),
-                        Array1::from_vec(
-                            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic),
-                        ),
+                        Array1::from_vec(self.eval_grad_infill_obj(
+                            x,
+                            obj_model,
+                            fmin,
+                            scale,
+                            scale_ic,
+                            sigma_weight,
+                        )),
                     )
                 } else {
                     // when no feasible point is found, make the grad infill criterion value neutral factor
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..37e1b53 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -110,6 +110,7 @@ where
                                 *fmin,
                                 *scale_infill_obj,
                                 *scale_wb2,
+                                *sigma_weight,
                             )
                         };
                         let g_infill_obj = g_infill_obj
-- 
2.43.0


From 9ad705966d3e592a426029030ce0b53f6a32b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 46/66] fix: LogEI infill objective was flattened by its
 largest magnitude now finite far from the best

---
 crates/ego/src/solver/solver_computations.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 50de3e4..f34a40d 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -342,7 +342,9 @@ where
             }
         }
         let scale = *crit_vals.mapv(|v| v.abs()).max().unwrap_or(&1.0);
-        if scale < 100.0 * f64::EPSILON {
+        if scale < 100.0 * f64::EPSILON || self.config.infill_criterion.name() == "LogEI" {
+            // LogEI is already logarithmic: its largest magnitude is reached where there is nothing
+            // to expect and using it would flatten the criterion where improvement is expected
             1.0
         } else {
             scale
-- 
2.43.0


From 34f34f38f2037ff770b8a0c2c02a0dde86b7fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 47/66] fix: CoEGO gradients were ordered by component index
 instead of the order of active components

---
 crates/ego/src/solver/solver_computations.rs | 21 ++++----------------
 crates/ego/src/solver/solver_infill_optim.rs |  9 +++------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index f34a40d..09c2088 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -206,14 +206,8 @@ where
                 .predict_gradients(&x.view())
                 .unwrap()
                 .row(0)
-                .mapv(|v| v / scale_cstr)
-                .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
+                .mapv(|v| v / scale_cstr);
+            let grd_coop = coego::get_active_x(Axis(0), &grd, active).to_vec();
             grad[..].copy_from_slice(&grd_coop);
         }
         cstr_model.predict(&x.view()).unwrap()[0] / scale_cstr
@@ -241,15 +235,8 @@ where
             } else {
                 var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
-            let grd = (&pred_grad.row(0) + &(sigma_prime * CSTR_DOUBT))
-                .mapv(|v| v / scale_cstr)
-                .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
+            let grd = (&pred_grad.row(0) + &(sigma_prime * CSTR_DOUBT)).mapv(|v| v / scale_cstr);
+            let grd_coop = coego::get_active_x(Axis(0), &grd, active).to_vec();
             grad[..].copy_from_slice(&grd_coop);
         }
         (cstr_val + CSTR_DOUBT * sigma) / scale_cstr
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 37e1b53..fabb5f7 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -113,12 +113,9 @@ where
                                 *sigma_weight,
                             )
                         };
-                        let g_infill_obj = g_infill_obj
-                            .iter()
-                            .enumerate()
-                            .filter(|(i, _)| active.contains(i))
-                            .map(|(_, &g)| g)
-                            .collect::<Vec<_>>();
+                        let g_infill_obj =
+                            coego::get_active_x(Axis(0), &Array1::from_vec(g_infill_obj), &active)
+                                .to_vec();
                         grad[..].copy_from_slice(&g_infill_obj);
                     }
                     if self.config.cstr_infill {
-- 
2.43.0


From 702df9778130b3c56e739ca37a6f81778b3adfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 48/66] Revert "fix: folding of a variable placed after an enum
 read the wrong columns when preceded by several enums levels"

This reverts commit 22641b5a16dea4885d53be07c1260ef4a9c167a0.
---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index ed24be9..fb3873c 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -86,7 +86,7 @@ pub(crate) fn fold_with_enum_index<F: Float>(
             unfold_index += 1;
         }
         XType::Enum(v) => {
-            let xenum = x.slice(s![.., unfold_index..unfold_index + v]);
+            let xenum = x.slice(s![.., j..j + v]);
             let argmaxx = xenum.map_axis(Axis(1), |row| F::cast(row.argmax().unwrap()));
             col.assign(&argmaxx);
             unfold_index += v;
-- 
2.43.0


From 52a60724401cfb105b0d31ff43677a34286f9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 49/66] fix: function constraints of a mixed-integer problem
 were given the relaxed unfolded point

---
 crates/ego/src/solver/solver_computations.rs | 58 +++++++++++++++-----
 crates/ego/src/solver/solver_impl.rs         | 17 +-----
 crates/ego/src/solver/trego.rs               | 11 +++-
 3 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 09c2088..e82c168 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -502,6 +502,48 @@ where
             .expect("Objective evaluation")
     }
 
+    /// Evaluate a constraint given as function at the given x point
+    /// together with its gradient if required
+    pub(crate) fn eval_fcstr(
+        &self,
+        cstr: &impl CstrFn,
+        x: &[f64],
+        gradient: Option<&mut [f64]>,
+        params: &mut InfillObjData<f64>,
+    ) -> f64 {
+        if self.config.discrete() {
+            // We have to cast x to folded space as EgorSolver
+            // works internally in the continuous space while
+            // the constraint function expects discrete variable in folded space
+            let xary = ArrayView2::from_shape((1, x.len()), x).unwrap();
+            let xuser = to_discrete_space(&self.config.xtypes, &xary);
+            let xuser = xuser.row(0).to_vec();
+            if let Some(gradient) = gradient {
+                let mut grad = vec![0.; xuser.len()];
+                let val = cstr(&xuser, Some(&mut grad), params);
+                // Enum variables are unfolded in several components
+                let mut i = 0;
+                for (xtype, g) in self.config.xtypes.iter().zip(grad) {
+                    match xtype {
+                        XType::Enum(n) => {
+                            gradient[i..i + n].fill(0.);
+                            i += n;
+                        }
+                        _ => {
+                            gradient[i] = g;
+                            i += 1;
+                        }
+                    }
+                }
+                val
+            } else {
+                cstr(&xuser, None, params)
+            }
+        } else {
+            cstr(x, gradient, params)
+        }
+    }
+
     /// Evaluate the constraints given as function at given x points
     pub fn eval_fcstrs(
         &self,
@@ -516,21 +558,7 @@ where
             .for_each(|mut r, xi| {
                 let cstr_vals = &fcstrs
                     .iter()
-                    .map(|cstr| {
-                        let xuser = if self.config.discrete() {
-                            let xary = xi.to_owned().insert_axis(Axis(0));
-                            // We have to cast x to folded space as EgorSolver
-                            // works internally in the continuous space while
-                            // the constraint function expects discrete variable in folded space
-                            to_discrete_space(&self.config.xtypes, &xary)
-                                .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
-                        } else {
-                            xi.to_vec()
-                        };
-                        cstr(&xuser, None, &mut unused)
-                    })
+                    .map(|cstr| self.eval_fcstr(cstr, &xi.to_vec(), None, &mut unused))
                     .collect::<Array1<_>>();
                 r.assign(cstr_vals)
             });
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..0e9d53f 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use crate::errors::{EgoError, Result};
 use crate::find_best_result_index;
-use crate::gpmix::mixint::{as_continuous_limits, to_discrete_space};
+use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
@@ -722,20 +722,7 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            let x = if self.config.discrete() {
-                                let xary =
-                                    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
-                                // We have to cast x to folded space as EgorSolver
-                                // works internally in the continuous space while
-                                // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
-                                    .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
-                            } else {
-                                x
-                            };
-                            cstr(x, gradient, params) / scale_fc
+                            self.eval_fcstr(cstr, x, gradient, params) / scale_fc
                         }
                     })
                     .collect::<Vec<_>>();
diff --git a/crates/ego/src/solver/trego.rs b/crates/ego/src/solver/trego.rs
index e65b1fe..8b57d8f 100644
--- a/crates/ego/src/solver/trego.rs
+++ b/crates/ego/src/solver/trego.rs
@@ -118,10 +118,19 @@ where
             sub_rng,
         );
 
+        let cstr_funcs = fcstrs
+            .iter()
+            .map(|cstr| {
+                |x: &[f64], gradient: Option<&mut [f64]>, params: &mut InfillObjData<f64>| -> f64 {
+                    self.eval_fcstr(cstr, x, gradient, params)
+                }
+            })
+            .collect::<Vec<_>>();
+
         let infill_optpb = InfillOptProblem {
             obj_model: obj_model.as_ref(),
             cstr_models,
-            cstr_funcs: fcstrs,
+            cstr_funcs: &cstr_funcs,
             cstr_tols: &cstr_tols,
             infill_data,
             actives: &actives,
-- 
2.43.0


From e93a199206a4f1dac8b6dea86eb04a9825fc023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 50/66] fix: gradients of function constraints were not scaled
 as their values

---
 crates/ego/src/solver/solver_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 0e9d53f..7f5f9cc 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -719,10 +719,14 @@ where
                     .map(|(i, cstr)| {
                         let scale_fc = scale_fcstr[i];
                         move |x: &[f64],
-                              gradient: Option<&mut [f64]>,
+                              mut gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            self.eval_fcstr(cstr, x, gradient, params) / scale_fc
+                            let val = self.eval_fcstr(cstr, x, gradient.as_deref_mut(), params);
+                            if let Some(grad) = gradient {
+                                grad.iter_mut().for_each(|g| *g /= scale_fc);
+                            }
+                            val / scale_fc
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 8c26a2818e0b2f20d8ec61e15680ee13c31b14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 51/66] fix: function constraints were given only the active
 components with CoEGO

---
 crates/ego/src/solver/solver_infill_optim.rs | 40 +++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index fabb5f7..916f2b3 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -193,13 +193,38 @@ where
                     .collect()
             };
 
+            // Function constraints expect all the components of x
+            let active_cstr_funcs: Vec<_> = cstr_funcs
+                .iter()
+                .map(|cstr| {
+                    let active = &active;
+                    move |x: &[f64],
+                          gradient: Option<&mut [f64]>,
+                          params: &mut InfillObjData<f64>|
+                          -> f64 {
+                        let mut xcoop = params.xbest.clone();
+                        coego::set_active_x(&mut xcoop, active, x);
+                        if let Some(grad) = gradient {
+                            let mut grad_coop = vec![0.; xcoop.len()];
+                            let val = cstr(&xcoop, Some(&mut grad_coop), params);
+                            let grad_coop =
+                                coego::get_active_x(Axis(0), &Array1::from_vec(grad_coop), active);
+                            grad[..].copy_from_slice(&grad_coop.to_vec());
+                            val
+                        } else {
+                            cstr(&xcoop, None, params)
+                        }
+                    }
+                })
+                .collect();
+
             // We merge metamodelized constraints and function constraints
             let mut cstr_refs: Vec<_> = cstrs.iter().map(|c| c.as_ref()).collect();
-            let cstr_funcs = cstr_funcs
-                .iter()
-                .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
-                .collect::<Vec<_>>();
-            cstr_refs.extend(cstr_funcs.clone());
+            cstr_refs.extend(
+                active_cstr_funcs
+                    .iter()
+                    .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync)),
+            );
 
             // Limits of activated components
             let xlimits_active = coego::get_active_x(Axis(0), &self.xlimits, &active);
@@ -244,7 +269,10 @@ where
                             obj_model,
                             cstr_models,
                             cstr_tols,
-                            &cstr_funcs,
+                            &cstr_funcs
+                                .iter()
+                                .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
+                                .collect::<Vec<_>>(),
                         );
                         if is_better || i == 0 {
                             if i > 0 {
-- 
2.43.0


From fcb5d749fe1002c41cdeed7fda11be8bfcd46e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 52/66] fix: scaling of a constraint which is zero everywhere
 made it NaN

---
 crates/ego/src/solver/solver_computations.rs | 9 ++++++++-
 crates/ego/src/utils/misc.rs                 | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index e82c168..d206d96 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -185,7 +185,14 @@ where
             let mut scale_fcstr = Array1::zeros(fcstr_values.ncols());
             Zip::from(&mut scale_fcstr)
                 .and(fcstr_values.columns())
-                .for_each(|sc, vals| *sc = *vals.max().unwrap());
+                .for_each(|sc, vals| {
+                    let scale = vals.max().copied().unwrap_or(1.0);
+                    *sc = if scale > 0.0 && scale.is_finite() {
+                        scale
+                    } else {
+                        1.0
+                    };
+                });
             info!("Fonctional constraints scaling is updated to {scale_fcstr}");
             scale_fcstr
         };
diff --git a/crates/ego/src/utils/misc.rs b/crates/ego/src/utils/misc.rs
index 8dacf79..029344a 100644
--- a/crates/ego/src/utils/misc.rs
+++ b/crates/ego/src/utils/misc.rs
@@ -21,7 +21,8 @@ pub fn compute_cstr_scales(
                 .filter(|v| !v.is_infinite()) // filter out infinite values
                 .map(|v| v.abs())
                 .collect();
-            *preds.max().unwrap_or(&1.0)
+            let scale = *preds.max().unwrap_or(&1.0);
+            if scale > 0.0 { scale } else { 1.0 }
         })
         .collect();
     Array1::from_shape_vec(cstr_models.len(), scales).unwrap()
-- 
2.43.0


From bd9fe79b837a4eaac6292f460ff1231198886ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 53/66] fix: tolerances given for surrogate constraints only,
 or for function constraints too, were rejected or led to a panic

---
 crates/ego/src/solver/egor_config.rs |  5 +++--
 crates/ego/src/solver/egor_solver.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/solver/egor_config.rs b/crates/ego/src/solver/egor_config.rs
index 289541c..f7fd362 100644
--- a/crates/ego/src/solver/egor_config.rs
+++ b/crates/ego/src/solver/egor_config.rs
@@ -446,10 +446,11 @@ impl EgorConfig {
         // Check cstr_tol length if any
         if config.n_cstr > 0
             && config.cstr_tol.is_some()
-            && config.cstr_tol.as_ref().unwrap().len() != config.n_cstr
+            && config.cstr_tol.as_ref().unwrap().len() < config.n_cstr
         {
+            // Note: tolerances of function constraints may follow those of the n_cstr constraints
             return Err(crate::EgoError::InvalidConfigError(format!(
-                "EgorConfig invalid: cstr_tol length ({}) does not match n_cstr ({})",
+                "EgorConfig invalid: cstr_tol length ({}) is less than n_cstr ({})",
                 config.cstr_tol.as_ref().unwrap().len(),
                 config.n_cstr
             )));
diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index fa101ec..141a400 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -266,10 +266,16 @@ where
         initial_state.max_iters = self.config.max_iters as u64;
         initial_state.added = doe.nrows();
         initial_state.no_point_added_retries = no_point_added_retries;
-        initial_state.cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::from_elem(
-            self.config.n_cstr + c_data.ncols(),
-            DEFAULT_CSTR_TOL,
-        ));
+        // Complete with default tolerance when tolerances are not given for all constraints
+        initial_state.cstr_tol =
+            Array1::from_elem(self.config.n_cstr + c_data.ncols(), DEFAULT_CSTR_TOL);
+        if let Some(cstr_tol) = self.config.cstr_tol.as_ref() {
+            Zip::indexed(&mut initial_state.cstr_tol).for_each(|i, tol| {
+                if let Some(&t) = cstr_tol.get(i) {
+                    *tol = t;
+                }
+            });
+        }
         initial_state.target_cost = self.config.target;
 
         let best_index = find_best_result_index(&y_data, &c_data, &initial_state.cstr_tol);
-- 
2.43.0


From 7080ef829039bcc2d54c539be8bf6202f0fd0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 54/66] fix: last best iteration was not updated when the first
 added point is the best

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..9fe5a8d 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -458,7 +458,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From 534c09263f67cafeb2ac65e9a036c3f3e868442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 55/66] fix: order of points picked from portfolio was random

---
 crates/ego/src/utils/portfolio.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/portfolio.rs b/crates/ego/src/utils/portfolio.rs
index 92c7b40..f083c45 100644
--- a/crates/ego/src/utils/portfolio.rs
+++ b/crates/ego/src/utils/portfolio.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use linfa::traits::Transformer;
 
@@ -28,7 +28,7 @@ pub fn cluster_as_indices(xdat: &ArrayBase<impl Data<Elem = f64>, Ix2>) -> Vec<u
         .tolerance((xdat.ncols() as f64).sqrt())
         .transform(&xdat.to_owned())
         .unwrap();
-    let mut dict = HashMap::new();
+    let mut dict = BTreeMap::new();
     for (i, c) in clusters.iter().enumerate() {
         match c {
             None => (),
-- 
2.43.0


From 5a63a8cb3d4656ae6de143071561375478dfc730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 56/66] fix: warm start panicked with function constraints

---
 crates/ego/src/solver/egor_solver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index 141a400..ab07470 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -218,7 +218,13 @@ where
                 // split doe in x and y
                 info!("Use specified DOE {} samples", doe.nrows());
                 (
-                    doe.slice(s![.., self.xlimits.nrows()..]).to_owned(),
+                    // values of function constraints may follow in a saved doe
+                    doe.slice(s![
+                        ..,
+                        self.xlimits.nrows()
+                            ..(self.xlimits.nrows() + self.config.n_cstr + 1).min(doe.ncols())
+                    ])
+                    .to_owned(),
                     doe.slice(s![.., ..self.xlimits.nrows()]).to_owned(),
                 )
             }
-- 
2.43.0


From 63fcc361625747bb1704962d2cf760e2a35e295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 57/66] fix: an interruption while saving a checkpoint left it
 unusable

---
 crates/ego/src/utils/hot_start.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/utils/hot_start.rs b/crates/ego/src/utils/hot_start.rs
index 3d75cee..6e119e0 100644
--- a/crates/ego/src/utils/hot_start.rs
+++ b/crates/ego/src/utils/hot_start.rs
@@ -93,12 +93,16 @@ where
             std::fs::create_dir_all(&self.directory)?
         }
         let fname = self.directory.join(&self.filename);
-        let mut file = std::fs::File::create(fname).unwrap();
+        // Write aside then rename, so that an interruption leaves the previous checkpoint usable
+        let tmp_fname = fname.with_extension("tmp");
+        let mut file = std::fs::File::create(&tmp_fname)?;
 
         // let bytes = bincode::serde::encode_to_vec((solver, state), bincode::config::standard())?;
         let bytes = serde_json::to_vec(&(solver, state))?;
 
         file.write_all(&bytes)?;
+        drop(file);
+        std::fs::rename(&tmp_fname, &fname)?;
         Ok(())
     }
 
-- 
2.43.0


From 707baa91fb3ced159d6f9e53708dc59ce5599116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 58/66] fix: constraints could be evaluated at NaN points
 (panic with enum variables)

---
 crates/ego/src/solver/solver_infill_optim.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 916f2b3..59e068e 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -160,6 +160,11 @@ where
                             let mut xcoop = xcoop.clone();
                             coego::set_active_x(&mut xcoop, &active, x);
 
+                            // Defensive programming Cobyla may pass NaNs
+                            if xcoop.iter().any(|x| x.is_nan()) {
+                                return f64::INFINITY;
+                            }
+
                             let scale_cstr =
                                 params.scale_cstr.as_ref().expect("constraint scaling")[i];
                             if self.config.cstr_strategy == ConstraintStrategy::MeanConstraint {
@@ -204,6 +209,10 @@ where
                           -> f64 {
                         let mut xcoop = params.xbest.clone();
                         coego::set_active_x(&mut xcoop, active, x);
+                        // Defensive programming Cobyla may pass NaNs
+                        if xcoop.iter().any(|x| x.is_nan()) {
+                            return f64::INFINITY;
+                        }
                         if let Some(grad) = gradient {
                             let mut grad_coop = vec![0.; xcoop.len()];
                             let val = cstr(&xcoop, Some(&mut grad_coop), params);
-- 
2.43.0


From ebd0c9a157a65f8c458411e51e0567990237f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 59/66] fix: last best iteration was wrong when the optimizer
 converged right after an improvement

---
 crates/ego/src/solver/solver_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 7f5f9cc..eff5289 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -507,6 +507,9 @@ where
                 if new_state.no_point_added_retries == 0 {
                     info!("Max number of retries ({}) without adding point", 3);
                     info!("Consider solver has converged");
+                    // No point added at this iteration, hence best is unchanged
+                    new_state.prev_added = new_state.added;
+                    new_state.prev_best_index = state.best_index;
                     return Err(EgoError::NoMorePointToAddError(Box::new(new_state)));
                 }
             } else {
-- 
2.43.0


From 7331d0c7867be831d580c991445e9df2813f0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 60/66] fix: suggestions used the probability of feasibility
 even when it is not required

---
 crates/ego/src/solver/solver_impl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index eff5289..1a83b11 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -6,8 +6,8 @@ use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
-    EGOBOX_LOG, EGOR_USE_GP_VAR_PORTFOLIO, find_best_result_index_from, is_feasible,
-    select_from_portfolio, update_data,
+    EGOBOX_LOG, EGOR_USE_GP_VAR_PORTFOLIO, EGOR_USE_MAX_PROBA_OF_FEASIBILITY,
+    find_best_result_index_from, is_feasible, select_from_portfolio, update_data,
 };
 use crate::{DEFAULT_CSTR_TOL, EgorSolver, MAX_POINT_ADDITION_RETRY, ValidEgorConfig};
 use crate::{EgorState, types::*};
@@ -79,7 +79,9 @@ impl<SB: SurrogateBuilder + DeserializeOwned, C: CstrFn> EgorSolver<SB, C> {
         let activity = None;
 
         let best_index = find_best_result_index(y_data, &c_data, &cstr_tol);
-        let feasibility = is_feasible(&y_data.row(best_index), &c_data.row(best_index), &cstr_tol);
+        // As in optimization, proba of feasibility is only used when required
+        let feasibility = std::env::var(EGOR_USE_MAX_PROBA_OF_FEASIBILITY).is_err()
+            || is_feasible(&y_data.row(best_index), &c_data.row(best_index), &cstr_tol);
 
         let (x_dat, _, _, _, _) = self.select_next_points(
             true,
-- 
2.43.0


From ff990d76e3b68eb80b9697eeb70343199fa9d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 61/66] fix: clustering of the optimizer surrogates ignored the
 seed

---
 crates/ego/src/gpmix/mixint.rs       | 5 +++++
 crates/ego/src/gpmix/mod.rs          | 7 +++++++
 crates/ego/src/solver/solver_impl.rs | 3 +++
 crates/ego/src/types.rs              | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index fb3873c..1b32d18 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -480,6 +480,11 @@ impl SurrogateBuilder for MixintGpMixtureParams {
         }
     }
 
+    /// Sets the seed of the random generator used by the clustering
+    fn set_seed(&mut self, seed: u64) {
+        self.0.surrogate_builder.set_seed(seed);
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/gpmix/mod.rs b/crates/ego/src/gpmix/mod.rs
index 16974be..cd38b2f 100644
--- a/crates/ego/src/gpmix/mod.rs
+++ b/crates/ego/src/gpmix/mod.rs
@@ -10,6 +10,8 @@ use egobox_moe::{
 use ndarray::{ArrayView1, ArrayView2};
 
 use linfa::ParamGuard;
+use ndarray_rand::rand::SeedableRng;
+use rand_xoshiro::Xoshiro256Plus;
 
 use crate::Result;
 use crate::{SurrogateBuilder, XType};
@@ -62,6 +64,11 @@ impl SurrogateBuilder for GpMixtureParams<f64> {
         *self = self.clone().n_start(n_start).max_eval(max_eval);
     }
 
+    /// Sets the seed of the random generator used by the clustering
+    fn set_seed(&mut self, seed: u64) {
+        *self = self.clone().with_rng(Xoshiro256Plus::seed_from_u64(seed));
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 1a83b11..774824d 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -138,6 +138,9 @@ where
         builder.set_n_clusters(self.config.gp.n_clusters.clone());
         builder.set_recombination(self.config.gp.recombination);
         builder.set_optim_params(self.config.gp.n_start, self.config.gp.max_eval);
+        if let Some(seed) = self.config.seed {
+            builder.set_seed(seed);
+        }
         let mut model = None;
         let mut best_likelihood = -f64::INFINITY;
 
diff --git a/crates/ego/src/types.rs b/crates/ego/src/types.rs
index c76f254..24a3661 100644
--- a/crates/ego/src/types.rs
+++ b/crates/ego/src/types.rs
@@ -167,6 +167,10 @@ pub trait SurrogateBuilder: Clone + Serialize + Sync {
     /// Set likelihood optimization parameters
     fn set_optim_params(&mut self, n_start: usize, max_eval: usize);
 
+    /// Set the seed of the random generator used by the clustering (reproducibility).
+    /// Default implementation does nothing
+    fn set_seed(&mut self, _seed: u64) {}
+
     /// Train the surrogate with given training dataset (x, y)
     fn train(
         &self,
-- 
2.43.0


From 67c6a10f46955e5314ab9a3726d5e91803429b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 62/66] fix: automatic clustering panicked with fewer than five
 points

---
 crates/moe/src/clustering.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index 0174d7a..255a03e 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -74,6 +74,12 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
     } else {
         max_nb_clusters
     };
+    // Number of folds used for cross validation
+    let nb_folds = 5;
+    if x.nrows() < nb_folds {
+        debug!("Not enough points to find the best number of clusters");
+        return (1, Recombination::Smooth(None));
+    }
     let dataset: DatasetView<f64, f64, Ix1> = DatasetView::new(x.view(), y.view());
     let cv_rng = Xoshiro256Plus::seed_from_u64(rng.clone().r#gen());
 
@@ -143,7 +149,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                 // )
                 // .expect("clustering saved");
 
-                for (train, valid) in dataset.fold(5).into_iter() {
+                for (train, valid) in dataset.fold(nb_folds).into_iter() {
                     debug!("X: {}", Array1::from_iter(valid.records().iter().cloned()));
                     match GpMixtureParams::default()
                         .n_clusters(NbClusters::fixed(n_clusters))
-- 
2.43.0


From 6760cb34c48e2177af590c629b08f662b1b96dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 63/66] fix: training of a gaussian process with a single point
 panicked

---
 crates/gp/src/algorithm.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 3ab5a81..a437741 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -759,6 +759,14 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
             )));
         }
 
+        // Training data are normalized with their standard deviation
+        if x.nrows() < 2 {
+            return Err(GpError::InvalidValueError(format!(
+                "At least two training points are required, got {}",
+                x.nrows()
+            )));
+        }
+
         let dim = if let Some(n_components) = self.kpls_dim() {
             *n_components
         } else {
-- 
2.43.0


From 66d8515fb80f52b9c29b6fe32aea15dc9c2d13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 64/66] fix: get_result and get_result_index of the Python Egor
 failed with constraints (C28)

---
 python/src/egor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 53396ea..813fc2e 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -381,7 +381,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs))
     }
 
@@ -409,7 +409,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         let idx = find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs));
         let x_opt = x_doe.row(idx).to_pyarray(py).into();
         let y_opt = y_doe.row(idx).to_pyarray(py).into();
-- 
2.43.0


From 5193239be758ede58e9ab8a6594681b2e4685829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 65/66] fix: GpMix of the Python module ignored max_eval (C28)

---
 python/src/gp_mix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/gp_mix.rs b/python/src/gp_mix.rs
index bb54946..271c302 100644
--- a/python/src/gp_mix.rs
+++ b/python/src/gp_mix.rs
@@ -227,6 +227,7 @@ impl GpMix {
                 .theta_tunings(&theta_tunings)
                 .kpls_dim(self.gp_config.kpls_dim)
                 .n_start(n_start)
+                .max_eval(self.gp_config.max_eval)
                 .with_rng(rng)
                 .fit(&dataset)
                 .expect("MoE model training")
-- 
2.43.0


From 361c6453e17473561ad018980120ecb5cb3836c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 66/66] fix: hyperparameter tuning settings ignored with an
 automatic number of clusters

---
 crates/ego/src/solver/solver_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 774824d..3a7c2e3 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -172,6 +172,11 @@ where
                         if self.config.coego.activated {
                             log::warn!("Automated clustering not available with CoEGO")
                         }
+                        // The number of clusters is not known yet, same tuning for all of them
+                        builder.set_theta_tunings(&[ThetaTuning::Full {
+                            init: self.config.gp.theta_tuning.init().to_owned(),
+                            bounds: theta_bounds.to_owned(),
+                        }]);
                     }
                     NbClusters::Fixed { nb: _ } => {
                         let theta_tunings = best_theta_inits
-- 
2.43.0

