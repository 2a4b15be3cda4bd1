From 2076fb0cbc8bf152843324e3c523195632b72715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 1/3] fix: honour user-set integration tolerance in
 zero-Matsubara gluon polarizations

The check meant to detect whether the default integration method had been
customized compared the current defaults with themselves, so that the
tolerance set through set_default_tol_integral was always replaced.
---
 qcd-sme/src/consts.rs                         | 10 +++++--
 .../src/low_level/oneloop/thermal/gluon.rs    | 27 ++++++++++---------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..6914e2a 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+// The initial value of TOL_INTEGRAL.
+pub(crate) const INITIAL_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = INITIAL_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,11 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+// The initial value of MAX_ITER_INTEGRAL.
+pub(crate) const INITIAL_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = INITIAL_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..0125fb1 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            INITIAL_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -764,10 +765,10 @@ pub mod zero_matsubara {
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
         pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -775,10 +776,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -786,10 +787,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -797,10 +798,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -808,10 +809,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -819,10 +820,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-- 
2.43.0


From dcced6714d211e920195c83677cb6d975d412c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 2/3] fix: thermal *_w_field_config functions use the
 configuration's number of colors

The quark polarizations carry a factor of 1/nc(); multiplying them by the
configuration's nf left the global number of colors in the result, so that
they were wrong whenever config.nc differed from it.
---
 qcd-sme/build.rs           |  2 +-
 qcd-sme/src/qcd/thermal.rs | 33 ++++++++++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/qcd-sme/build.rs b/qcd-sme/build.rs
index 4ebdef0..76d5b2e 100644
--- a/qcd-sme/build.rs
+++ b/qcd-sme/build.rs
@@ -13,7 +13,7 @@ const CYTHON_HEADER_FILE: &str = "qcd_sme.pxd";
 const INCLUDE_GUARD: &str = "__QCD_SME_H__";
 
 fn main() {
-    println!("cargo::warning=There's a known bug in the *_w_field_config functions: you still have to call qcd_sme::consts::set_number_of_colors(nc) for nc != 3 and nf != 0. This bug also makes the functions not thread-safe with respect to a change of nc. I will eventually fix this but I'm too busy right now.");
+    println!("cargo::warning=There's a known bug in the thermal *_w_field_config functions: they are not thread-safe with respect to a concurrent call to qcd_sme::consts::set_number_of_colors(nc). I will eventually fix this but I'm too busy right now.");
 
     let crate_dir = path::PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let mut target_dir = crate_dir.join("target");
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..1a2e8a0 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -5,7 +5,7 @@ pub mod ghost {
 }
 
 pub mod gluon {
-    use crate::consts::nf;
+    use crate::consts::{nc, nf};
     use crate::low_level::oneloop::thermal::gluon as gluon_thermal_parts;
     use crate::qcd::gluon as gluon_vac;
     use crate::qcd::FieldConfig;
@@ -14,6 +14,9 @@ pub mod gluon {
 
     const PREFACTOR: R = (16. * PI * PI) / 3.;
 
+    // In the *_w_field_config functions the quark contribution is rescaled by
+    // nc() / config.nc since the quark polarization carries a factor of 1 / nc().
+
     pub fn dressing_l_inv_landau<T: Num>(om: T, p: R, m: R, mq: R, beta: R, mu: R, f0: R) -> C {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
@@ -113,7 +116,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
-                ) * (qi.nf as R)
+                ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -140,7 +143,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
-                ) * (qi.nf as R)
+                ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -211,7 +214,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
-                ) * (qi.nf as R)
+                ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -234,7 +237,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
-                ) * (qi.nf as R)
+                ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -368,7 +371,7 @@ pub mod zero_matsubara {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{nc, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_matsubara as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -475,7 +478,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         p, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -501,7 +504,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         p, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -565,7 +568,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -586,7 +589,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -639,7 +642,7 @@ pub mod zero_momentum {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{nc, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_momentum as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -746,7 +749,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         om, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -772,7 +775,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         om, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -837,7 +840,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -859,7 +862,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * ((qi.nf as R) * (nc() as R) / (config.nc as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
-- 
2.43.0


From 63b655a0621571553b69c571eac8b7baf62904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 3/3] fix: is_deconfined_phase: points on a flat stretch of the
 phase boundary are confined

When the temperature matched one of the boundary temperatures the chemical
potentials were compared, although the boundary may contain several points
with the same critical temperature: for the boundary [(0, 0.1), (1, 0.1),
(2, 0.05)] the point (0.5, 0.1), which lies on it, was reported as deconfined.
---
 tc_long_prop/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..13924de 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,14 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate
+    // (read below) and compare temperatures. Note that it is not enough for
+    // the temperature to match one in the phase boundary: the latter may
+    // contain points with equal critical temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0

