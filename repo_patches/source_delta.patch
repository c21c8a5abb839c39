From 7eae47788410cb88fe8153450d7f4fe3b86f178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 1/8] fix: recompute cached terms whenever composition or
 temperature changed

The caches were refreshed only when an input moved by more than 1e-7, yet the
remembered input was updated every time: a slow drift was never noticed, and a
NaN (whose difference never exceeds anything) left the terms poisoned for good.
---
 src/detail.rs   | 4 ++--
 src/gerg2008.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..d98f7e0 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 5c023a5b99df68f3c7646cd2772a466006c13c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 2/8] fix: reject a composition whose sum is not a number

Every comparison with NaN is false, so check() reported such a composition valid.
---
 src/composition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..4f39e8d 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,7 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        if !((self.sum() - 1.0).abs() <= 1.0e-2) {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From 84726ed48cfa7f0c7445353e745eb06eb7775fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 3/8] fix: a failed density solve no longer spoils the next one

A negative density is taken as the caller's initial estimate.  A solve that
failed on a negative pressure or temperature left such a density behind, and a
NaN density was treated as an estimate as well, so the next solve with good
inputs failed or started from garbage.
---
 src/detail.rs   | 10 +++++-----
 src/gerg2008.rs | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..e879f21 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1309,17 +1309,17 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
-            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
-        } else {
+        if self.d <= -EPSILON {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
+        } else {
+            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         }
         let plog = self.p.ln();
         let mut vlog = -self.d.ln();
         for _it in 0..20 {
             if !(-7.0..=100.0).contains(&vlog) {
                 //ierr = 1; herr = "Calculation failed to converge in DETAIL method, ideal gas density returned.";
-                self.d = self.p / RDETAIL / self.t;
+                self.d = (self.p / RDETAIL / self.t).max(0.0); // A negative value would be the next initial estimate
                 return Err(DensityError::IterationFail);
             }
             self.d = (-vlog).exp();
@@ -1340,7 +1340,7 @@ impl Detail {
             }
         }
         //ierr = 1; herr = "Calculation failed to converge in DETAIL method, ideal gas density returned.";
-        self.d = self.p / RDETAIL / self.t;
+        self.d = (self.p / RDETAIL / self.t).max(0.0); // A negative value would be the next initial estimate
         Err(DensityError::IterationFail)
     }
 
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index d98f7e0..8ec95a9 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4294,13 +4294,13 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        if self.d <= -EPSILON {
+            self.d = self.d.abs();
+        } else {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
             }
-        } else {
-            self.d = self.d.abs();
         }
 
         let plog = self.p.ln();
@@ -4313,7 +4313,7 @@ impl Gerg2008 {
                 if nfail > 2 {
                     // Iteration failed (above loop did not find a solution or checks made below indicate possible 2-phase state)
                     //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
-                    self.d = self.p / RGERG / self.t;
+                    self.d = (self.p / RGERG / self.t).max(0.0);
                     return Err(DensityError::IterationFail);
                 }
                 nfail += 1;
@@ -4361,7 +4361,7 @@ impl Gerg2008 {
                             {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
-                                self.d = self.p / RGERG / self.t;
+                                self.d = (self.p / RGERG / self.t).max(0.0);
                             }
                             return Err(DensityError::IterationFail);
                         }
@@ -4372,7 +4372,7 @@ impl Gerg2008 {
         }
         // Iteration failed (above loop did not find a solution or checks made below indicate possible 2-phase state)
         //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
-        self.d = self.p / RGERG / self.t;
+        self.d = (self.p / RGERG / self.t).max(0.0);
         Err(DensityError::IterationFail)
     }
 
-- 
2.43.0


From a864b46ca156bd0ee50bc2567afe66e6d46bb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 4/8] fix: GERG density with iflag > 0 reports success when its
 checks pass

It returned IterationFail for every converged solution.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 8ec95a9..68d5e55 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = (self.p / RGERG / self.t).max(0.0);
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 4cf6fbdc08ee85ba90085e39c7fa95f93d785610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 5/8] fix: the generated C header declared the enumerator Ok
 twice

No C compiler accepts that; enumerators now carry the name of their enum.
---
 build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.rs b/build.rs
index c608adf..9fdb04f 100644
--- a/build.rs
+++ b/build.rs
@@ -13,6 +13,7 @@ fn main() {
     config.autogen_warning = Some(String::from("// Autogenerated header file"));
     config.namespace = Some(String::from("ffi"));
     config.language = cbindgen::Language::C;
+    config.enumeration.prefix_with_name = true; // two enums have an Ok
 
     cbindgen::generate_with_config(crate_dir, config)
         .unwrap()
-- 
2.43.0


From 6d45b79871c9a2db15a30958ccbbb25121213e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 6/8] fix: normalize() must not turn a composition with an
 unusable sum into NaN, inf or zero

An infinite or overflowing sum gave a factor of zero, a subnormal one an infinite
factor, and Ok was returned all the same.  It now reports an error and leaves the
composition untouched.
---
 src/composition.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/composition.rs b/src/composition.rs
index 4f39e8d..e3793d7 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -121,9 +121,8 @@ impl Composition {
     /// ```
     pub fn normalize(&mut self) -> Result<(), CompositionError> {
         let sum = self.sum();
-        if sum > 0.0 {
-            let factor = 1.0 / sum;
-
+        let factor = 1.0 / sum;
+        if sum > 0.0 && factor.is_normal() {
             self.methane *= factor;
             self.nitrogen *= factor;
             self.carbon_dioxide *= factor;
-- 
2.43.0


From a0a7826b9fb20ecc5bfd93fd09dc9ad9e64765d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 7/8] fix: make calculators built by Default as complete as
 those built by new()

Detail::default() and Gerg2008::default() left out the tables that new()
sets up, so a calculator made that way (for instance as a field of a
structure that derives Default) silently returned zeros and NaN.
---
 src/detail.rs   | 10 ++++-----
 src/gerg2008.rs | 58 +++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index e879f21..9061856 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -722,7 +722,7 @@ pub struct Detail {
 
 impl Default for Detail {
     fn default() -> Self {
-        Detail {
+        let mut item = Detail {
             dp_dd_save: 0.0,
             x: [0.0; NC],
             t: 0.0,
@@ -758,16 +758,16 @@ impl Default for Detail {
             csn: [0.0; NTERMS],
             tun: [0.0; NTERMS],
             n0i: [[0.0; 7]; MAXFLDS],
-        }
+        };
+        item.setup();
+        item
     }
 }
 
 impl Detail {
     /// Constructs a new Detail struct
     pub fn new() -> Self {
-        let mut item: Self = Default::default();
-        item.setup();
-        item
+        Self::default()
     }
 
     /// Initialize all the constants and parameters in the DETAIL model.
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 68d5e55..7a5c9ab 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -2350,7 +2350,6 @@ const GTIJ: [[f64; MAXFLDS + 1]; MAXFLDS + 1] = [
 /// // Compressibility factor
 /// assert!((1.175 - gerg_test.z).abs() < 1.0e-3);
 /// ```
-#[derive(Default)]
 pub struct Gerg2008 {
     /// Temperature in K
     pub t: f64,
@@ -2423,12 +2422,63 @@ pub struct Gerg2008 {
     gtij: [[f64; MAXFLDS + 1]; MAXFLDS + 1],
 }
 
+impl Default for Gerg2008 {
+    fn default() -> Self {
+        let mut item = Gerg2008 {
+            t: 0.0,
+            p: 0.0,
+            d: 0.0,
+            z: 0.0,
+            mm: 0.0,
+            dp_dd: 0.0,
+            d2p_dd2: 0.0,
+            d2p_dtd: 0.0,
+            dp_dt: 0.0,
+            u: 0.0,
+            h: 0.0,
+            s: 0.0,
+            cv: 0.0,
+            cp: 0.0,
+            w: 0.0,
+            g: 0.0,
+            jt: 0.0,
+            kappa: 0.0,
+            x: [0.0; NC_GERG + 1],
+            drold: 0.0,
+            trold: 0.0,
+            told: 0.0,
+            trold2: 0.0,
+            xold: [0.0; NC_GERG + 1],
+            a: 0.0,
+            a0: [0.0; 3],
+            ar: [[0.0; 4]; 4],
+            dpddsave: 0.0,
+            taup: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            taupijk: [[0.0; MAXTRMM + 1]; MAXFLDS + 1],
+            coik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            doik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            toik: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            dijk: [[0; MAXTRMM + 1]; MAXTRMM + 1],
+            tijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            cijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            eijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            gijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            nijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            n0i: [[0.0; 7 + 1]; MAXFLDS + 1],
+            bvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            btij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gtij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+        };
+        item.setup();
+        item
+    }
+}
+
 impl Gerg2008 {
     /// Creates a new instance of the Gerg2008 struct.
     pub fn new() -> Self {
-        let mut item: Self = Default::default();
-        item.setup();
-        item
+        Self::default()
     }
 
     fn setup(&mut self) {
-- 
2.43.0


From 4ede79012012e4ae69deda18c6bf3f0ffa929906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 8/8] fix: no density solve converges far below the requested
 pressure

Where pressure is still close to zero on a steep (liquid) branch, the step
in log(P) is below the tolerance although the pressure is nowhere near the
requested one, and the solve reported success there.
---
 src/detail.rs   | 3 ++-
 src/gerg2008.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 9061856..366afaa 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1333,7 +1333,8 @@ impl Detail {
                 dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]
                 vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog -= vdiff;
-                if vdiff.abs() < TOLR {
+                // Far below p the step in log(P) is small too, so the linear step has to agree
+                if vdiff.abs() < TOLR && ((p2 - self.p) / dpdlv).abs() < TOLR {
                     self.d = (-vlog).exp();
                     return Ok(()); // Iteration converged
                 }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 7a5c9ab..590385d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4395,7 +4395,8 @@ impl Gerg2008 {
                 let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]
                 let vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog += -vdiff;
-                if vdiff.abs() < TOLR {
+                // Far below p the step in log(P) is small too, so the linear step has to agree
+                if vdiff.abs() < TOLR && ((p2 - self.p) / dpdlv).abs() < TOLR {
                     // Check to see if state is possibly 2-phase, and if so restart
                     if self.dpddsave < 0.0 {
                         ifail = 1;
-- 
2.43.0

