From 99f654847ccfd5bc8d0397b2b859cdf262b3e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 01/17] fix: Newton returns a convergence failure instead of
 looping forever

---
 crates/nonlinear/src/newton.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..6bbb6d8 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,12 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                // This is done at most once: a failure of that second attempt, or one with current Jacobian data, is returned.
+                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From 2d526b0fa44296383e3eed603792a6e90a713741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 02/17] fix: a failed first step rescales h*y' only, not the
 initial y

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..e13333d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1248,7 +1248,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From 04e6f7cd421a4f5c9496e7b794dcbfcf84d0ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 03/17] fix: get_dky computes the coefficients up to order
 kused - k + i

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e13333d..65b3c90 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..=self.ida_kused - k + i {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..=self.ida_kused - k + i {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From f70847b6a6b848f4cdeb8cb17a7b3ff690ff4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 04/17] fix: a step that passes tstop by roundoff ends at tstop

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65b3c90..c96af56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -652,7 +652,7 @@ where
 
             self.nlp.ida_tn += self.ida_hh;
             if let Some(tstop) = self.ida_tstop {
-                if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::one() {
+                if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::zero() {
                     self.nlp.ida_tn = tstop;
                 }
             }
-- 
2.43.0


From b732945c455675c4bec50e5fb827c5371e8216ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 05/17] fix: a stop time reached in one-step mode is used up

---
 src/impl_stop_test.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index e972b0f..65d6947 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -110,6 +110,7 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
+                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0


From fe1eae738db1b7f33dab78975bdef3e4f0bb1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 06/17] fix: repeated recoverable residual failures end in
 RepeatedResidualError

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c96af56..c73bd1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1222,7 +1222,7 @@ where
                             match rec_type {
                                 // return (IDA_REP_RES_ERR);
                                 Recoverable::Residual => {
-                                    Err(failure::Error::from(IdaError::ResidualFail {}))
+                                    Err(failure::Error::from(IdaError::RepeatedResidualError {}))
                                 }
 
                                 // return (IDA_CONSTR_FAIL);
-- 
2.43.0


From 96f97ae2799e21383dd4d8a2a469e0a9c2165adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 07/17] fix: a nonlinear iteration that does not converge is
 retried with a smaller step

---
 src/error.rs |  2 ++
 src/lib.rs   | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0055934..b2e766e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    Convergence,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index c73bd1a..5fc561f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1129,6 +1129,17 @@ where
 
         self.ida_phase = 1;
 
+        // A nonlinear iteration that did not converge is recoverable
+        let error = match error.downcast::<nonlinear::Error>() {
+            Ok(nonlinear::Error::ConvergenceRecover {}) => {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::Convergence,
+                })
+            }
+            Ok(error) => failure::Error::from(error),
+            Err(error) => error,
+        };
+
         // Try and convert the error into an IdaError
         error
             .downcast::<IdaError>()
-- 
2.43.0


From 9fd21faaaa853bf3b5c582b6ed56104f4bc1b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 08/17] fix: the first step moves y by half a tolerance at most

---
 src/impl_solve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..c00ce6d 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -124,7 +124,7 @@ where
                     &self.nlp.ida_ewt,
                     self.ida_suppressalg,
                 );
-                if ypnorm > P::Scalar::two() / self.ida_hh {
+                if ypnorm > P::Scalar::half() / self.ida_hh {
                     self.ida_hh = P::Scalar::half() / ypnorm;
                 }
                 if tout < self.nlp.ida_tn {
-- 
2.43.0


From 6e7b2d4df582ccf71da89d125223eb57de285db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 09/17] fix: error weights that are not positive and finite are
 refused, the first ones included

---
 src/impl_solve.rs |  6 +++---
 src/lib.rs        | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index c00ce6d..454ad65 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -86,7 +86,7 @@ where
 
             // Check inputs to IDA for correctness and consistency */
             if !self.ida_setup_done {
-                self.initial_setup();
+                self.initial_setup()?;
                 self.ida_setup_done = true;
             }
 
@@ -269,7 +269,7 @@ where
                     self.nlp.ida_ewt.view_mut(),
                 );
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+                if !self.ewt_ok() {
                     let _ier = self.get_solution(self.nlp.ida_tn);
                     *tret = self.nlp.ida_tn;
                     self.ida_tretlast = self.nlp.ida_tn;
@@ -277,7 +277,7 @@ where
                     //IDAProcessError(IDA_mem, IDA_ILL_INPUT, "IDA", "IDASolve", MSG_EWT_NOW_BAD, self.nlp.ida_tn);
                     Err(IdaError::IllegalInput {
                         msg: format!(
-                            "At t = {:?} some ewt component has become <= 0.0.",
+                            "At t = {:?} some ewt component is no longer positive and finite.",
                             self.nlp.ida_tn
                         ),
                     })?
diff --git a/src/lib.rs b/src/lib.rs
index 5fc561f..2361be6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ where
     /// inputs and inputs to `init`/`reinit` that could not be done before.
     ///
     /// If no error is encountered, IDAInitialSetup returns IDA_SUCCESS. Otherwise, it returns an error flag and reported to the error handler function.
-    fn initial_setup(&mut self) {
+    fn initial_setup(&mut self) -> Result<(), failure::Error> {
         //booleantype conOK;
         //int ier;
 
@@ -543,6 +543,11 @@ where
             self.ida_phi.index_axis(Axis(0), 0),
             self.nlp.ida_ewt.view_mut(),
         );
+        if !self.ewt_ok() {
+            Err(IdaError::IllegalInput {
+                msg: format!("Some initial ewt component is not positive and finite."),
+            })?
+        }
 
         /*
         // Check to see if y0 satisfies constraints.
@@ -564,7 +569,15 @@ where
         }
         */
 
-        //return(IDA_SUCCESS);
+        Ok(())
+    }
+
+    /// Whether every error weight is positive and finite
+    fn ewt_ok(&self) -> bool {
+        self.nlp
+            .ida_ewt
+            .iter()
+            .all(|&x| x > P::Scalar::zero() && x.is_finite())
     }
 
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
-- 
2.43.0


From ab11f8e54615d965181c3ff4fcc269c262eb22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 10/17] fix: root functions are active from the start

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2361be6..f7d8cff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 47f24f58f7c607480d1abb8c2ffa73d7fb5d82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 11/17] fix: root directions are 1 for rising and -1 for
 falling functions

---
 src/impl_r_check.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..c43e0d4 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,7 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = -glo.signum();
                         }
                     }
                 });
@@ -567,7 +567,7 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = -glo.signum();
                     }
                 }
             });
-- 
2.43.0


From 5b6fd430ac2740d929c4586a5d76e0aab66f4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 12/17] fix: a root at tout is not reported again by the next
 call

---
 src/impl_solve.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 454ad65..0b2e28e 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -194,12 +194,21 @@ where
                     return Ok(IdaSolveStatus::Root);
                 }
 
-                // If tn is distinct from tretlast (within roundoff), check remaining interval for roots
+                // If the end of the interval left (tn, or tout if it comes first) is distinct from
+                // tretlast (within roundoff), check remaining interval for roots
+                let tend = match itask {
+                    IdaTask::Normal
+                        if (self.nlp.ida_tn - tout) * self.ida_hh > P::Scalar::zero() =>
+                    {
+                        tout
+                    }
+                    _ => self.nlp.ida_tn,
+                };
                 let troundoff = ((self.nlp.ida_tn).abs() + (self.ida_hh).abs())
                     * P::Scalar::epsilon()
                     * P::Scalar::hundred();
 
-                if (self.nlp.ida_tn - self.ida_tretlast).abs() > troundoff {
+                if (tend - self.ida_tretlast).abs() > troundoff {
                     let ier = self.r_check3()?;
                     match ier {
                         // no root found
-- 
2.43.0


From 596c86b565cf7c2ff0dbcd1cb4a2db1ffdfe8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 13/17] fix: the Jacobian is evaluated at the current time, not
 at 0

---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..5843689 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        t: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                t,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..a3c9d1b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,8 +167,12 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+        self.lp.setup(
+            self.ida_tn,
+            self.ida_yy.view(),
+            self.ida_yp.view(),
+            res.view(),
+        );
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From a1660304cec8674aec7159f8d80bdff41e842823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 14/17] fix: a failed linear solver setup is recoverable
 instead of a panic

---
 src/ida_ls.rs  | 11 +++++++++--
 src/ida_nls.rs |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 5843689..4a568dc 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -2,6 +2,7 @@ use log::warn;
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
+use super::error::{IdaError, Recoverable};
 use super::linear::{LSolver, LSolverType};
 use super::traits::IdaProblem;
 use super::IdaCounters;
@@ -235,7 +236,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +286,12 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        // a failure (a singular matrix, say) is recoverable: IDA_LSETUP_RECVR
+        self.ls.setup(self.mat_j.view_mut()).map_err(|_| {
+            failure::Error::from(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSetup,
+            })
+        })
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index a3c9d1b..e359ed3 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,7 +167,7 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp.setup(
+        let retval = self.lp.setup(
             self.ida_tn,
             self.ida_yy.view(),
             self.ida_yp.view(),
@@ -184,6 +184,7 @@ where
 
         //if (retval < 0) return(IDA_LSETUP_FAIL);
         //if (retval > 0) return(IDA_LSETUP_RECVR);
+        retval?;
 
         //return(IDA_SUCCESS);
 
-- 
2.43.0


From 57f188f3ef26a6f3fe203a49a6d7cb926a32d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 15/17] fix: a failed linear solve is a recoverable failure
 instead of a solution

---
 src/ida_ls.rs  | 8 +++++++-
 src/ida_nls.rs | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 4a568dc..03b1af4 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -309,7 +309,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -419,6 +420,10 @@ where
         // Increment ncfl counter
         if retval.is_err() {
             self.ncfl += 1;
+            // IDA_LSOLVE_RECVR
+            Err(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSolve,
+            })?
         }
 
         /*
@@ -459,6 +464,7 @@ where
         */
 
         //return(0);
+        Ok(())
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index e359ed3..b8cdf35 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -201,7 +201,7 @@ where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::DataMut<Elem = P::Scalar>,
     {
-        self.lp.solve(
+        let retval = self.lp.solve(
             delta.view_mut(),
             self.ida_ewt.view(),
             self.ida_yy.view(),
@@ -216,7 +216,7 @@ where
         //if (retval < 0) return(IDA_LSOLVE_FAIL);
         //if (retval > 0) return(IDA_LSOLVE_RECVR);
 
-        Ok(())
+        retval
     }
 
     /// idaNlsConvTest
-- 
2.43.0


From d3f1042b17e94811eaeda6c31c268de8b86d50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 16/17] fix: get_num_lin_iters returns the number of linear
 iterations

---
 src/ida_io.rs | 3 +--
 src/ida_ls.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ida_io.rs b/src/ida_io.rs
index 1928bcb..e176f3b 100644
--- a/src/ida_io.rs
+++ b/src/ida_io.rs
@@ -95,8 +95,7 @@ where
 
     /// returns the cumulative number of linear iterations.
     pub fn get_num_lin_iters(&self) -> usize {
-        //self.nlp.lp.nli
-        0
+        self.nlp.lp.nli
     }
 
     /// returns the cumulative number of linear convergence failures.
diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 03b1af4..fea06ab 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -47,7 +47,7 @@ where
     /// npe = total number of precond calls
     npe: usize,
     /// nli = total number of linear iterations
-    nli: usize,
+    pub(super) nli: usize,
     /// nps = total number of psolve calls
     nps: usize,
     /// ncfl = total number of convergence failures
-- 
2.43.0


From 5e04806dda22e6fdc3d900a6fe6c3eaaeded0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 17/17] fix: a stop time reached in one-step mode is used up
 (where solve returns it)

---
 src/impl_solve.rs     | 4 ++++
 src/impl_stop_test.rs | 1 -
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 0b2e28e..b3ff4cf 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -238,6 +238,10 @@ where
             // Now test for all other stop conditions.
 
             let istate = self.stop_test1(tout, tret, itask);
+            if let Ok(IdaSolveStatus::TStop) = istate {
+                // the stop time has been returned: it is used up
+                self.ida_tstop = None;
+            }
             match istate {
                 Err(_)
                 | Ok(IdaSolveStatus::Root)
diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index 65d6947..e972b0f 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -110,7 +110,6 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
-                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0

