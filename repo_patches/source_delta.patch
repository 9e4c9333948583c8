From 80f91aa5c34389d2bb1af4346478bd0c2d3ce2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 01/45] fix: hiopResidual::copyFrom also copies the constraint
 violation norm

---
 src/Optimization/hiopResidual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..8309496 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -418,6 +418,7 @@ void hiopResidual::copyFrom(const hiopResidual& resid_src)
   nrmOne_bar_feasib = resid_src.get_nrmOne_bar_feasib();
   nrmOne_nlp_optim = resid_src.get_nrmOne_nlp_optim();
   nrmOne_bar_optim = resid_src.get_nrmOne_bar_optim();
+  nrmInf_cons_violation = resid_src.nrmInf_cons_violation;
   
   nlp = resid_src.nlp;
 }
-- 
2.43.0


From 2bc3e23f91166868247636c0d7e0540515978abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 02/45] fix: primal-first regularization returns the computed
 primal deltas

guts_of_compute_perturb_wrong_inertia never wrote its output arguments, so
compute_initial_deltas overwrote the primal regularization of a structurally
degenerate Hessian with stale values (and made the x and d parts differ).
---
 src/Optimization/hiopPDPerturbation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..daa3a10 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -346,6 +346,8 @@ namespace hiop
       }
     }
     delta_wd_curr_db_ = delta_wx_curr_db_;
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     set_delta_curr_vec(PrimalUpdate);
 
     if(delta_wx_curr_db_ > delta_w_max_bar_) {
-- 
2.43.0


From cada4ecc7c31dfba5f834f5a8928acb29155cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 03/45] fix: regularization for singular systems no longer
 aborts after an inertia correction

A singular factorization that follows an inertia correction of the same system
(singular, wrong inertia, singular; or an exhausted primal regularization)
reached assertions that do not hold in these states.
---
 src/Optimization/hiopPDPerturbation.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index daa3a10..292782d 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -275,7 +275,8 @@ namespace hiop
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        // delta_wx may already be positive if the inertia was corrected since the first singular factorization
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
@@ -299,7 +300,13 @@ namespace hiop
         }
         break;
       case dttNoTest:
-        assert(false && "something went wrong - should not get here");
+        // no test is pending since the inertia correction had to fall back on the dual regularization: 
+        // do the same thing as for negative curvature
+        assert(delta_cc_curr_db_ > 0.);
+        if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+          bret = false;
+        }
+        break;
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From aa4a154be3eefb8a65f0a4f5a4b14e3d884518ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 04/45] fix: absolute moving limit bounds the step it scales

The limit was divided by the norm of the already scaled step, so the resulting
step length could exceed the limit and even the fraction-to-boundary step.
---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..76dd69d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2831,7 +2831,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr = moving_lim_abs / x_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
-- 
2.43.0


From 54290e9c1b818a7157b57e473aa756ec0c9c07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 05/45] fix: barrier update never increases mu

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 76dd69d..cade9a2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -563,7 +563,7 @@ bool hiopAlgFilterIPMBase::update_log_barrier_params(hiopIterate& it,
   const double target_comp_tol = comp_tol_/nlp->get_obj_scale();
   double new_mu = std::fmax(0.0, std::fmin(kappa_mu*mu_curr, std::pow(mu_curr,theta_mu)));
   new_mu = std::fmax(new_mu, std::fmin(eps_tol, target_comp_tol)/(10.+1.) );
-  if(fabs(new_mu-mu_curr)<1e-16) {
+  if(mu_curr-new_mu<1e-16) {
     return false;
   }
   mu_new  = new_mu;
-- 
2.43.0


From 2a21cef65cbffd2a96007742ebbfbf50ca774596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 06/45] fix: quasi-Newton run continues after successful
 feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index cade9a2..02c4a68 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1428,10 +1428,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
-- 
2.43.0


From 6dcccbba490091498f036158776044b0cda7ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 07/45] fix: function values and derivatives belong to the
 iterate after feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 02c4a68..79fb611 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1461,14 +1461,14 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+    }
 
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
-        solver_status_ = Error_In_User_Function;
-        nlp->runStats.tmOptimizTotal.stop();
-        delete kkt;
-        return Error_In_User_Function;
-      }
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
     }
 
     nlp->runStats.tmSolverInternal.start(); //-----
@@ -2721,14 +2721,14 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+    }
 
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
-        solver_status_ = Error_In_User_Function;
-        nlp->runStats.tmOptimizTotal.stop();
-        delete kkt;
-        return Error_In_User_Function;
-      }
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
     }
 
     nlp->runStats.tmSolverInternal.start(); //-----
@@ -3164,7 +3164,7 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
     assert(false);
     return false;
-- 
2.43.0


From 4d86f53104a806c0a29aa127dc7d2da81ef10535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 08/45] fix: failing user functions stop the solver with
 Error_In_User_Function

---
 src/Optimization/hiopAlgFilterIPM.cpp | 57 +++++++++++++++++++++------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 79fb611..b204e41 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
     return false;
   }
 
@@ -905,6 +902,13 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
     }
+  case Error_In_User_Function:
+    {
+      nlp->log->printf(hovSummary,
+                       "Stopped because of an error in a user function.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+    }
   case Err_Step_Computation:
   {
       nlp->log->printf(hovSummary,
@@ -1000,7 +1004,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1022,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          nlp->runStats.tmOptimizTotal.stop();
+          return solver_status_ = Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1359,6 +1369,13 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         }
       }
 
+      if(lsStatus<0) {
+        // failure in the evaluation of the user functions
+        nlp->runStats.tmSolverInternal.stop();
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return solver_status_ = Error_In_User_Function;
+      }
       assert(lsStatus == 0);
       _alpha_primal *= 0.5;
 
@@ -2135,7 +2152,11 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    nlp->runStats.tmOptimizTotal.stop();
+    return solver_status_ = Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2574,6 +2595,13 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           }
         }
 
+        if(lsStatus<0) {
+          // failure in the evaluation of the user functions
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return solver_status_ = Error_In_User_Function;
+        }
         assert(lsStatus == 0);
         _alpha_primal *= 0.5;
 
@@ -3045,6 +3073,9 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       // variables have already been updated inside the above function
       return true;
     }
+    if(Error_In_User_Function == solver_status_) {
+      return false;
+    }
   
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
@@ -3063,7 +3094,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3075,7 +3106,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3088,7 +3119,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3112,7 +3143,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3166,7 +3197,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
   if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3271,7 +3302,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
@@ -3293,7 +3324,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
-- 
2.43.0


From 8706037ec589ba26d5ab80ba911d42ed6b0083c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/45] fix: accept_every_trial_step accepts the trial instead
 of calling restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index b204e41..12752db 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1408,6 +1408,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         solver_status_ = NlpSolve_Pending;
         nlp->runStats.tmSolverInternal.stop();
       }
+    } else if(disableLS) {
+      //trial point is accepted without any test
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==1) {
       //need to check switching cond and Armijo to decide if filter is augmented
       if(!grad_phi_dx_computed) {
@@ -2635,6 +2638,13 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           nlp->runStats.tmSolverInternal.stop();
           break;
         }
+      } else if(disableLS) {
+
+        //trial point is accepted without any test
+
+        nlp->runStats.tmSolverInternal.stop();
+        break; //from the linear solve (compute_search_direction) loop
+
       } else if(lsStatus==1) {
 
         //need to check switching cond and Armijo to decide if filter is augmented
-- 
2.43.0


From b69a02020c443652f0966345b5efda3f39dbf722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 10/45] fix: copy constructor of hiopMatrixDenseRowMajor leaves
 comm_size_ uninitialized

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..7c1f518 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -112,7 +112,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
 {
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
-  comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_=dm.comm_; comm_size_=dm.comm_size_; myrank_=dm.myrank_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From 1a1d0064620b399e7f5f3fd16a42b14ef7662a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 11/45] fix: dual regularization of the dense KKT systems was
 applied to the wrong rows; KKT error estimate started at 1e20

---
 src/Optimization/hiopKKTLinSys.cpp      | 4 ++--
 src/Optimization/hiopKKTLinSysDense.hpp | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..90f07c4 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -100,7 +100,7 @@ double hiopKKTLinSys::errorKKT(const hiopResidual* resid, const hiopIterate* sol
     
   }
 
-  double derr=1e20, aux;
+  double derr=-1., aux;
   hiopVector *RX=resid->rx->new_copy();
 
   //RX = rx-H*dx-J'c*dyc-J'*dyd +dzl-dzu
@@ -703,7 +703,7 @@ errorCompressedLinsys(const hiopVector& rx, const hiopVector& ryc, const hiopVec
   delta_cc_ = perturb_calc_->get_curr_delta_cc();
   delta_cd_ = perturb_calc_->get_curr_delta_cd();
 
-  double derr=1e20, aux;
+  double derr=-1., aux;
   hiopVector *RX=rx.new_copy();
   //RX=rx-H*dx-J'c*dyc-J'*dyd
   Hess_->timesVec(1.0, *RX, -1.0, dx);
diff --git a/src/Optimization/hiopKKTLinSysDense.hpp b/src/Optimization/hiopKKTLinSysDense.hpp
index 9079040..fc1c427 100644
--- a/src/Optimization/hiopKKTLinSysDense.hpp
+++ b/src/Optimization/hiopKKTLinSysDense.hpp
@@ -153,7 +153,8 @@ public:
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
-    Msys.addSubDiagonal(alpha, nx, *delta_cd_);
+    Msys.addSubDiagonal(alpha, nx, *delta_cc_);
+    Msys.addSubDiagonal(alpha, nx+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
@@ -309,10 +310,8 @@ public:
       col_start++;
     }
 
-#ifdef HIOP_DEEPCHECKS
-      assert(delta_cc_->is_equal(*delta_cd_));
-#endif
-    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cd_);
+    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cc_);
+    Msys.addSubDiagonal(-alpha, nx+nineq+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
-- 
2.43.0


From 270b8db23c836c108ae8f52d2e17919dbec263fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 12/45] fix: a variable with an infinite upper bound is not a
 fixed variable

---
 src/Optimization/hiopNlpTransforms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..f8adefd 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -160,7 +160,7 @@ bool hiopFixedVarsRemover::setupDecisionVectorPart()
   int it_rs=0; 
   for(int i=0;i<n_fs_local; i++) {
     //if(xl_vec[i]==xu_vec[i]) {
-    if(fabs(xl_vec[i]-xu_vec[i])<= fixedVarTol*fmax(1.,fabs(xu_vec[i]))) {
+    if(xu_vec[i]<1e20 && fabs(xl_vec[i]-xu_vec[i])<= fixedVarTol*fmax(1.,fabs(xu_vec[i]))) {
       fs2rs_idx_map[i]=-1;
     } else {
       fs2rs_idx_map[i]=it_rs;
@@ -316,7 +316,7 @@ relax(const double& fixed_var_tol, const double& fixed_var_perturb, hiopVector&
   double xuabs;
   for(index_type i=0; i<n; i++) {
     xuabs = fabs(xua[i]);
-    if(fabs(xua[i]-xla[i])<= fixed_var_tol*fmax(1.,xuabs)) {
+    if(xua[i]<1e20 && fabs(xua[i]-xla[i])<= fixed_var_tol*fmax(1.,xuabs)) {
 
       xua[i] += fixed_var_perturb*fmax(1.,xuabs);
       xla[i] -= fixed_var_perturb*fmax(1.,xuabs);
-- 
2.43.0


From f31bea6491067007fb7a3917e031a6c6928ced10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 13/45] fix: removal of fixed variables without a user-provided
 vector distribution (MPI builds)

---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..c2d36ec 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -283,7 +283,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -291,9 +293,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
-- 
2.43.0


From 843128835f8bdc592fd5ab3463e9faec76664ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 14/45] fix: dense one-call Jacobian is scaled, not unscaled

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c2d36ec..c70c2e0 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1537,8 +1537,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 9d1d0ff0a53fca58b90b6be799a0bca5b214e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/45] fix: scaling factors of the constraints as a whole
 agree with those of equalities and inequalities; zero gradients are not
 scaled

---
 src/Optimization/hiopNlpTransforms.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index f8adefd..0e3c49b 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,8 +477,11 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    // constraints with zero gradients are not scaled
+    const double Jac_c_infnorm = scale_factor_c->infnorm();
+    const double Jac_d_infnorm = scale_factor_d->infnorm();
+    scale_factor_c->setToConstant(Jac_c_infnorm > 0. ? max_con_grad / Jac_c_infnorm : 1.);
+    scale_factor_d->setToConstant(Jac_d_infnorm > 0. ? max_con_grad / Jac_d_infnorm : 1.);
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
@@ -498,6 +489,8 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   }
 }
 
+
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
 {
   if(scale_factor_c) delete scale_factor_c;
-- 
2.43.0


From acbe4d3b53eef3f698c123048058e6fd2ef9eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 16/45] fix: MDS Hessian scales the equalities-first
 multipliers with matching factors

---
 src/Optimization/hiopNlpFormulation.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c70c2e0..1662715 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1835,12 +1835,15 @@ bool hiopNlpMDS::eval_Hess_Lagr(const hiopVector& x,
       buf_lambda_ = this->alloc_dual_vec();
     }
     assert(buf_lambda_);
-    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
-    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
-
-    // scale lambda before passing it to user interface to compute Hess
-    int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-    buf_lambda_ = nlp_transformations_.apply_to_cons(*buf_lambda_, n_cons_eq_ineq);
+    // scale lambda before passing it to user interface to compute Hess (the order is [lambda_eq, lambda_ineq])
+    hiopVector* lambda_eq_user = lambda_eq.new_copy();
+    hiopVector* lambda_ineq_user = lambda_ineq.new_copy();
+    nlp_transformations_.apply_to_cons_eq(*lambda_eq_user, n_cons_eq_);
+    nlp_transformations_.apply_to_cons_ineq(*lambda_ineq_user, n_cons_ineq_);
+    buf_lambda_->copyFromStarting(0,         lambda_eq_user->local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq_user->local_data_const(), n_cons_ineq_);
+    delete lambda_ineq_user;
+    delete lambda_eq_user;
 
     double obj_factor_with_scale = obj_factor*get_obj_scale();
 
-- 
2.43.0


From 0fa141d4dbec6bce612a3d462172300d07551732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 17/45] fix: reset_bounds restores the scaled bounds of the
 inequalities

---
 src/Optimization/hiopNlpFormulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 1662715..df1cee5 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1432,6 +1432,11 @@ void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 hiopNlpDenseConstraints::hiopNlpDenseConstraints(hiopInterfaceDenseConstraints& interface_,
                                                  const char* option_file)
   : hiopNlpFormulation(interface_, option_file), interface(interface_)
+  if(nlp_scaling_) {
+    // the original bounds are not scaled
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 {
 }
 
-- 
2.43.0


From 6791a76b8d29e8a17ed923425275984dbae40780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 18/45] fix: callbacks and get_dual_solutions hand the user
 unscaled, full-length quantities and leave the iterate unchanged

---
 src/Optimization/hiopNlpFormulation.cpp | 228 +++++++++++++-----------
 src/Optimization/hiopNlpFormulation.hpp |  11 +-
 src/Optimization/hiopNlpTransforms.cpp  |   6 +-
 src/Optimization/hiopNlpTransforms.hpp  |  31 ++++
 4 files changed, 164 insertions(+), 112 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index df1cee5..8dc8162 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1039,45 +1039,72 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
 void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
-  if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
-    
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    cons_lambdas_->copy_from_two_vec_w_pattern(*it.get_yc(), *cons_eq_mapping_, *it.get_yd(), *cons_ineq_mapping_);
-    cons_lambdas_->copyTo(lambda_a);  
-  } else {
-    const double obj_scale_ext_to_hiop = this->get_obj_scale();
-    if(temp_x_ == nullptr) {
-      temp_x_ = this->alloc_primal_vec();
-    }
-    temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
-    temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
-
-    if(temp_eq_ == nullptr) {
-      temp_eq_ = this->alloc_dual_eq_vec();
-    }
-    if(temp_ineq_ == nullptr) {
-      temp_ineq_ = this->alloc_dual_ineq_vec();
-    }
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
-    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
-    cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
-    cons_lambdas_->copyTo(lambda_a);
+  hiopVector* z_user = alloc_bound_dual_for_user(*it.get_zl());
+  z_user->copyTo(zl_a);
+  delete z_user;
+  z_user = alloc_bound_dual_for_user(*it.get_zu());
+  z_user->copyTo(zu_a);
+  delete z_user;
+
+  pack_cons_duals_for_user(*it.get_yc(), *it.get_yd());
+  cons_lambdas_->copyTo(lambda_a);
+}
+
+hiopVector* hiopNlpFormulation::alloc_bound_dual_for_user(const hiopVector& z)
+{
+  if(temp_x_ == nullptr) {
+    temp_x_ = this->alloc_primal_vec();
   }
+  temp_x_->copyFrom(z);
+  return nlp_transformations_.apply_inv_to_bound_dual(*temp_x_)->new_copy();
+}
 
+void hiopNlpFormulation::pack_cons_duals_for_user(const hiopVector& y_c, const hiopVector& y_d)
+{
+  if(cons_lambdas_ == nullptr) {
+    cons_lambdas_ = this->alloc_dual_vec();
+  }
+  if(nullptr==nlp_scaling_) {
+    cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
+    return;
+  }
+  // y_unscaled = y_scale*y_scaled/obj_scale
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(y_c);
+  temp_ineq_->copyFrom(y_d);
+  nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+  cons_lambdas_->scale(1./this->get_obj_scale());
+}
+
+void hiopNlpFormulation::pack_cons_body_for_user(const hiopVector& c, const hiopVector& d)
+{
+  //concatenate 'c' and 'd' into user's constraint body
+  if(cons_body_ == nullptr) {
+    cons_body_ = this->alloc_dual_vec();
+  }
+  if(nullptr==nlp_scaling_) {
+    cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+    return;
+  }
+  // return unscaled values 
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(c);
+  temp_ineq_->copyFrom(d);
+  nlp_transformations_.apply_inv_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_transformations_.apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  cons_body_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
 }
 
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
@@ -1095,56 +1122,36 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   assert(y_d.get_size() == n_cons_ineq_);
 
   const double obj_scale_ext_to_hiop = this->get_obj_scale();
-  if(cons_lambdas_ == nullptr) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
-    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
-    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
-    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
-  //concatenate 'c' and 'd' into user's constraint body
-  if(cons_body_ == nullptr) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values 
-    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
-    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+  // the user receives unscaled values in the space of the user's (full-length) variables
+  pack_cons_duals_for_user(y_c, y_d);
+  pack_cons_body_for_user(c, d);
+  hiopVector* x_in = x.new_copy();
+  const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_in, true);
+  hiopVector* zl_user = alloc_bound_dual_for_user(z_L);
+  hiopVector* zu_user = alloc_bound_dual_for_user(z_U);
+  const size_type n_user = nlp_transformations_.n_pre();
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     hiopVectorPar cons_lambdas_host(n_cons_);
 
-    x.copy_to_vectorpar(x_host);
-    z_L.copy_to_vectorpar(zl_host);
-    z_U.copy_to_vectorpar(zu_host);
+    x_user.copy_to_vectorpar(x_host);
+    zl_user->copy_to_vectorpar(zl_host);
+    zu_user->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
+                                    (int)n_user,
                                     x_host.local_data_const(),
                                     zl_host.local_data_const(),
                                     zu_host.local_data_const(),
@@ -1154,16 +1161,19 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    (int)n_user,
+                                    x_user.local_data_const(),
+                                    zl_user->local_data_const(),
+                                    zu_user->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
                                     obj_value/obj_scale_ext_to_hiop);
-  }                         
+  }
 
+  delete zu_user;
+  delete zl_user;
+  delete x_in;
 }
 
 bool hiopNlpFormulation::user_callback_iterate(int iter,
@@ -1191,20 +1201,16 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   assert(y_c.get_size() == n_cons_eq_);
   assert(y_d.get_size() == n_cons_ineq_);
 
-  if(cons_lambdas_ == NULL) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
-  //concatenate 'c' and 'd' into user's constrainty body
-  if(cons_body_ == NULL) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
-
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  // the user receives unscaled values in the space of the user's (full-length) variables
+  pack_cons_duals_for_user(y_c, y_d);
+  pack_cons_body_for_user(c, d);
+  hiopVector* s_user = s.new_copy();
+  nlp_transformations_.apply_inv_to_cons_ineq(*s_user, n_cons_ineq_);
+  hiopVector* x_in = x.new_copy();
+  const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_in, true);
+  hiopVector* zl_user = alloc_bound_dual_for_user(z_L);
+  hiopVector* zu_user = alloc_bound_dual_for_user(z_U);
+  const size_type n_user = nlp_transformations_.n_pre();
 
   bool bret{false};
 
@@ -1214,17 +1220,17 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    x.copy_to_vectorpar(x_host);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    x_user.copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
-    s.copy_to_vectorpar(s_host);
+    s_user->copy_to_vectorpar(s_host);
     
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    z_L.copy_to_vectorpar(zl_host);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    zl_user->copy_to_vectorpar(zl_host);
     
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
-    z_U.copy_to_vectorpar(zu_host);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
+    zu_user->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     cons_body_->copy_to_vectorpar(cons_body_host);
@@ -1235,7 +1241,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
+                                           (int)n_user,
                                            x_host.local_data_const(),
                                            zl_host.local_data_const(),
                                            zu_host.local_data_const(),
@@ -1255,12 +1261,12 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           (int)n_user,
+                                           x_user.local_data_const(),
+                                           zl_user->local_data_const(),
+                                           zu_user->local_data_const(),
                                            (int)n_cons_ineq_,
-                                           s.local_data_const(),
+                                           s_user->local_data_const(),
                                            (int)n_cons_,
                                            cons_body_->local_data_const(),
                                            cons_lambdas_->local_data_const(),
@@ -1272,6 +1278,10 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            alpha_pr,
                                            ls_trials);
   }   
+  delete zu_user;
+  delete zl_user;
+  delete x_in;
+  delete s_user;
   return bret; 
 }
 
@@ -1422,6 +1432,11 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  if(nlp_scaling_) {
+    // the original bounds are not scaled
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
@@ -1432,11 +1447,6 @@ void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 hiopNlpDenseConstraints::hiopNlpDenseConstraints(hiopInterfaceDenseConstraints& interface_,
                                                  const char* option_file)
   : hiopNlpFormulation(interface_, option_file), interface(interface_)
-  if(nlp_scaling_) {
-    // the original bounds are not scaled
-    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
-    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
-  }
 {
 }
 
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..74b559a 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
@@ -413,6 +413,15 @@ protected:
   hiopVector* temp_ineq_;
   hiopVector* temp_x_;
 
+  /// Returns a newly allocated copy of the bound multipliers in the user's space (unscaled and full-length).
+  hiopVector* alloc_bound_dual_for_user(const hiopVector& z);
+
+  /// Packs the unscaled multipliers of the constraints in `cons_lambdas_` in the user's order
+  void pack_cons_duals_for_user(const hiopVector& y_c, const hiopVector& y_d);
+
+  /// Packs the unscaled constraints body in `cons_body_` in the user's order
+  void pack_cons_body_for_user(const hiopVector& c, const hiopVector& d);
+
 private:
   hiopNlpFormulation(const hiopNlpFormulation& s)
     : nlp_transformations_(this), interface_base(s.interface_base)
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 0e3c49b..2846882 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -79,6 +79,7 @@ hiopFixedVarsRemover(hiopNlpFormulation* nlp,
   xu_fs = xu.new_copy();
   x_fs  = xl.alloc_clone();
   grad_fs = xl.alloc_clone();
+  z_fs_ = xl.alloc_clone();
 
   n_fs = xl.get_size();
   n_rs = n_fs-numFixedVars;
@@ -90,6 +91,7 @@ hiopFixedVarsRemover::~hiopFixedVarsRemover()
   delete xu_fs;
   delete x_fs;
   delete grad_fs;
+  delete z_fs_;
   if(Jacc_fs) delete Jacc_fs;
   if(Jacd_fs) delete Jacd_fs;
 };
@@ -487,10 +489,10 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
-}
-
 
   scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
+}
+
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
 {
   if(scale_factor_c) delete scale_factor_c;
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..9c13744 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -106,6 +106,9 @@ public:
   virtual inline hiopVector* apply_inv_to_grad_obj(hiopVector& grad_in) { return &grad_in; }
   virtual inline hiopVector* apply_to_grad_obj    (hiopVector& grad_in) { return &grad_in; }
 
+  /* transforms multipliers of variable bounds, from transformed ones to original ones*/
+  virtual inline hiopVector* apply_inv_to_bound_dual(hiopVector& z_in) { return &z_in; }
+
   virtual inline hiopVector* apply_inv_to_cons_eq (hiopVector& c_in, const int& m_in) { return &c_in; }
   virtual inline hiopVector* apply_to_cons_eq     (hiopVector& c_in, const int& m_in) { return &c_in; }
   virtual inline hiopVector* apply_inv_to_cons_ineq(hiopVector& c_in, const int& m_in) { return &c_in; }
@@ -211,6 +214,17 @@ public:
     apply_to_vector(&grad_in, grad_rs_ref);
     return grad_rs_ref;
   }
+  /* from rs to fs; the bounds of the removed variables have zero multipliers */
+  inline hiopVector* apply_inv_to_bound_dual(hiopVector& z_in)
+  {
+    apply_inv_to_vector(&z_in, z_fs_);
+    for(size_t i=0; i<fs2rs_idx_map.size(); i++) {
+      if(fs2rs_idx_map[i]<0) {
+        z_fs_->local_data()[i] = 0.;
+      }
+    }
+    return z_fs_;
+  }
   /* from rs to fs */
   inline hiopMatrix* apply_inv_to_jacob_eq(hiopMatrix& Jac_in, const int& m_in)
   {
@@ -294,6 +308,7 @@ protected:
 
   //working buffer used to hold the full-space (user's) vector of decision variables and other optimiz objects
   hiopVector*x_fs, *grad_fs;
+  hiopVector* z_fs_;
   //working buffers for the full-space Jacobians
   hiopMatrixDense *Jacc_fs, *Jacd_fs;
   
@@ -402,6 +417,13 @@ public:
     return &grad_in;
   }
 
+  /* from scaled to unscaled*/
+  inline hiopVector* apply_inv_to_bound_dual(hiopVector& z_in)
+  {
+    z_in.scale(1./scale_factor_obj);
+    return &z_in;
+  }
+
   /* from scaled to unscaled*/
   inline hiopVector* apply_inv_to_cons_eq(hiopVector& c_in, const int& m_in)
   { 
@@ -697,6 +719,15 @@ public:
     return ret;
   }
 
+  hiopVector* apply_inv_to_bound_dual(hiopVector& z_in)
+  {
+    hiopVector* ret = &z_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_bound_dual(*ret);
+    }
+    return ret;
+  }
+
   hiopVector* apply_inv_to_cons_eq(hiopVector& c_in, const int& m_in)
   {
     hiopVector* ret = &c_in;
-- 
2.43.0


From 7d2b45404b0d5de9a46bf4df486caf0a3af2654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 19/45] fix: CSR matrices without nonzeros get valid row
 pointers and can be transposed and updated

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..e51b782 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -823,7 +823,7 @@ void hiopMatrixSparseCSRSeq::form_from_symbolic(const hiopMatrixSparseTriplet& M
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
+  if(nrows_<=0 || nullptr==irowptr_) {
     return;
   }
   
@@ -887,7 +887,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
+  if(nrows_<=0 || nullptr==irowptr_) {
     return;
   }
   
@@ -1018,7 +1018,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
+  if(nrows_<=0 || nullptr==irowptr_) {
     return;
   }
   
-- 
2.43.0


From 2f7901576472ded42955a6e7e86b1cc1c467bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 20/45] fix: triplet to CSR conversion maps the added diagonal
 entries to their sorted position

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..f378759 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1302,7 +1302,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
       
       int old_nnz_idx = index_convert_extra_Diag2CSR_temp[i];
       if(old_nnz_idx!=-1){
-        int old_nnz_in_row = ind_temp[old_nnz_idx - csr_kRowPtr[i]];
+        int old_nnz_in_row = old_nnz_idx - csr_kRowPtr[i];
         std::vector<int>::iterator p = std::find(ind_temp.begin(),ind_temp.end(),old_nnz_in_row);
         assert(p != ind_temp.end());        
         int new_nnz_idx = (int) std::distance (ind_temp.begin(), p) + csr_kRowPtr[i];
-- 
2.43.0


From d115cd5cdd832db4ea141022a18c783056030d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 21/45] fix: hiopMatrixMDS::timesMatTrans applies alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From 0f40d1b2a2becfb8130a8f331e2330797e6279e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 22/45] fix: compound vector counts added parts, uses x in
 addLogBarrierGrad and reports projection failures

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..8dc48f2 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
@@ -807,7 +807,9 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() == ixu.get_num_parts());
 
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2)) {
+      return false;
+    }
   }
   return true;
 }
@@ -1014,6 +1016,7 @@ void hiopVectorCompoundPD::addVector(hiopVector *v)
 {
   vectors_.push_back(v);
   n_ += v->get_size();
+  n_parts_++;
 }
 
 hiopVector& hiopVectorCompoundPD::getVector(index_type index) const
-- 
2.43.0


From af1cdec276a942f85463de1e7319e5aa757f314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 23/45] fix: sparse XYcYd KKT: do not accumulate regularization
 in Dd_inv_, keep delta_cd out of it

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index c41a857..076be53 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -163,7 +163,7 @@ namespace hiop
        */
 
       // Dd = (Sdl)^{-1}Vu + (Sdu)^{-1}Vu + delta_wd * I
-      Dd_inv_->axpy(1., *delta_wd_);
+      Dd_inv_->copyFrom(*delta_wd_);
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
 
@@ -171,9 +171,12 @@ namespace hiop
       assert(true==Dd_inv_->allPositive());
 #endif
       Dd_inv_->invert();
-      Dd_inv_->axpy(1., *delta_cd_);
 
-      Msys->copySubDiagonalFrom(nx+neq, nineq, *Dd_inv_, dest_nnz_st, -1); dest_nnz_st += nineq;
+      // 'Dd_inv_' is also used in 'computeDirections', hence it should not contain 'delta_cd'; use 'ryd_tilde_' as a buffer
+      ryd_tilde_->copyFrom(*Dd_inv_);
+      ryd_tilde_->axpy(1., *delta_cd_);
+
+      Msys->copySubDiagonalFrom(nx+neq, nineq, *ryd_tilde_, dest_nnz_st, -1); dest_nnz_st += nineq;
 
 
       nlp_->log->write("KKT_SPARSE_XYcYd linsys:", *Msys, hovMatrices);
-- 
2.43.0


From 9a82a3a92167e86981bed71065edc064d13988a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 24/45] fix: sparse full KKT: set (not accumulate) the primal
 regularization diagonals

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index 076be53..6e8159b 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -1027,7 +1027,7 @@ namespace hiop
         Hx_ = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"), nx);
         assert(Hx_);
       }
-      Hx_->axpy(1., *delta_wx_);
+      Hx_->copyFrom(*delta_wx_);
       Msys->copySubDiagonalFrom(0, nx, *Hx_, dest_nnz_st); dest_nnz_st += nx;
 
       //build the diagonal Hd = delta_wd
@@ -1036,7 +1036,7 @@ namespace hiop
         assert(Hd_);
       }
 
-      Hd_->axpy(1., *delta_wd_);
+      Hd_->copyFrom(*delta_wd_);
       Msys->copySubDiagonalFrom(n2st, nd, *Hd_, dest_nnz_st);
       dest_nnz_st += nd;
 
-- 
2.43.0


From bc94366b3e7624d90bd17c29f9c1116353b86e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 25/45] fix: Krylov solvers write the solution to the direction
 they were given, also when it changes between calls

---
 src/LinAlg/hiopKrylovSolver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..0df6e86 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -139,9 +139,9 @@ namespace hiop {
 
 bool hiopPCGSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // b_ is only a view of xsol, which may be a different object from one call to another
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
@@ -388,9 +388,9 @@ bool hiopPCGSolver::solve(hiopVector* b)
 
 bool hiopBiCGStabSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // b_ is only a view of xsol, which may be a different object from one call to another
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
-- 
2.43.0


From 09d278023d363d47ae2f89f3ae506c437e4a3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 26/45] fix: low-rank Hessian product does not clamp s'y of
 short steps to machine epsilon

---
 src/Optimization/hiopHessianLowRank.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..ace6986 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1007,10 +1007,10 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
     sk->copyFrom(St_->local_data() + k*n_local);
     double skTyk=yk->dotProductWith(*sk);
     
-    if(skTyk < std::numeric_limits<double>::epsilon()) {
+    if(skTyk < std::numeric_limits<double>::min()) {
       nlp->log->printf(hovLinAlgScalars, "hiopHessianLowRank: ||s_k^T*y_k||=%12.6e too small..."
-                       " set it to machine precision = %12.6e \n", skTyk, std::numeric_limits<double>::epsilon());
-      skTyk = std::numeric_limits<double>::epsilon();
+                       " set it to smallest positive value = %12.6e \n", skTyk, std::numeric_limits<double>::min());
+      skTyk = std::numeric_limits<double>::min();
     }
 
     if(a[k] == nullptr && b[k] == nullptr) {
-- 
2.43.0


From 43f30032f8bfe8f00c9103bedf46ca99ed35fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 27/45] fix: quasi-Newton reduced solve keeps refinements and
 reports failed factorizations

---
 src/Optimization/hiopKKTLinSys.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 90f07c4..3df1491 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1245,8 +1245,15 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   int nIterRefin=0;double nrmResid;
   int info;
   const int MAX_ITER_REFIN=3;
-  while(true) {
+  int ierr = 0;
+  if(INFO>0 && INFO<=N) {
+    // M is not numerically positive definite; dposvx did not compute a solution
+    ierr = INFO;
+    x->setToZero();
+  } else {
     x->copyFrom(X);
+  }
+  while(true) {
     resid->copyFrom(*rhsref);
     Aref->timesVec(1.0, *resid, -1.0, *x);
 
@@ -1287,6 +1294,11 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	  nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf returned "
 			    "error %d\n", info);
 
+      if(info!=0) {
+        break; // no refinement is possible
+      }
+      ierr = 0;
+
       DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
       if(info<0)
 	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithFactors: dpotrs returned "
@@ -1346,7 +1358,7 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 //   nlp_->log->printf(hovLinAlgScalars, "hiopKKTLinSysLowRank::solveCompressed: Cholesky solve: relative error %g\n", relErr);
 //   delete r;
 // #endif
-  return 0;
+  return ierr;
 }
 
 int hiopKKTLinSysLowRank::solve(hiopMatrixDense& M, hiopVector& rhs)
-- 
2.43.0


From 267d2133955ad3ecf7d13eb0f3cef6dfa8a7417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 28/45] fix: restoration proximal weights for reference points
 with zero components

---
 src/Optimization/hiopFRProb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..36adb01 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -90,8 +90,8 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -728,8 +728,8 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -1424,8 +1424,8 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   comm_ = MPI_COMM_WORLD;
   comm_size_ = 1;
-- 
2.43.0


From a098113efb0d604d50231b59b30654d9027ed9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 29/45] fix: restoration stopping test used the objective at
 DR*(x-x_ref) instead of x

---
 src/Optimization/hiopFRProb.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 36adb01..c427937 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -249,6 +249,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
+
+  // keep a copy of the original objective value
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
   
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
@@ -260,9 +263,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -898,6 +898,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // [xsp]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // [xde]
+
+  // keep a copy of the original objective value
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
   
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
@@ -909,8 +912,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -1602,6 +1603,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   // FIXME; add global methed. now we only have local method, or sync mpi results here
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
+
+  // keep a copy of the original objective value
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
   
   // rho*sum(p+n)
   // FIXME; add global methed. now we only have local method, or sync mpi results here
@@ -1620,9 +1624,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
-- 
2.43.0


From f5b0df55b8d9ac30d7dc1c1626e6cbfd43ebc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 30/45] fix: elastic variables reset in restoration used
 constraints and slacks of another point

---
 src/Optimization/hiopFRProb.cpp         | 54 ++++++++++++-------------
 src/Optimization/hiopNlpFormulation.cpp |  4 +-
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index c427937..76d124a 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -571,6 +571,8 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_x_->copyFrom(*wrk_x_);
+  last_d_->copyFrom(*wrk_d_);
   nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
 
   // compute theta for base problem
@@ -610,9 +612,7 @@ bool hiopFRProbSparse::iterate_callback(int iter,
     double trial_bar_obj_ori = solver_base_.get_logbar()->f_logbar_trial;
 
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
-      // terminate FR
-      last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
+      // terminate FR with last_x_ and last_d_
       return false;
     }
   }
@@ -628,20 +628,21 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // evaluate the constraints at this x; the slacks are those of the last FR iterate (saved by the callback)
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -661,8 +662,7 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);       // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -1204,6 +1204,8 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_x_->copyFrom(*wrk_x_);
+  last_d_->copyFrom(*wrk_d_);
   nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
 
   // compute theta for base problem
@@ -1243,9 +1245,7 @@ bool hiopFRProbMDS::iterate_callback(int iter,
     double trial_bar_obj_ori = solver_base_.get_logbar()->f_logbar_trial;
 
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
-      // terminate FR
-      last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
+      // terminate FR with last_x_ and last_d_
       return false;
     }
   }
@@ -1261,9 +1261,6 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
@@ -1271,12 +1268,16 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
+  // evaluate the constraints at this x; the slacks are those of the last FR iterate (saved by the callback)
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -1296,8 +1297,7 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);       // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -1908,6 +1908,8 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_x_->copyFrom(*wrk_x_);
+  last_d_->copyFrom(*wrk_d_);
   nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
 
   // compute theta for base problem
@@ -1948,9 +1950,7 @@ bool hiopFRProbDense::iterate_callback(int iter,
     double trial_bar_obj_ori = solver_base_.get_logbar()->f_logbar_trial;
 
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
-      // terminate FR
-      last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
+      // terminate FR with last_x_ and last_d_
       return false;
     }
   }
@@ -1966,21 +1966,22 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // evaluate the constraints at this x; the slacks are those of the last FR iterate (saved by the callback)
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -2000,8 +2001,7 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);       // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 8dc8162..0e7c758 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1374,10 +1374,8 @@ bool hiopNlpFormulation::user_force_update(int iter,
 
   // force update x
   retval = interface_base.force_update_x((int)n_vars_, x.local_data());
-  
-  assert(retval);
 
-  return true;
+  return retval;
 }
 
 void hiopNlpFormulation::print(FILE* f, const char* msg, int rank) const
-- 
2.43.0


From 0825e9f70f196be581efab66498ae7d1ab3aacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 31/45] fix: failures of user functions during feasibility
 restoration were ignored

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++
 src/Optimization/hiopFRProb.cpp       | 71 ++++++++++++++++++++-------
 src/Optimization/hiopFRProb.hpp       | 12 +++++
 3 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 12752db..ff9a4a3 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3099,6 +3099,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         hiopFRProbDense nlp_fr_interface(*this);
         nlpFR = new hiopNlpDenseConstraints(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(fr_solved && nlp_fr_interface.base_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
@@ -3111,6 +3115,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         hiopFRProbSparse nlp_fr_interface(*this);
         nlpFR = new hiopNlpSparse(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(fr_solved && nlp_fr_interface.base_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
@@ -3124,6 +3132,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       hiopFRProbMDS nlp_fr_interface(*this);
       nlpFR = new hiopNlpMDS(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
       fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+      if(fr_solved && nlp_fr_interface.base_eval_failed()) {
+        solver_status_ = Error_In_User_Function;
+        fr_solved = false;
+      }
       if(fr_solved) {
         nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 76d124a..b217f79 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -70,7 +70,8 @@ namespace hiop
 hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpSparse*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -251,7 +252,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
 
   // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
   
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
@@ -308,7 +311,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -368,7 +373,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -403,7 +410,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -573,7 +582,11 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
   last_x_->copyFrom(*wrk_x_);
   last_d_->copyFrom(*wrk_d_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // stop FR; the flag tells the base solver that this is not a success
+    base_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -702,7 +715,8 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
 hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpMDS*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -900,7 +914,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // [xde]
 
   // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
   
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
@@ -964,7 +980,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1035,7 +1053,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1206,7 +1226,11 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
   last_x_->copyFrom(*wrk_x_);
   last_d_->copyFrom(*wrk_d_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // stop FR; the flag tells the base solver that this is not a success
+    base_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -1365,7 +1389,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1403,7 +1429,8 @@ index_type hiopFRProbDense::denseVecBase2FR(hiopVector* vec_base, hiopVector* ve
 hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpDenseConstraints*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -1605,7 +1632,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
 
   // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
   
   // rho*sum(p+n)
   // FIXME; add global methed. now we only have local method, or sync mpi results here
@@ -1664,7 +1693,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1740,7 +1771,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
@@ -1910,7 +1943,11 @@ bool hiopFRProbDense::iterate_callback(int iter,
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
   last_x_->copyFrom(*wrk_x_);
   last_d_->copyFrom(*wrk_d_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // stop FR; the flag tells the base solver that this is not a success
+    base_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
diff --git a/src/Optimization/hiopFRProb.hpp b/src/Optimization/hiopFRProb.hpp
index 50e51e2..7567985 100644
--- a/src/Optimization/hiopFRProb.hpp
+++ b/src/Optimization/hiopFRProb.hpp
@@ -179,6 +179,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if FR was stopped because the constraints of the base problem could not be evaluated
+  inline bool base_eval_failed() const { return base_eval_failed_; }
+
 private:
   size_type n_;
   size_type m_;
@@ -211,6 +214,7 @@ private:
 
   hiopVector* last_x_;
   hiopVector* last_d_;
+  bool base_eval_failed_;
 
   double zeta_;
   double theta_ref_;
@@ -349,6 +353,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if FR was stopped because the constraints of the base problem could not be evaluated
+  inline bool base_eval_failed() const { return base_eval_failed_; }
+
 private:
   size_type n_;
   size_type n_sp_;
@@ -389,6 +396,7 @@ private:
 
   hiopVector* last_x_;
   hiopVector* last_d_;
+  bool base_eval_failed_;
 
   double zeta_;
   double theta_ref_;
@@ -496,6 +504,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if FR was stopped because the constraints of the base problem could not be evaluated
+  inline bool base_eval_failed() const { return base_eval_failed_; }
+
 private:
   size_type n_;
   size_type m_;
@@ -523,6 +534,7 @@ private:
 
   hiopVector* last_x_;
   hiopVector* last_d_;
+  bool base_eval_failed_;
 
   double zeta_;
   double theta_ref_;
-- 
2.43.0


From 449118a6afed9ab5b5034de7936b68c5d3c55a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 32/45] fix: C interface hands new_x on to eval_f and
 eval_grad_f

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From 49167815a9669465c0e399532ec76ae3cd5f19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:39 +0000
Subject: [PATCH 33/45] fix: new_sliceFromSym lost entries below the diagonal
 of the slice

The entries were counted over all the columns of the slice but were copied only for
column positions not smaller than the row position, so that entries of the upper
triangle of the matrix that land below the diagonal of the slice were lost and the
last triplets of the new matrix remained uninitialized.
---
 src/LinAlg/hiopMatrixComplexSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
index ec322a3..0c828d3 100644
--- a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
@@ -330,7 +330,7 @@ namespace hiop
       while(src_itnz<src_nnz && src_i[src_itnz]<row) 
 	src_itnz++;
 
-      for(int kj=ki; kj<ncols; kj++) {
+      for(int kj=0; kj<ncols; kj++) {
 	const int& col= col_idxs[kj];
 
 	if(col<row) continue;
-- 
2.43.0


From cf58bae4018eb507a3eff5688165dc1b59ae06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 34/45] fix: Kron reduction reported success when the solve
 failed or the eliminated block was singular

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp |  3 ++-
 src/Utils/hiopKronReduction.cpp      | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 8ef8c94..6c64ed2 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -120,7 +120,8 @@ namespace hiop
 
     status = umfpack_zi_numeric(m_colptr, m_rowidx, m_vals, (double*) NULL,
 				m_symbolic, &m_numeric, m_control, m_info);
-    if(status<0) {
+    //a positive status is a warning; in particular, UMFPACK warns when the matrix is singular
+    if(status!=UMFPACK_OK) {
       umfpack_zi_report_info (m_control, m_info) ;
       umfpack_zi_report_status (m_control, status) ;
       printf("[%d] UMFPACK: error in the numeric factorization: status=%d\n",
diff --git a/src/Utils/hiopKronReduction.cpp b/src/Utils/hiopKronReduction.cpp
index 05e6a46..e67ad3c 100644
--- a/src/Utils/hiopKronReduction.cpp
+++ b/src/Utils/hiopKronReduction.cpp
@@ -64,7 +64,17 @@ namespace hiop
       assert(map_nonaux_to_aux_==NULL);
       delete map_nonaux_to_aux_;
       map_nonaux_to_aux_ = new hiopMatrixComplexDense(Yba->m(), Yba->n());
-      linsolver_->solve(*Yba, *map_nonaux_to_aux_);
+      if(!linsolver_->solve(*Yba, *map_nonaux_to_aux_)) {
+	printf("Error occured while performing the Kron reduction (solve issue)\n");
+	delete map_nonaux_to_aux_;
+	map_nonaux_to_aux_ = NULL;
+	delete linsolver_;
+	linsolver_ = NULL;
+	delete Yaa;
+	delete Ybb;
+	delete Yba;
+	return false;
+      }
 
       map_nonaux_to_aux_->negate();
       //Ybbinv_Yba.print();
-- 
2.43.0


From 440ae2adad671f84bfb2c6be796e88444127e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 35/45] fix: integer and string options set at runtime were not
 recorded as user defined

---
 src/Utils/hiopOptions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..6b9c84c 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -363,6 +363,8 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
       
       if(setFromFile) {
         option->specifiedInFile=true;
+      } else {
+        option->specifiedAtRuntime=true;
       }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
@@ -437,6 +439,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       
       if(setFromFile) {
         option->specifiedInFile = true;
+      } else {
+        option->specifiedAtRuntime = true;
       }
       string strValue(value);
       transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
-- 
2.43.0


From ed37db5ffea5e98cb29b70e8e10146df725aed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 36/45] fix: values of file name options were converted to
 lower case

---
 src/Utils/hiopOptions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 6b9c84c..7052109 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -406,7 +406,8 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       if(!inrange && !option->range.empty()) {
         assert(false && "incorrect use of internal 'set_val': value out of range\n");
       } else {
-        option->val = value;
+        //options that can take any value (e.g., file names) keep the value as given
+        option->val = option->range.empty() ? string(value_in) : value;
       }
     }
   } else {
@@ -464,7 +465,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                    ssRange.str().c_str(),
                    option->val.c_str());
       } else {
-        option->val = strValue;
+        //options that can take any value (e.g., file names) keep the value as given
+        option->val = option->range.empty() ? string(value) : strValue;
       }
     }
   } else {
-- 
2.43.0


From f3a8b75acfe39530ced5d0ce104795e05c22503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 37/45] fix: numeric options accepted NaN

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7052109..c5969c0 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -296,7 +296,7 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         option->specifiedAtRuntime=true;
       }
       
-      if(value<option->lb || value>option->ub) {
+      if(!(value>=option->lb && value<=option->ub)) { //rejects also NaN
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
-- 
2.43.0


From b25d18bee336491670e2cfd7ea95a9574366916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 38/45] fix: option files accepted values that are only
 partially numbers (e.g., max_iter 1e3 was read as 1)

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index c5969c0..3d1eb50 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -194,7 +194,7 @@ void hiopOptions::load_from_file(const char* filename)
       if(on!=NULL) {
         stringstream ss(value);
         double val;
-        if(ss>>val) {
+        if((ss>>val) && ss.peek()==EOF) {
           SetNumericValue(name.c_str(), val, true);
         } else {
           log_printf(hovWarning,
@@ -212,7 +212,7 @@ void hiopOptions::load_from_file(const char* filename)
           oi = dynamic_cast<OptionInt*>(option);
           if(oi!=NULL) {
             stringstream ss(value); int val;
-            if(ss>>val) { SetIntegerValue(name.c_str(), val, true); }
+            if((ss>>val) && ss.peek()==EOF) { SetIntegerValue(name.c_str(), val, true); }
             else {
               log_printf(hovWarning,
                          "Hiop could not parse value '%s' as int for option '%s' specified in "
-- 
2.43.0


From a34f779aa119b8ee4a4406bdb47f0b23bf698b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 39/45] fix: the default value of accum_local was not among its
 valid values

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 3d1eb50..125e007 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1647,9 +1647,9 @@ void hiopOptionsPriDec::register_options()
   // option for local accumulation of function value and subgradient on evaluator ranks, then reduce
   {
     register_str_option("accum_local",
-                        "false", // default value for the option
+                        "no", // default value for the option
                         vector<string>({"yes", "no"}), // range
-                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'false')");
+                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'no')");
   }
 
   //
-- 
2.43.0


From a3385a7423b40e3a1ffd3d3ccd9a5f9a0d1006a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 40/45] fix: end signals of the PriDec solver were sent and
 received nonblocking with buffers that were out of scope

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..9313a2f 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,15 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      int ierr = MPI_Irecv(&signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      signal_ = 0;
+      int ierr = MPI_Isend(&signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +142,8 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    /// buffer of the end signals; needs to be alive until the nonblocking operation completes
+    int signal_ = 0;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From 70e873da0034619da897555270047c46a67c3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 41/45] fix: PriDec workers released the buffer of their last
 nonblocking send without completing it

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9313a2f..c7ea9d5 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1234,6 +1234,9 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       ierr = MPI_Bcast(&end_signal, 1, MPI_INT, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
       
+      // a worker has to complete its last send before releasing the buffer
+      rec_prob[my_rank_]->wait();
+
       for(auto it : rec_prob) {
         delete it;
       }
@@ -1757,6 +1760,9 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       ierr = MPI_Bcast(&end_signal, 1, MPI_INT, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
       
+      // a worker has to complete its last send before releasing the buffer
+      rec_prob[my_rank_]->wait();
+
       for(auto it : rec_prob) {
         delete it;
       }
-- 
2.43.0


From 1e4c1a783827e543f7ca6646abb9f6db7f7dbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 42/45] fix: parallel PriDec solver aborted for verbosity
 levels above three

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index c7ea9d5..3977137 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -531,7 +531,7 @@ compute_base(const double val)
 
 void hiopAlgPrimalDecomposition::HessianApprox::set_verbosity(const int i)
 {
-  assert(i<=3 && i>=0);
+  assert(i<=12 && i>=0);
   ver_ = i;
 }
 
-- 
2.43.0


From b71b7c7334dd3d4e41328992223a01d3b9f6ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 43/45] fix: serial PriDec solver returned success regardless
 of the status of the master problem

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 3977137..ec61d96 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1994,7 +1994,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;    
 }
 
 }//end namespace
-- 
2.43.0


From d14d08c7acbaa8baf37ad111638305eeaee018eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 44/45] fix: arguments of the PriDec message about the
 acceptable tolerance were swapped

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index ec61d96..c158e39 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -717,8 +717,8 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
-    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_count_);
-    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_tol_);
+    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
+    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
   return false;
-- 
2.43.0


From b28af6051e3fa8876a96fdf1086a45989f651860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 45/45] fix: zero dual at a starting point turned the slacks
 that need no adjustment into NaN when another one was adjusted

---
 src/Optimization/hiopIterate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopIterate.cpp b/src/Optimization/hiopIterate.cpp
index 2cff027..ecbc28d 100644
--- a/src/Optimization/hiopIterate.cpp
+++ b/src/Optimization/hiopIterate.cpp
@@ -450,6 +450,8 @@ int hiopIterate::adjust_small_slacks(hiopVector& slack,
 
       arg2.setToConstant_w_patternSelect(mu, select);
       arg2.componentDiv_w_selectPattern(slack_dual, select);
+      // a zero dual (e.g., at a starting point) gives inf, which would turn the slacks that need no correction into NaN
+      arg2.component_min(std::numeric_limits<double>::max());
 
       arg3.setToConstant_w_patternSelect(small_val, select);
 
-- 
2.43.0

