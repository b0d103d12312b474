From d1e385a7121741b44d3982fcf0f2288b132b4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 01/42] fix: adding a linear expression to itself no longer
 loops forever

---
 solver/src/solver/interface/Exprs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/Exprs.cpp b/solver/src/solver/interface/Exprs.cpp
index 8d167f3..e63092f 100644
--- a/solver/src/solver/interface/Exprs.cpp
+++ b/solver/src/solver/interface/Exprs.cpp
@@ -66,7 +66,8 @@ namespace solver {
 
   LinExpr& LinExpr::operator+=(const LinExpr& rhs) {
     this->getConstant() += rhs.getConstant();
-    for (size_t i=0; i<rhs.size(); i++) {
+    const size_t num_terms = rhs.size(); // rhs may be *this, which grows below
+    for (size_t i=0; i<num_terms; i++) {
     	  this->vars_.push_back(rhs.vars_[i]);
       this->coeffs_.push_back(rhs.coeffs_[i]);
     }
-- 
2.43.0


From aab22e731b2c22dedc9c084e6fc08a882817f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 02/42] fix: linear constraints without variables keep their
 right-hand side in the conic program

---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..e171695 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -130,8 +130,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+      this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -149,8 +149,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+      this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From cb16bcb1dc7b2eefe020139e472ab57bad0b2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 03/42] fix: replacing the objective no longer keeps the
 auxiliary variables of the previous one

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index e171695..7d4e378 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From 61f659993cc53f0c55a75065c1dca9359003badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 04/42] fix: costs and residuals follow the restored best
 iterate

---
 solver/src/solver/optimizer/IPSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..8e550e2 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -260,6 +260,7 @@ namespace solver {
   {
     opt_ = best_opt_;
     this->getInfo() = this->getBestInfo();
+    computeResiduals();
   }
 
   void InteriorPointSolver::rhsAffineStep()
-- 
2.43.0


From 3d9fcb47fc33a88d2164a51b3543e28378743c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 05/42] fix: no iteration allowed, no best iterate to go back
 to

---
 solver/src/solver/optimizer/IPSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 8e550e2..3355852 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -338,7 +338,7 @@ namespace solver {
         // Reached maxNumIters
         else if (this->getInfo().get(SolverIntParam_NumIter)==this->getSetting().get(SolverIntParam_SolverMaxIters))
         {
-          if (!this->getInfo().isBetterThan(this->getBestInfo())) { restoreBestIterate(); }
+          if (this->getInfo().get(SolverIntParam_NumIter)>0 && !this->getInfo().isBetterThan(this->getBestInfo())) { restoreBestIterate(); }
           exitcode_ = convergenceCheck(PrecisionConvergence::Reduced);
           if (exitcode_ == ExitCode::NotConverged) {
             exitcode_ = ExitCode::ReachMaxIters;
-- 
2.43.0


From 5e8bd10879e777be78a2484f9c1b0bd60ebfc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 06/42] fix: branch and bound no longer takes infeasible
 relaxations for solved ones

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..d836f06 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -113,7 +113,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..b96af60 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -110,7 +110,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
-- 
2.43.0


From eebeb29c18f91c3635193ca429a5d3da7a788917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 07/42] fix: branch and bound keeps the incumbent found at the
 root node

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index d836f06..6308222 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -198,7 +198,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index b96af60..9976039 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -195,7 +195,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
-- 
2.43.0


From e8eac06798446dac1d94ae319e85e8c57cc6fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 08/42] fix: branch and bound compares true costs, not products
 of unscaled points with equilibrated costs

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 6 +++---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 6308222..84a8cb7 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -115,7 +115,7 @@ namespace solver {
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -125,7 +125,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -134,7 +134,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 9976039..1d2e1b7 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -112,7 +112,7 @@ namespace solver {
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -122,7 +122,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -131,7 +131,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
-- 
2.43.0


From 6a441c10ecb8dc6e90250a38e0d252c4053f979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 09/42] fix: non-convex branch and bound without a solution no
 longer hands back a vector of the wrong size

---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 1d2e1b7..2c79ff9 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -211,7 +211,7 @@ namespace solver {
       prob_lower_bound_ = getProblemLowerBound();
       node_id_ = selectNodeToExplore();
     }
-    loadSolution();
+    if (!std::isinf(prob_upper_bound_)) { loadSolution(); }
 
     return exitcode();
   }
-- 
2.43.0


From 39b3ea8bea50edf87540abf7361163ff8ce2a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 10/42] fix: hierarchical QP no longer lets lower tasks enlarge
 the violation of a higher inequality

The slack of the previous task has to be added before the offsets are
clipped; the other way round a violated inequality was counted twice.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..a22cbed 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,12 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
-- 
2.43.0


From f7eae25d762385e7f4650b019e217c32e016a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 11/42] fix: no singular value decomposition of an empty matrix
 when the hierarchy has no freedom left

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index a22cbed..6bbb795 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -60,7 +60,7 @@ namespace rt_solver {
       while (!stop_svd2problem_converter_ && is_svd_computed_) { problem2svd_converter_.wait(mutex_); }
       if (stop_svd2problem_converter_) { mutex_.unlock(); break; }
 
-      if(B_Nprev_.rows() != 0) {
+      if(B_Nprev_.rows() != 0 && B_Nprev_.cols() != 0) {
         svd_B_Nprev_.compute(B_Nprev_, Eigen::ComputeFullV);
         RtMatrixUtils::computeNullspaceMap(B_Nprev_, K_, svd_B_Nprev_, eq_condition_threash_);
         prev_K_[cur_rank_] = K_;
-- 
2.43.0


From 0cb2458017c1a879b3f60feedc195d8ee34f7909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 12/42] fix: backtracking line search never accepts a step
 outside its bounds

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 925cc4a..4544714 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -512,6 +512,15 @@ namespace solver {
     dgtest = param->ftol * dginit;
 
     for (;;) {
+      if (*stp < param->min_step) {
+        /* The step is the minimum value. */
+        return LBFGSERR_MINIMUMSTEP;
+      }
+      if (*stp > param->max_step) {
+        /* The step is the maximum value. */
+        return LBFGSERR_MAXIMUMSTEP;
+      }
+
       veccpy(x, xp, n);
       vecadd(x, s, *stp, n);
 
@@ -549,14 +558,6 @@ namespace solver {
         }
       }
 
-      if (*stp < param->min_step) {
-        /* The step is the minimum value. */
-        return LBFGSERR_MINIMUMSTEP;
-      }
-      if (*stp > param->max_step) {
-        /* The step is the maximum value. */
-        return LBFGSERR_MAXIMUMSTEP;
-      }
       if (param->max_linesearch <= count) {
         /* Maximum number of iteration. */
         return LBFGSERR_MAXIMUMLINESEARCH;
-- 
2.43.0


From 85aa414c3a7bec0516b366782b0b0d3311773f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 13/42] fix: hierarchical QP uses the slack of a task only once

A task without inequalities left the slack of the task before it in
place, so the following task added it to the offsets a second time.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 6bbb795..301cd01 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,8 +144,10 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
-      if (wopt_.rows() != 0) //previous task had inequality constraints
+      if (wopt_.rows() != 0) { //previous task had inequality constraints
         ahat_.bottomRows(wopt_.rows()) += wopt_;
+        RtVectorUtils::resize(wopt_, 0);
+      }
 
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
-- 
2.43.0


From 454459d9cef00c36679148b9e0cfcaf61630ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 14/42] fix: second-order inverse kinematics gains can be
 written through PlannerSetting::get

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..7baef68 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -585,6 +585,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From e95442c8e9607c62533825ef3552320fa74dec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 15/42] fix: resizing a state sequence no longer keeps its
 previous entries

---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From 60c3cafceaadb4907b0c55c3bc837da493932e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 16/42] fix: assigning a control sequence to itself keeps it,
 and empty sequences can be copied

---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 489f29d..1328e53 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -97,9 +97,7 @@ namespace solverlqr
 
   ControlSequence& ControlSequence::operator= (const ControlSequence& rhs)
   {
-	this->resize(rhs.size(), rhs.control(0).feedback().cols(), rhs.control(0).feedback().rows());
-	for (int time=0; time<rhs.size(); time++)
-      this->control(time) = rhs.control(time);
+	controlseq_ = rhs.controlseq_;
     return *this;
   }
 
-- 
2.43.0


From 7eb8e2d5b82d5b332d69f67e10cd004bbcc678ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 17/42] fix: a rollout that diverged is never accepted, however
 large its cost decrease

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index d85e516..52d899f 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -107,7 +107,7 @@ namespace solverlqr {
           this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) = this->getLqrInfo().get(SolverLqrDoubleParam_Cost) - this->getForwPass().newCost() - 1e10*this->getForwPass().hasDiverged();
           this->getLqrInfo().get(SolverLqrDoubleParam_ExpectedCost) = std::max(-Eigen::Vector2d(this->getLqrSetting().get(SolverLqrVectorParam_LineSearchCoeffs)[i], std::pow(this->getLqrSetting().get(SolverLqrVectorParam_LineSearchCoeffs)[i], 2.)).dot(this->getBackPass().dV()), .0);
 
-          if (this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) > 0.0) {
+          if (!this->getForwPass().hasDiverged() && this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) > 0.0) {
             forwpass_flag_ = true;
             break;
           }
-- 
2.43.0


From c4025bac761daf1c87892fad76d1ce5b442b4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 18/42] fix: control-limited step minimises the quadratic
 model, not the model with twice its curvature

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..6cd38c5 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -120,7 +120,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From df1269f52de5a2c81540ac192fe3b238149b1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 19/42] fix: value function of the control-limited backward
 pass is that of the stored policy

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 6cd38c5..74721d4 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -84,8 +84,11 @@ namespace solverlqr
       control_seq_.control(time).feedback() = L;
       control_seq_.control(time).feedforward() = l;
 
-      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits))
+      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits)) {
         this->findConstrainedControls(time, llt_.matrixL(), g);
+        l = control_seq_.control(time).feedforward();
+        L = control_seq_.control(time).feedback();
+      }
 
       // Computing quadratic approximation of the value function
       Eigen::MatrixXd Sxxn(xdim_, xdim_);
-- 
2.43.0


From f8c66dfb238a1365eeeb374ed7e253827805f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:03 +0000
Subject: [PATCH 20/42] fix: logarithmic map is exact for small rotations too

---
 momentumopt/src/momentumopt/utilities/OrientationUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..baeb07c 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -30,11 +30,11 @@ namespace momentumopt {
       normalized_quaternion.vec() *= -1.0;
     }
 
-    if (std::abs(1.0-normalized_quaternion.w()) < 0.01) {
+    double vec_norm = normalized_quaternion.vec().norm();
+    if (vec_norm < 1e-10) {
       return 2.0*normalized_quaternion.vec();
     } else {
-      double norm = 2.0*std::acos(normalized_quaternion.w());
-      return norm/std::sin(0.5*norm) * normalized_quaternion.vec();
+      return 2.0*std::atan2(vec_norm, normalized_quaternion.w())/vec_norm * normalized_quaternion.vec();
     }
   }
 
-- 
2.43.0


From 4e7172c1993b32f1854c0edbdca3d296e30531ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:54 +0000
Subject: [PATCH 21/42] fix: required and integrated angular velocities are
 angular velocities, not rotation vector rates

---
 .../src/momentumopt/utilities/OrientationUtils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index baeb07c..3850c8a 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -118,9 +118,10 @@ namespace momentumopt {
 
     Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
     Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
 
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    Eigen::Vector3d angular_velocity = delta_rotation/time_step;
+    if (in_body_coordinates) { angular_velocity = q_current.inverse()*angular_velocity; }
+    return angular_velocity;
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -129,13 +130,10 @@ namespace momentumopt {
                                                      const double& time_step, bool in_body_coordinates)
   {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
-    if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
-
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    Eigen::Vector3d world_angular_velocity = angular_velocity;
+    if (in_body_coordinates) { world_angular_velocity = q_current*angular_velocity; }
+    return exponentialMap(world_angular_velocity*time_step) * q_current;
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From 95d70f8305c7dbb417106cada3a3b49034364c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 22/42] fix: interpolated velocity and acceleration are defined
 at time zero

---
 momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..9c48105 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -59,8 +59,8 @@ namespace momentumopt
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>0) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i); }
+      if (i>1) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0); }
     }
   }
 
-- 
2.43.0


From c7b8489b335f4661658e7bdd94394b085c25edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 23/42] fix: terrain rotation is a rotation for regions with
 non-perpendicular sides

---
 momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
index 7f651d2..dc1eed2 100644
--- a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
+++ b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
@@ -49,8 +49,8 @@ namespace momentumopt {
     aux2 = ccwvertices.row(1) - ccwvertices.row(2);
     normal = aux1.cross(aux2);
     rotation_.row(0) = aux1 / aux1.norm();
-    rotation_.row(1) = aux2 / aux2.norm();
     rotation_.row(2) = normal / normal.norm();
+    rotation_.row(1) = rotation_.row(2).cross(rotation_.row(0));
   }
 
   std::string TerrainRegion::toString() const
-- 
2.43.0


From 992e2b78af9c881817855753ed70462d7da3f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 24/42] fix: terrain normal points out of the surface, like the
 third axis of its rotation

---
 momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
index dc1eed2..4db035e 100644
--- a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
+++ b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
@@ -20,7 +20,7 @@ namespace momentumopt {
     int num_rows = ccwvertices.rows();
     aux1 = ccwvertices.row(2) - ccwvertices.row(1);
     aux2 = ccwvertices.row(1) - ccwvertices.row(0);
-    normal_ = aux1.cross(aux2);
+    normal_ = aux2.cross(aux1);
     normal_ /= normal_.norm();
     point_.setZero();
     for (int row_id=0; row_id<num_rows; row_id++)
@@ -32,7 +32,7 @@ namespace momentumopt {
     A_.block(0,0,num_rows-1,3) += ccwvertices.block(1,0,num_rows-1,3);
     A_.block(num_rows-1,0,1,3) += ccwvertices.block(0,0,1,3);
     for (int row_id=0; row_id<num_rows; row_id++) {
-      aux1 = normal_.cross(A_.row(row_id));
+      aux1 = A_.row(row_id).cross(normal_);
       A_.row(row_id) = aux1 / aux1.norm();
     }
 
-- 
2.43.0


From e4988c9423b734e2f68d071d93db8d7277992d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 25/42] fix: filling in a contact plan clears the activations
 of the previous one

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..e19e65a 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -21,6 +21,12 @@ namespace momentumopt {
 	// configuration of end-effectors during contact
     dynamics_sequence.activeEndeffectorSteps().setZero();
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
+      for (int time_id=0; time_id<dynamics_sequence.size(); time_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+      }
+
       int counter = 0;
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
       for (int cnt_id=ini_id; cnt_id<end_id; cnt_id++) {
-- 
2.43.0


From 20ef5375adb65b7f2934079b4a0acd76312d38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 26/42] fix: flight phases connect the contacts before and
 after them, also when consecutive contacts touch or end beyond the horizon

---
 .../cntopt/ContactPlanInterface.cpp           | 53 ++++++++++---------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index e19e65a..2c04083 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -60,36 +60,39 @@ namespace momentumopt {
           int ini_id = 0, end_id = 0;
 
           // configuration of end-effectors first flight phase, when not in contact
-          if (!ini_state.endeffectorActivation(eff_id)) {
+          if (!ini_state.endeffectorActivation(eff_id) && !dynamics_sequence.dynamicsState(0).endeffectorActivation(eff_id)) {
             ini_id = 0;
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
+            if (end_id < 0) { continue; }
+
+            int next_id = dynamics_sequence.dynamicsState(end_id+1).endeffectorContactId(eff_id);
             this->findActiveViapoints(viapoint_position, eff_id, -1);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_state.endeffectorPosition(eff_id),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition(),
+                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[next_id].contactPosition(),
                                 viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_state.endeffectorOrientation(eff_id), contact_sequence_.endeffectorContacts(eff_id)[0].contactOrientation());
+            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_state.endeffectorOrientation(eff_id), contact_sequence_.endeffectorContacts(eff_id)[next_id].contactOrientation());
           }
 
-          // configuration of end-effectors during flight phases
-          for (int cnt_id=0; cnt_id<contact_sequence_.numEndeffectorContacts(eff_id)-1; cnt_id++) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
+          // configuration of end-effectors during flight phases, and last one, when not in contact anymore
+          while ((ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id)) >= 0) {
+            int prev_id = dynamics_sequence.dynamicsState(ini_id-1).endeffectorContactId(eff_id);
+            this->findActiveViapoints(viapoint_position, eff_id, prev_id);
+
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
-            this->findActiveViapoints(viapoint_position, eff_id, cnt_id);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition(),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactOrientation(), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactOrientation());
-          }
+            bool is_last = (end_id < 0);
+            if (is_last) { end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1; }
+
+            Eigen::Vector3d next_position = ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion);
+            Eigen::Quaternion<double> next_orientation = ini_state.endeffectorOrientation(eff_id);
+            if (!is_last) {
+              int next_id = dynamics_sequence.dynamicsState(end_id+1).endeffectorContactId(eff_id);
+              next_position = contact_sequence_.endeffectorContacts(eff_id)[next_id].contactPosition();
+              next_orientation = contact_sequence_.endeffectorContacts(eff_id)[next_id].contactOrientation();
+            }
 
-          // configuration of end-effectors last flight phase, when not in contact
-          if (!dynamics_sequence.dynamicsState(this->getSetting().get(PlannerIntParam_NumTimesteps)-1).endeffectorActivation(eff_id)) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
-            end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1;
-            this->findActiveViapoints(viapoint_position, eff_id, contact_sequence_.numEndeffectorContacts(eff_id)-1);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id).back().contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id).back().contactOrientation(), ini_state.endeffectorOrientation(eff_id));
+            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[prev_id].contactPosition(),
+                                this->mapIdToContactTime(dynamics_sequence, end_id+1), next_position, viapoint_position);
+            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id)[prev_id].contactOrientation(), next_orientation);
           }
         }
       }
@@ -106,8 +109,8 @@ namespace momentumopt {
 
   int ContactPlanInterface::findMakeContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
   {
-	int make_cnt_id = 0, search_id = search_start_id;
-  	while (true) {
+	int make_cnt_id = -1, search_id = search_start_id;
+  	while (search_id+1 < dyn_sequence.size()) {
   	  if (dyn_sequence.dynamicsState(search_id).endeffectorActivation(eff_id)==false &&
   		  dyn_sequence.dynamicsState(search_id+1).endeffectorActivation(eff_id)==true )
   	  {
@@ -121,8 +124,8 @@ namespace momentumopt {
 
   int ContactPlanInterface::findBreakContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
   {
-	int break_cnt_id = 0, start_id = search_start_id;
-  	while (true) {
+	int break_cnt_id = -1, start_id = search_start_id;
+  	while (start_id+1 < dyn_sequence.size()) {
   	  if (dyn_sequence.dynamicsState(start_id  ).endeffectorActivation(eff_id)==true  &&
   		  dyn_sequence.dynamicsState(start_id+1).endeffectorActivation(eff_id)==false )
   	  {
-- 
2.43.0


From 276481fa0e9389e119c93849e7add7aa63a50545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 27/42] fix: optimised centre of mass and momenta are stored at
 their own time step, inside the sequence

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..ab17ce1 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -625,17 +625,16 @@ namespace momentumopt {
   void DynamicsOptimizer::storeSolution()
   {
 	com_.getGuessValue(mat_guess_);
-  dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
   	  dt_.getGuessValue(mat_guess_);
-- 
2.43.0


From a4ebef98dc3d61dd6005f2af3dcafeeb86b21df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 28/42] fix: end effectors out of contact carry no force of an
 earlier optimisation

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index ab17ce1..6b9dd4c 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -655,21 +655,29 @@ namespace momentumopt {
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
         if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id) = Eigen::Vector3d(mat_guess_.block<3,1>(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id)));
+        else
+          dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id).setZero();
 
       cop_local_[eff_id].getGuessValue(mat_guess_);
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
         if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           dynamicsSequence().dynamicsState(time_id).endeffectorCoP(eff_id) = Eigen::Vector3d(mat_guess_(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id)), mat_guess_(1,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id)), 0.0);
+        else
+          dynamicsSequence().dynamicsState(time_id).endeffectorCoP(eff_id).setZero();
 
       trq_local_[eff_id].getGuessValue(mat_guess_);
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
         if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           dynamicsSequence().dynamicsState(time_id).endeffectorTorque(eff_id) = Eigen::Vector3d(0.0, 0.0, mat_guess_(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id)));
+        else
+          dynamicsSequence().dynamicsState(time_id).endeffectorTorque(eff_id).setZero();
 
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
         if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           dynamicsSequence().dynamicsState(time_id).endeffectorTorqueAtContactPoint(eff_id) = dynamicsSequence().dynamicsState(time_id).endeffectorTorque(eff_id) + dynamicsSequence().dynamicsState(time_id).endeffectorCoP(eff_id).
                                                                                               cross(this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*dynamicsSequence().dynamicsState(time_id).endeffectorOrientation(eff_id).toRotationMatrix().transpose()*dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id));
+        else
+          dynamicsSequence().dynamicsState(time_id).endeffectorTorqueAtContactPoint(eff_id).setZero();
     }
   }
 
-- 
2.43.0


From 6bfd305731d16d9a183549888b84dde78c13e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 29/42] fix: contact type is only read for end effectors in
 contact

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 6b9dd4c..090e872 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -296,8 +296,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From 2f302290388856bc9d0606279f3c4565bf2adbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 30/42] fix: centre of mass height limit is defined when the
 first end effector starts without contact

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 090e872..92c0235 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -258,8 +258,9 @@ namespace momentumopt {
       model_.setObjective(quad_objective_, 0.0);
 
       // center of mass above endeffector positions
+      double base_height = dynamicsSequence().dynamicsState(0).endeffectorActivation(0) ? this->contactLocation(0, 0, 2) : ini_state_.endeffectorPosition(0).z();
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(0, 0, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
+        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(base_height), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
         //for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
         //  if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
         //      model_.addLinConstr(vars_[com_.id(2,time_id)] - this->contactLocation(time_id, eff_id, 2), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
-- 
2.43.0


From 9f0bf2ef3d6746b5473bcad4bf417e8a8a183931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 31/42] fix: angular momentum of a time-optimised plan is
 integrated with the optimised time steps

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 92c0235..854cc0a 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -576,7 +576,8 @@ namespace momentumopt {
       	  frc.y() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(1,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  frc.z() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(2,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  trq     = rz * vars_[trq_local_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-      	  angmom.col(time_id).head(3) += dynamicsSequence().dynamicsState(time_id).time()*(len.cross(frc)+trq);
+          double dt = this->getSetting().heuristic() == Heuristic::TimeOptimization ? vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X) : dynamicsSequence().dynamicsState(time_id).time();
+      	  angmom.col(time_id).head(3) += dt*(len.cross(frc)+trq);
         }
       }
     }
-- 
2.43.0


From 534a5634afe2ccd17c9bc6eb1d676a92a73ef51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 32/42] fix: the external force also acts in the time-optimised
 problem

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 854cc0a..c0225d9 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -392,6 +392,7 @@ namespace momentumopt {
             lin_cons_ = LinExpr(this->getSetting().get(PlannerDoubleParam_RobotMass)*this->getSetting().get(PlannerVectorParam_GravityVector)[axis_id]) - LinExpr(vars_[lmomd_.id(axis_id,time_id)]);
             for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
               if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) { lin_cons_ += LinExpr(vars_[frc_world_[eff_id].id(axis_id,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))])*this->getSetting().get(PlannerDoubleParam_MassTimesGravity); }
+            if (time_id==0) { lin_cons_ += LinExpr(this->getSetting().get(PlannerVectorParam_ExternalForce)[axis_id]*this->getSetting().get(PlannerDoubleParam_MassTimesGravity)); }
             model_.addLinConstr(lin_cons_, "=", 0.0);
           }
 
@@ -547,6 +548,7 @@ namespace momentumopt {
           	linmom.col(time_id).head(3) += vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X)*frc;
           }
         }
+        if (time_id==0) { linmom.col(time_id) += this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X)*this->getSetting().get(PlannerVectorParam_ExternalForce); }
         compos.col(time_id).head(3) += 1.0/this->getSetting().get(PlannerDoubleParam_RobotMass)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X)*linmom.col(time_id).head(3);
       }
     }
-- 
2.43.0


From fc07a5fffbda23cb2f93e0c97bfc2ac325e8c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 33/42] fix: the final step of the feedback objective reads no
 state beyond the plan

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..e0a8afb 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -66,7 +66,7 @@ namespace momentumopt {
 
 	double objective = 0.0;
     for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
-      if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
+      if (!is_final_timestep && this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
         objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
     if (time_id>0) {
-- 
2.43.0


From 8e269d0243cb8602265ddb68b74bed59f9314fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 34/42] fix: setting up the feedback problem again starts from
 zero gains

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index e0a8afb..6a40b5e 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -29,6 +29,7 @@ namespace momentumopt {
 
     for (int time_id=0; time_id<this->dynamicsSequence().size(); time_id++) {
       this->controlSeq().control(time_id).feedforward().setZero();
+      this->controlSeq().control(time_id).feedback().setZero();
       for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
         if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           this->controlSeq().control(time_id).feedforward().segment<3>(3*eff_id) =  this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id);
-- 
2.43.0


From 87c872fc9c1ab7b29b4cae01cd67eeca8540ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 35/42] fix: destroying a kinematics optimizer that was never
 initialized no longer deletes wild pointers

---
 momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
index 73fb1dd..b67c6c8 100644
--- a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
@@ -32,7 +32,7 @@ namespace momentumopt {
 
     public:
 	  /*! default class constructor and destructor */
-	  KinematicsOptimizer(){}
+	  KinematicsOptimizer() : ini_state_(nullptr), current_state_(nullptr) {}
       ~KinematicsOptimizer();
 
       /**
-- 
2.43.0


From db4d4192f1989040551f3bc85db28b17793d99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 36/42] fix: finite-difference dynamics Jacobians of the
 manifold LQR had the wrong sign

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..48a7cfd 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From 7fbdd1420b2f967fd2ae13229352f2b397c286b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 37/42] fix: the finite-difference Hessian of the manifold LQR
 cost no longer accumulates its perturbation

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 48a7cfd..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From a24cf0239b82e879521aac686197c6b8e734cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 38/42] fix: end-effector velocities and flight momentum used
 Jacobians of an earlier configuration

---
 .../python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..f6baa85 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -239,6 +239,7 @@ class MomentumKinematicsOptimizer(object):
                     self.inv_kin.get_world_oriented_frame_jacobian(q, idx).dot(dq)[:3] for idx in frames
                 ]).reshape(-1)
 
+        self.inv_kin.fill_jacobians(q)
         data = self.inv_kin.robot.data
         hg = self.inv_kin.robot.centroidalMomentum(q, dq)
 
-- 
2.43.0


From 83822354b7e157ade37cf2bb00ada3979b2c9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 39/42] fix: the kinematics optimiser overwrote the momentum of
 the dynamic plan during flight

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index f6baa85..1563bcb 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -393,7 +393,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From 349485a30a95ec2d24ae1a62e303ca928d638724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 40/42] fix: the time vector used the time step of the previous
 state

---
 momentumopt/python/momentumopt/motion_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/motion_planner.py b/momentumopt/python/momentumopt/motion_planner.py
index 5f2b239..c3ad286 100644
--- a/momentumopt/python/momentumopt/motion_planner.py
+++ b/momentumopt/python/momentumopt/motion_planner.py
@@ -26,7 +26,7 @@ def create_time_vector(dynamics_sequence):
     # Create time vector
     time = np.zeros((num_time_steps))
     for i in range(num_time_steps - 1):
-        time[i + 1] = time[i] + dynamics_sequence.dynamics_states[i].dt
+        time[i + 1] = time[i] + dynamics_sequence.dynamics_states[i + 1].dt
 
     return time
 
-- 
2.43.0


From 76fb52a97b0e45439cd42755c21aefd5d9f800cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:53 +0000
Subject: [PATCH 41/42] fix: const s() and z() of OptimizationVector returned
 each other's part

---
 solver/include/solver/interface/Cone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..18768e4 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -350,8 +350,8 @@ namespace solver {
 
 	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
 	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
 	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-- 
2.43.0


From 9cab133f0bd33c70150ae1e0b5840e91999f667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:51 +0000
Subject: [PATCH 42/42] fix: put the active set back safely after a constraint
 of the QP turns out degenerate

The multiplier list was read past its end, equalities indexed the list of inequalities with a negative
number, and the excluded constraint was chosen again for ever.
---
 .../include/solver/rt_optimizer/RtQPSolver.hpp  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtQPSolver.hpp b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
index 5f60035..6140faa 100644
--- a/solver/include/solver/rt_optimizer/RtQPSolver.hpp
+++ b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
@@ -174,10 +174,16 @@ namespace rt_solver {
             R.col(i) = R.col(i+1);
           }
 
-          A(iq - 1) = A(iq);
-          u(iq - 1) = u(iq);
-          A(iq) = 0;
-          u(iq) = 0.0;
+          // the entry after the last active constraint exists only if a further one is being added
+          if (iq < A.size()) {
+            A(iq - 1) = A(iq);
+            u(iq - 1) = u(iq);
+            A(iq) = 0;
+            u(iq) = 0.0;
+          } else {
+            A(iq - 1) = 0;
+            u(iq - 1) = 0.0;
+          }
           for (j=0; j<iq; j++)
             R(j,iq - 1) = 0.0;
 
@@ -381,6 +387,7 @@ namespace rt_solver {
            x_old = x;
 
           l2: /* Step 2: check for feasibility and determine a new S-pair */
+          ss = 0.0;
           for (i = 0; i < mi; i++)
           {
             if (s(i) < ss && iai(i) != -1 && iaexcl(i))
@@ -486,7 +493,7 @@ namespace rt_solver {
               for (i = 0; i < iq; i++)
               {
                 A(i) = A_old(i);
-                iai(A(i)) = -1;
+                if (A(i) >= 0) { iai(A(i)) = -1; } // equalities have negative indices
                 u(i) = u_old(i);
               }
               x = x_old;
-- 
2.43.0

