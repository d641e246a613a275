From 432bf6c23a20831efaa0d4d0560de0f55e13404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 1/8] fix: clamp updated slack and multiplier variables to a
 positive value in FMPC

numeric_limits<double>::lowest() is the most negative value, so the clamp was a no-op.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..d0ed565 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -810,7 +810,7 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::updateVariables()
       variable_.s_list[i] += alpha_s * delta_variable_.s_list[i];
       variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];
 
-      constexpr double min_positive_value = std::numeric_limits<double>::lowest();
+      constexpr double min_positive_value = std::numeric_limits<double>::min();
       if((variable_.s_list[i].array() < 0).any())
       {
         if(config_.print_level >= 1)
-- 
2.43.0


From 3fbd3ca713d75427dd7c5a83924d23dc6efa752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 2/8] fix: initialize unused members of terminal coefficient in
 FMPC

They are read by containsNaN(), so that indeterminate values could make the backward pass fail.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index d0ed565..bdd02ce 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -128,6 +128,20 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 
   s.resize(state_dim);
   P.resize(state_dim, state_dim);
+
+  // Initialize members that are not used for terminal but checked in containsNaN()
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+  k.setZero();
+  K.setZero();
 }
 
 template<int StateDim, int InputDim, int IneqDim>
-- 
2.43.0


From 711b0d178a8b47535169e8d07e0d6ef059ceb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 3/8] fix: support horizon steps without inequality constraints
 in FMPC barrier update

minCoeff() is undefined for empty vectors and the average over zero entries was NaN.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index bdd02ce..fb6174d 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -398,10 +398,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      if(variable_.s_list[i].size() > 0)
+      {
+        s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      }
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
-- 
2.43.0


From ba42a891803ecc8eec08ba30b81be0709ac238bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 4/8] fix: support dynamic and empty inequality dimensions in
 FMPC merit function

Identity() without size does not compile for dynamic dimension, and maxCoeff() is undefined for empty vectors.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index fb6174d..d3ac6ae 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -906,7 +906,8 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(
+          const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
@@ -929,7 +930,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From 02e9cd6c00be075df13fcbfcf51f574eb5fe1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 5/8] fix: check sequence length before initializing
 complementarity variables in FMPC

The initialization indexed the given sequences before their length was checked.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  3 +++
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..4173018 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,6 +345,9 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
+  /** \brief Check sequence length and input dimension of optimization variables. */
+  void checkSequence() const;
+
   /** \brief Check optimization variables. */
   void checkVariable() const;
 
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index d3ac6ae..ce9a82a 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -189,6 +189,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     constexpr double complementary_variable_margin_rate = 1e-2;
     constexpr double complementary_variable_min = 1e-2;
 
+    // Check sequences accessed in the following initialization
+    checkSequence();
+
     barrier_eps_ = initial_barrier_eps;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
@@ -296,7 +299,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
   }
 }
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkSequence() const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -325,7 +328,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                 + std::to_string(variable_.nu_list.size()) + ".");
   }
 
-  // Check element dimension
+  // Check input dimension
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     if constexpr(InputDim == Eigen::Dynamic)
@@ -339,6 +342,18 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+{
+  // Check sequence length and input dimension
+  checkSequence();
+
+  // Check element dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From 9abd084ee7cec40db4096f4e2a63680e1325f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 6/8] fix: impose input limits in DDP forward pass

The feedback term could push the input out of its limits although input constraints are enabled.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..45c12d0 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -545,10 +545,16 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+    if(config_.with_input_constraint)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMax(u_limits[0]).cwiseMin(u_limits[1]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From eda7c5e44fc43e7c20149132cd944505bd739405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 7/8] fix: stop BoxQP when linesearch is exhausted

The return value of the exhausted linesearch was always overwritten by the following iterations.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..2ef2c65 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -329,6 +329,10 @@ public:
       obj = obj_candidate;
 
       // Check loop termination
+      if(retval_ != 0)
+      {
+        break;
+      }
       if(iter == config_.max_iter)
       {
         retval_ = 1;
-- 
2.43.0


From e2828727186b0f35cd97560c2c6200f345418d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 8/8] fix: do not accept a step when DDP expects no cost change
 and the cost increases

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 45c12d0..97802aa 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -248,7 +248,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
       cost_update_expected = -1 * alpha * (dV_[0] + alpha * dV_[1]);
       cost_update_ratio = cost_update_actual / cost_update_expected;
-      if(cost_update_expected < 0)
+      if(cost_update_expected <= 0)
       {
         if((!config_.with_input_constraint && config_.print_level >= 0)
            || (config_.with_input_constraint && config_.print_level >= 2))
-- 
2.43.0

