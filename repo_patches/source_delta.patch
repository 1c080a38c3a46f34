From 0f8284674270e384e43432e42d5df9a236582c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 01/31] fix: finalize_structure() drops the residual and
 Jacobians cached for the previous structure

---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..45ed9c8 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -231,6 +231,12 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Everything computed for a previous structure is stale from here on, also if finalizing fails below
+        structure_finalized_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+        sparse_jacobian_valid_ = false;
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From 65359374c9b454bb48e2cea5866b985b7718bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 02/31] fix: adding a variable or factor requires
 finalize_structure() again

---
 src/factorama/factor_graph.cpp | 15 +++++++++++----
 src/factorama/factor_graph.hpp |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 45ed9c8..6c6c1f0 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -13,6 +13,7 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        invalidate_structure();
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -23,6 +24,15 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        invalidate_structure();
+    }
+
+    void FactorGraph::invalidate_structure()
+    {
+        structure_finalized_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+        sparse_jacobian_valid_ = false;
     }
 
     Variable *FactorGraph::get_variable(int id) const
@@ -232,10 +242,7 @@ namespace factorama
     void FactorGraph::finalize_structure()
     {
         // Everything computed for a previous structure is stale from here on, also if finalizing fails below
-        structure_finalized_ = false;
-        jacobian_valid_ = false;
-        residual_valid_ = false;
-        sparse_jacobian_valid_ = false;
+        invalidate_structure();
 
         variable_placement_.clear();
         factor_placement_.clear();
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 02b37ef..0983e09 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -252,6 +252,7 @@ namespace factorama
         bool verbose_ = false;
 
         // Helper functions
+        void invalidate_structure();
         void copy_sparse_data_to_eigen_matrix();
     };
 
-- 
2.43.0


From ee46c61f8edc27521357b25aa9d50fefc4d2c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 03/31] fix: set_variable_values_from_vector() rejects a vector
 of the wrong size

---
 src/factorama/factor_graph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 6c6c1f0..8a1b729 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -81,6 +81,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int total_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                total_size += var->size();
+            }
+        }
+        if (x.size() != total_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(total_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From 7716707a6e987a6b8438ca4b55b1ca5ab7a61d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 04/31] fix: variables reject value and increment vectors of
 the wrong size

---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From f7111f480b2d1ccf467562cbe6461a189fbed0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 05/31] fix: GenericPriorFactor returns one Jacobian for a
 constant variable

---
 src/factorama/generic_prior_factor.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..020c068 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,7 +62,6 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
                 jacobians[0] = Eigen::MatrixXd();
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
-- 
2.43.0


From 098d34c5b36e443d6e3315724ced6098a0888517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 06/31] fix: CoordinateTransformFactor sizes a reused Jacobian
 vector for its five variables

---
 src/factorama/coordinate_transform_factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..875ca08 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -111,12 +111,12 @@ namespace factorama
             double scale = scale_AB_->value()[0];
             const Eigen::Vector3d& lm_B = lm_B_->value();
 
-            // Ensure jacobians vector has correct size for 2 variables
+            // Ensure jacobians vector has correct size for 5 variables
             if (jacobians_out.size() == 0) {
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From f0d1352d1f497ecad0f67d84880e6834265709d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 07/31] fix: distance-scaled PlaneFactor uses the plane
 convention n.p + d = 0 of PlaneVariable

---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From 12f80e30259fa8d6c587ce5152dc4c9aa15ee92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 08/31] fix: optimize() invalidates the covariances prepared
 after an earlier run

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..ea679ee 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -148,6 +148,9 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // A Hessian prepared for covariances belongs to the previous run, and the solver is about to be reused
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
-- 
2.43.0


From c9097db311a7cc657db127471a6410a0c6c1d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 09/31] fix: covariances are linearized at the final estimate

---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index ea679ee..57ddd37 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -542,8 +542,8 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Linearize at the current estimate (the last Jacobian of optimize() precedes its last step)
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
-- 
2.43.0


From edec53b74d794086e42a0ad66512ec67908a34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 10/31] fix: LM never raises lambda above max_lambda when a
 factorization or solve fails

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 57ddd37..e70aace 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -360,6 +360,7 @@ namespace factorama
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -376,6 +377,7 @@ namespace factorama
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -388,6 +390,7 @@ namespace factorama
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From a65edd2f9a2e42cb3622820c31591b0a04d5b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 11/31] fix: a non-finite step or residual is reported as
 FAILED, not as SUCCESS

---
 src/factorama/sparse_optimizer.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index e70aace..b82aa18 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 
 namespace factorama
 {
@@ -74,7 +75,7 @@ namespace factorama
         }
 
         Eigen::VectorXd dx = sparse_solver_.solve(b_);
-        if (sparse_solver_.info() != Eigen::Success) {
+        if (sparse_solver_.info() != Eigen::Success || !dx.allFinite()) {
             current_stats_.valid = false;
             current_stats_.status = OptimizerStatus::FAILED;
             if (settings_.verbose) {
@@ -211,6 +212,12 @@ namespace factorama
                 break;
             }
 
+            // A residual that is not a number is never a converged solution
+            if (!std::isfinite(current_stats_.residual_norm)) {
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+            }
+
             // Check if step failed due to matrix issues
             if (current_stats_.status == OptimizerStatus::SINGULAR_HESSIAN ||
                 current_stats_.status == OptimizerStatus::ILL_CONDITIONED ||
@@ -273,7 +280,12 @@ namespace factorama
 
         // Set final status if still RUNNING (max iterations reached)
         if (current_stats_.status == OptimizerStatus::RUNNING) {
-            current_stats_.status = OptimizerStatus::SUCCESS;
+            if (std::isfinite(current_stats_.residual_norm)) {
+                current_stats_.status = OptimizerStatus::SUCCESS;
+            } else {
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+            }
         }
 
         if (settings_.verbose) {
-- 
2.43.0


From f7534e633a2d6c9959dfe56729192ddbf0d46521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 12/31] fix: a DIVERGED optimization is not marked valid

---
 src/factorama/sparse_optimizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index b82aa18..1fb01ef 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -249,6 +249,7 @@ namespace factorama
                 }
                 // Check if we've diverged beyond the initial state
                 if (current_stats_.residual_norm >= initial_stats_.residual_norm) {
+                    current_stats_.valid = false;
                     current_stats_.status = OptimizerStatus::DIVERGED;
                 } else {
                     current_stats_.status = OptimizerStatus::SUCCESS;
-- 
2.43.0


From d80b5a0d2f7b36856afc6e287d2589644161cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 13/31] fix: a covariance with a negative variance is reported
 as invalid

---
 src/factorama/sparse_optimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 1fb01ef..bf7b31d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -668,8 +668,9 @@ namespace factorama
         }
 
         double max_diag = P.diagonal().maxCoeff();
+        double min_diag = P.diagonal().minCoeff();
 
-        if (max_diag > 1e12) {
+        if (max_diag > 1e12 || min_diag < 0.0) {
             return Eigen::MatrixXd();
         }
 
-- 
2.43.0


From 8ddb620878ef9eaa02a13e13ecd8ccf985d321c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 14/31] fix: optimizing a graph whose variables are all
 constant does not read an empty Hessian

---
 src/factorama/sparse_optimizer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index bf7b31d..fdfaca3 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -171,6 +171,15 @@ namespace factorama
 
         initial_stats_ = current_stats_;
 
+        if (graph_->num_values() == 0) {
+            // Every variable is constant: there is nothing to optimize
+            current_stats_.delta_norm = 0.0;
+            current_stats_.valid = std::isfinite(current_stats_.residual_norm);
+            current_stats_.status = current_stats_.valid ? OptimizerStatus::SUCCESS : OptimizerStatus::FAILED;
+            optimization_complete_ = true;
+            return;
+        }
+
         if (settings_.verbose) {
             std::cout << "\n=== SparseOptimizer Starting ===\n";
             std::cout << "Algorithm: "
@@ -564,6 +573,10 @@ namespace factorama
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
 
+        if (cached_hessian_.rows() == 0) {
+            return; // every variable is constant
+        }
+
         sparse_solver_.compute(cached_hessian_);
 
         if (sparse_solver_.info() != Eigen::Success) {
-- 
2.43.0


From e521eebe02dd32f3e7a64f7191eb6dbb57cb66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 15/31] fix: HuberKernel implements its documented loss, and
 its Jacobian is the derivative of its residual

---
 src/factorama/kernels.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..ec80303 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -44,7 +44,7 @@ namespace factorama
             if (r_norm <= delta_) {
                 return residual;
             }
-            return residual * std::sqrt(delta_ / r_norm);
+            return residual * (std::sqrt(delta_ * (2.0 * r_norm - delta_)) / r_norm);
         }
 
         void apply_to_jacobians(const Eigen::VectorXd& residual, std::vector<Eigen::MatrixXd>& jacobians) override
@@ -55,10 +55,14 @@ namespace factorama
             }
 
             // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
-            double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double sqrt_2rho = std::sqrt(delta_ * (2.0 * r_norm - delta_));
+            double w = sqrt_2rho / r_norm;
+            double w_deriv = (delta_ / sqrt_2rho - w) / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From de622353f89a5302dd3919cc0a3f046f9efde5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 16/31] fix: Python get_variable() and Factor.variables() do
 not take ownership of the graph's variables

---
 python_bindings/python/factorama/_factorama.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..7220ff4 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -94,7 +94,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -328,7 +328,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
              py::return_value_policy::reference)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", [](const factorama::FactorGraph& self, int id) {
+            // Hand out the shared owner: a bare pointer would be taken over, and freed twice, by Python
+            std::shared_ptr<factorama::Variable> found;
+            for (const auto& variable : self.get_all_variables()) {
+                if (variable->id() == id) {
+                    found = variable;
+                }
+            }
+            return found;
+        })
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
-- 
2.43.0


From 8bdbd6beac77ca878687b8babffed82329ffab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 17/31] fix: Python factors keep the variables they refer to
 alive

---
 .../python/factorama/_factorama.cpp           | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 7220ff4..d3dcdbb 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -161,6 +161,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::BearingObservationFactor, std::shared_ptr<factorama::BearingObservationFactor>, factorama::Factor>(m, "BearingObservationFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
@@ -170,12 +171,14 @@ PYBIND11_MODULE(_factorama, m) {
                std::shared_ptr<factorama::GenericPriorFactor>, 
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a GenericPriorFactor",
              py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
@@ -183,63 +186,75 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a GenericBetweenFactor",
              py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a LinearVelocityFactor",
              py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PosePositionPriorFactor",
              py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PoseOrientationPriorFactor",
              py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PosePositionBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false);
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PoseOrientationBetweenFactor",
              py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a RotationPriorFactor",
              py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor with distance scaling",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PlanePriorFactor",
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
@@ -247,6 +262,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a RangeBearingFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
@@ -256,12 +272,14 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
+             py::keep_alive<1, 3>(),
              "Create a Pose2DPriorFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"));
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a Pose2DBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
@@ -270,6 +288,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::RotationVariable*, factorama::GenericVariable*,
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>(),
              "Create a CoordinateTransformFactor",
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
@@ -318,7 +337,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
         .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -361,7 +380,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
-- 
2.43.0


From 2651d2468e95956b52580507c40e848258728ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 18/31] fix: arrays returned to Python never refer to freed
 memory

---
 .../python/factorama/_factorama.cpp           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index d3dcdbb..e0cad92 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::reference_internal)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference_internal)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference_internal);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference_internal)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference_internal)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference_internal)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -182,7 +182,7 @@ PYBIND11_MODULE(_factorama, m) {
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
@@ -341,11 +341,11 @@ PYBIND11_MODULE(_factorama, m) {
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
         .def("get_variable", [](const factorama::FactorGraph& self, int id) {
             // Hand out the shared owner: a bare pointer would be taken over, and freed twice, by Python
@@ -362,9 +362,9 @@ PYBIND11_MODULE(_factorama, m) {
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -390,7 +390,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 65ea604561390df62cfaca78edb3e749a260f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 19/31] fix: PlotFactorGraph draws graphs with a
 BearingProjectionFactor2D

---
 python_bindings/python/factorama/_factorama.cpp | 3 ++-
 src/factorama/bearing_projection_factor_2d.hpp  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index e0cad92..20b5697 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -232,7 +232,8 @@ PYBIND11_MODULE(_factorama, m) {
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6)
+        .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
diff --git a/src/factorama/bearing_projection_factor_2d.hpp b/src/factorama/bearing_projection_factor_2d.hpp
index 25c0250..b552e02 100644
--- a/src/factorama/bearing_projection_factor_2d.hpp
+++ b/src/factorama/bearing_projection_factor_2d.hpp
@@ -58,6 +58,8 @@ namespace factorama
             return "BearingProjection2D_" + std::to_string(id()) + "(" + pose_->name() + "," + landmark_->name() + ")";
         }
 
+        const Eigen::Vector3d& bearing_C_obs() const { return bearing_C_observed_; }
+
         FactorType::FactorTypeEnum type() const override
         {
             return FactorType::bearing_observation; // Using existing enum for now
-- 
2.43.0


From e381e7b0756cf1dfd211b583104cc9f32b18e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 20/31] fix: get_variable_vector() sizes its result by the
 variables it copies

---
 src/factorama/factor_graph.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 8a1b729..f22fa24 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -53,7 +53,15 @@ namespace factorama
 
     Eigen::VectorXd FactorGraph::get_variable_vector() const
     {
-        Eigen::VectorXd x(num_values());
+        // num_values() can be out of date here, e.g. after finalize_structure() failed
+        int total_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                total_size += var->size();
+            }
+        }
+
+        Eigen::VectorXd x(total_size);
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (var->is_constant()) {
-- 
2.43.0


From 61f5fdd95c04ee327b705828dd330183ddd377cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 21/31] fix: covariances prepared for an earlier structure of
 the graph are not used

---
 src/factorama/factor_graph.cpp     | 1 +
 src/factorama/factor_graph.hpp     | 4 ++++
 src/factorama/sparse_optimizer.cpp | 8 ++++++--
 src/factorama/sparse_optimizer.hpp | 1 +
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f22fa24..bb0913f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -30,6 +30,7 @@ namespace factorama
     void FactorGraph::invalidate_structure()
     {
         structure_finalized_ = false;
+        structure_revision_++;
         jacobian_valid_ = false;
         residual_valid_ = false;
         sparse_jacobian_valid_ = false;
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 0983e09..3fe4af4 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -180,6 +180,9 @@ namespace factorama
         int num_values() const { return num_values_; }
         int num_residuals() const { return num_residuals_; }
 
+        // Differs between two calls if variables or factors were added, or the structure was finalized, in between
+        int structure_revision() const { return structure_revision_; }
+
         void set_verbose(bool verbose) { verbose_ = verbose; }
 
         VariablePlacement variable_placement(int id, bool& valid_out) const
@@ -224,6 +227,7 @@ namespace factorama
 
         // Structure bookkeeping
         bool structure_finalized_ = false;
+        int structure_revision_ = 0; // changes whenever the structure may have changed
         std::unordered_map<int, VariablePlacement> variable_placement_;
         std::unordered_map<int, FactorPlacement> factor_placement_;
 
diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index fdfaca3..f8fcd14 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -555,7 +555,7 @@ namespace factorama
     {
         // Assume the graph has already been optimized - estimate the covariance of each variable
 
-        if (cached_hessian_valid_for_covariance_est_) {
+        if (cached_hessian_valid_for_covariance_est_ && cached_hessian_revision_ == graph_->structure_revision()) {
             // early end, if it was already valid
             return;
         }
@@ -565,6 +565,8 @@ namespace factorama
             return;
         }
 
+        cached_hessian_valid_for_covariance_est_ = false;
+
         const auto t_start = std::chrono::steady_clock::now();
 
         // Step 1: Linearize at the current estimate (the last Jacobian of optimize() precedes its last step)
@@ -602,6 +604,7 @@ namespace factorama
         }
 
         cached_hessian_valid_for_covariance_est_ = true;
+        cached_hessian_revision_ = graph_->structure_revision();
 
         if (settings_.verbose) {
 
@@ -638,7 +641,8 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
-        if (!cached_hessian_valid_for_covariance_est_ || cached_hessian_.rows() == 0 || cached_hessian_.cols() == 0) {
+        if (!cached_hessian_valid_for_covariance_est_ || cached_hessian_revision_ != graph_->structure_revision() ||
+            cached_hessian_.rows() == 0 || cached_hessian_.cols() == 0) {
             if (settings_.verbose) {
                 std::cerr << "cached hessian was invalid" << std::endl;
             }
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index 93dee55..2d29f79 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -159,6 +159,7 @@ namespace factorama
 
         // Cached Hessian (for covariance estimates)
         bool cached_hessian_valid_for_covariance_est_ = false;
+        int cached_hessian_revision_ = 0; // structure revision of the graph the cached Hessian belongs to
         Eigen::SparseMatrix<double> cached_hessian_;
 
         // Cached Residuals
-- 
2.43.0


From 959d96965c8748b535a4c3ebc38f1925eabbc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 22/31] fix: sparse Jacobian is packed before its values are
 copied contiguously

The fast path of compute_sparse_jacobian_matrix() writes the values of all
columns one after the other, which is right for a compressed matrix only: the
first population left gaps between the columns, so that the second call
returned the values in wrong slots. A graph without any non-zero threw.
---
 src/factorama/factor_graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index bb0913f..60e70bd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -498,8 +498,8 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // pack the columns: later calls write the values contiguously, see copy_sparse_data_to_eigen_matrix
+            sparse_jacobian_.makeCompressed();
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
@@ -708,6 +708,9 @@ namespace factorama
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
         // Validate preconditions
+        if (total_nonzeros == 0) {
+            return; // nothing to copy, Eigen may not have allocated any storage
+        }
         if (!values) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
         }
-- 
2.43.0


From 84896a7bbdbbe1756fdc56b16f7ed4c664388bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 23/31] fix: print_all_covariances() before setup() does not
 dereference a null graph

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index f8fcd14..3a3a597 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -701,6 +701,10 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
+        if (!graph_) {
+            return; // nothing has been set up yet
+        }
+
         if (!cached_hessian_valid_for_covariance_est_) {
             prepare_to_estimate_covariances();
         }
-- 
2.43.0


From 718ddb8eafd658d75d345a0a8d72938fa9c78350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 24/31] fix: a Hessian that overflowed is ill-conditioned, not
 converged

With every pivot infinite the condition estimate is NaN, which passed the
test; the step was then 0 and the run ended as a success.
---
 src/factorama/sparse_optimizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a3a597..a79e6e1 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -64,7 +64,7 @@ namespace factorama
 
         // Check condition number estimate: max/min diagonal ratio
         double cond_estimate = max_diag / min_diag;
-        if (cond_estimate > 1e12) {
+        if (!(cond_estimate <= 1e12)) { // also when the estimate is not a number
             current_stats_.valid = false;
             current_stats_.status = OptimizerStatus::ILL_CONDITIONED;
             if (settings_.verbose) {
@@ -396,7 +396,7 @@ namespace factorama
             double min_diag = D.minCoeff();
             double max_diag = D.maxCoeff();
 
-            if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
+            if (min_diag < 1e-14 || !(max_diag / min_diag <= 1e12)) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
@@ -594,7 +594,7 @@ namespace factorama
         double max_diag = D.maxCoeff();
         double cond_estimate = max_diag / min_diag;
 
-        if (min_diag < 1e-14 || cond_estimate > 1e12) {
+        if (min_diag < 1e-14 || !(cond_estimate <= 1e12)) {
             if (settings_.verbose) {
                 std::cerr << "[SparseOptimizer] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
                           << " (min diag=" << min_diag << ", cond est=" << cond_estimate
-- 
2.43.0


From 6a3e1b18c12070ea1959b8373055c5931fe4cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 25/31] fix: print_all_covariances prepares again after the
 graph's structure changed

---
 src/factorama/sparse_optimizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a79e6e1..0f6d3a6 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -705,9 +705,7 @@ namespace factorama
             return; // nothing has been set up yet
         }
 
-        if (!cached_hessian_valid_for_covariance_est_) {
-            prepare_to_estimate_covariances();
-        }
+        prepare_to_estimate_covariances(); // returns at once if what was prepared is still current
 
         std::cout << "\n\nPrinting out all covariances for the factor graph" << std::endl;
 
-- 
2.43.0


From 33f6574e55dc332edcff9d744d34083ac040ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 26/31] fix: a rejected LM step leaves constant variables
 untouched

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0f6d3a6..6649778 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -471,7 +471,11 @@ namespace factorama
             } else {
                 update_vars_stopwatch_.start();
                 // Reject step: restore original values and increase damping
+                // (constant variables were not incremented, and writing their value back may not be lossless)
                 for (size_t i = 0; i < variables.size(); ++i) {
+                    if (variables[i]->is_constant()) {
+                        continue;
+                    }
                     variables[i]->set_value_from_vector(original_values[i]);
                 }
 
-- 
2.43.0


From 970c52b3a6dfda7f0df04e82e8ebcf6bb8b9f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 27/31] fix: finalize_structure() rejects a factor on a
 stranger with the id of a graph variable

---
 src/factorama/factor_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 60e70bd..2d7dc8d 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -306,7 +306,8 @@ namespace factorama
 
                 bool var_placement_valid;
                 auto var_placement = variable_placement(var->id(), var_placement_valid);
-                if (!var_placement_valid) {
+                // A variable of the graph with the same id is not the variable that this factor refers to
+                if (!var_placement_valid || var_placement.variable != var) {
                     throw std::runtime_error("Variable placement not found for variable: " + var->name() +
                                              ". Variable may not have been added to the factor graph.");
                 }
-- 
2.43.0


From d6df2be55e95c3518150b08d1bd562ac60d72734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 28/31] fix: verbose Gauss-Newton reports the residual norm an
 iteration started from, not the one it ended with

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 6649778..0cfbdae 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -121,7 +121,7 @@ namespace factorama
             };
 
             std::cout << "\n[SparseGN] Iteration " << current_stats_.current_iteration << " Summary:\n";
-            std::cout << "  Initial residual norm: " << residual2_.norm() << "\n";
+            std::cout << "  Initial residual norm: " << residual1_.norm() << "\n";
             std::cout << "  Final residual norm:   " << current_stats_.residual_norm << "\n";
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
-- 
2.43.0


From 8e20eef4a7fe170d61e57b63c7e235db67ecae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 29/31] fix: verbose Levenberg-Marquardt does not count a trial
 too many when no step is accepted

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0cfbdae..c32fed7 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -547,7 +547,7 @@ namespace factorama
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
             std::cout << "  Damping (λ):           " << current_stats_.damping_parameter << "\n";
-            std::cout << "  LM attempts:           " << lm_attempts + 1 << "\n";
+            std::cout << "  LM attempts:           " << lm_attempts + (step_accepted ? 1 : 0) << "\n";
             std::cout << "  Step accepted:         " << (step_accepted ? "YES" : "NO") << "\n";
             std::cout << "  J: " << J.rows() << " x " << J.cols() << " | nnz = " << J.nonZeros()
                       << " | density = " << 100.0 * J.nonZeros() / double(J.rows() * J.cols()) << " %\n";
-- 
2.43.0


From ffc639c26a4bdd7390f70ea2bb40f37127c824af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 30/31] fix: print_jacobian_and_residual() does not decompose
 an empty Jacobian

---
 src/factorama/factor_graph.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 2d7dc8d..7e8016e 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -553,9 +553,13 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        if (cached_jacobian_.size() > 0) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        } else {
+            std::cout << "Jacobian rank: 0\n"; // there is no decomposition of an empty matrix
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
-- 
2.43.0


From b64ae4b3058618b7a7ea1405296fecaa3056f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 31/31] fix: verbose Levenberg-Marquardt states the trials it
 made, not the most it may make

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index c32fed7..91394b4 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -517,7 +517,7 @@ namespace factorama
             }
 
             if (settings_.verbose) {
-                std::cout << "[LM] No acceptable step found after " << max_lm_attempts << " attempts\n";
+                std::cout << "[LM] No acceptable step found after " << lm_attempts << " attempts\n";
             }
             // Set minimal step for convergence detection
             dx = Eigen::VectorXd::Zero(dx.size());
-- 
2.43.0

