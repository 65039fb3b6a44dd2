From 283f57ff1fba1f9f6652e6b66ec8c867a7088ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 01/27] fix: GenericPriorFactor returns one Jacobian for a
 constant variable

---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 9e23785f193cfe793d2ddad5d94fc9f4ef273600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 02/27] fix: CoordinateTransformFactor sizes a reused Jacobian
 vector for its five variables

---
 src/factorama/coordinate_transform_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..e877ab3 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -116,7 +116,7 @@ namespace factorama
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From 5a6881456e59aa97a4c56207d0d3d27fbfbb383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 03/27] fix: HuberKernel Jacobian is the derivative of the
 kernel's residual

---
 src/factorama/kernels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..ecbecb3 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -56,7 +56,7 @@ namespace factorama
 
             // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
-- 
2.43.0


From c8283e206b952fca09ef154e2e6b686035204137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 04/27] fix: distance-scaled PlaneFactor uses the plane
 convention n.p + d = 0

---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From 156596c14d2a273b7ee09278466b05c3128057ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 05/27] fix: finalize_structure() discards what was cached for
 the previous structure

---
 src/factorama/factor_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..22f20fd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -363,6 +363,11 @@ namespace factorama
 
         sparse_jacobian_components_ = std::vector<std::vector<Eigen::MatrixXd>>(factors_.size());
 
+        // Anything cached was computed for the previous structure
+        sparse_jacobian_valid_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+
         structure_finalized_ = true;
     }
 
-- 
2.43.0


From 5872a4a52cc793230802289f071bb12dd6fc8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 06/27] fix: optimize() invalidates the covariance
 factorization of an earlier run

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..a451021 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -154,6 +154,9 @@ namespace factorama
         current_stats_.status = OptimizerStatus::RUNNING;
         current_stats_.current_iteration = 0;
 
+        // The solver's factorization is about to be overwritten
+        cached_hessian_valid_for_covariance_est_ = false;
+
         residual_stopwatch_.reset();
         residual_stopwatch_.reset();
         hessian_stopwatch_.reset();
-- 
2.43.0


From 9ef4e0e6105cd7db13ceb76310463c3ce13f3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 07/27] fix: covariances are evaluated at the final estimate,
 not before its last step

---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a451021..8a4a43b 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -542,8 +542,8 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Evaluate the sparse jacobian at the final values (the cached one is from before the last step)
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
-- 
2.43.0


From b0fb61e259a94ffc1a2413e83d5af4f7e5f60d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 08/27] fix: a non-finite residual or step is reported as
 divergence, not success

---
 src/factorama/sparse_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 8a4a43b..642304a 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 
 namespace factorama
 {
@@ -221,6 +222,13 @@ namespace factorama
                 break;
             }
 
+            // A step to non-finite values is a divergence, whatever the comparisons below would make of it
+            if (!std::isfinite(current_stats_.residual_norm) || !std::isfinite(current_stats_.delta_norm)) {
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::DIVERGED;
+                break;
+            }
+
             // Check convergence based on step norm
             if (current_stats_.delta_norm < settings_.step_tolerance) {
                 if (settings_.verbose) {
-- 
2.43.0


From 91f994424cd2a393b2c07d35871644ec414a206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 09/27] fix: LM damping stays within max_lambda when a
 factorization or solve fails

---
 src/factorama/sparse_optimizer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 642304a..1f292c9 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -367,7 +367,8 @@ namespace factorama
             sparse_solver_.compute(H);
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -383,7 +384,8 @@ namespace factorama
 
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -395,7 +397,8 @@ namespace factorama
 
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 9cfead05a53a45d0d3b593940db0df63b819b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 10/27] fix: factor placements are looked up by factor ID, as
 variable placements are

---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 22f20fd..4be6911 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -283,7 +283,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -301,7 +301,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -332,7 +332,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -387,7 +387,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            auto factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From 0bb9475334801d3fa8f77246034cd21fe860b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 11/27] fix: optimizing a graph whose variables are all
 constant does not factorize an empty Hessian

---
 src/factorama/sparse_optimizer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 1f292c9..28ce138 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -171,6 +171,13 @@ namespace factorama
 
         initial_stats_ = current_stats_;
 
+        if (graph_->num_values() == 0) {
+            // Every variable is constant: there is nothing to optimize (and no Hessian to factorize)
+            current_stats_.status = OptimizerStatus::SUCCESS;
+            optimization_complete_ = true;
+            return;
+        }
+
         if (settings_.verbose) {
             std::cout << "\n=== SparseOptimizer Starting ===\n";
             std::cout << "Algorithm: "
@@ -546,7 +553,7 @@ namespace factorama
             return;
         }
 
-        if (!optimization_complete_) {
+        if (!optimization_complete_ || graph_->num_values() == 0) {
 
             return;
         }
-- 
2.43.0


From 7175f67fc60c033f42af2671f1bb77077eefbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 12/27] fix: a failed finalize_structure leaves the graph
 unfinalized

---
 src/factorama/factor_graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 4be6911..bae4e3b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -231,6 +231,9 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // If this throws, the graph is left without a valid structure
+        structure_finalized_ = false;
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From 5ad546dfabb62628f366d8c5d7909741ecf68be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 13/27] fix: set_variable_values_from_vector refuses a vector
 of the wrong size

---
 src/factorama/factor_graph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index bae4e3b..314c540 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -71,6 +71,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int expected_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                expected_size += var->size();
+            }
+        }
+        if (x.size() != expected_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(expected_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From 640e1d221cc32681d147c5bcb5cf976f4e575698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 14/27] fix: HuberKernel skips the empty Jacobian blocks of
 constant variables

---
 src/factorama/kernels.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index ecbecb3..ec24531 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -59,6 +59,9 @@ namespace factorama
             double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // empty block of a constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From d9a05422d148330a399af5fe61c3fb815ba861c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 15/27] fix: Levenberg-Marquardt does not report success for a
 non-finite Jacobian

---
 src/factorama/sparse_optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 28ce138..3f223a1 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -369,6 +369,16 @@ namespace factorama
             Eigen::VectorXd b = -J.transpose() * residual1_;
             hessian_stopwatch_.stop();
 
+            if (!b.allFinite()) {
+                // Non-finite residual or Jacobian at the current values: more damping cannot help
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+                if (settings_.verbose) {
+                    std::cerr << "[LM] Residual or Jacobian is not finite.\n";
+                }
+                return;
+            }
+
             // Step 3: Solve damped system
             solve_stopwatch_.start();
             sparse_solver_.compute(H);
-- 
2.43.0


From e2fade423a1de2d403505fbab5de228aa90a95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 16/27] fix: pack the sparse Jacobian's columns before values
 are copied into its storage

---
 src/factorama/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 314c540..f2124b8 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -484,8 +484,8 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // Pack the columns: later evaluations copy their values straight into the storage
+            sparse_jacobian_.makeCompressed();
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
-- 
2.43.0


From 9352dc6fce3f4e32300dbbe2ea25d12639bf555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 17/27] fix: a sparse Jacobian without entries can be evaluated
 again

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f2124b8..ba31b03 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -694,7 +694,7 @@ namespace factorama
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
         // Validate preconditions
-        if (!values) {
+        if (!values && total_nonzeros > 0) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
         }
         if (total_nonzeros < 0) {
-- 
2.43.0


From 975a28793b8771cea5c4e3f41ceb5086d1e1fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 18/27] fix: the factor self-test fails a Jacobian with
 non-finite entries

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index ba31b03..43c09d2 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -641,7 +641,7 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From 18b0cacb2585d4be9241e54ccce60cfdc37eaca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 19/27] fix: Python factors, graphs and optimizers keep the
 variables they use alive

Factors hold raw pointers to their variables; dropping a variable in Python
while a factor (or a graph holding the factor) still used it left the factor
reading freed memory.
---
 .../python/factorama/_factorama.cpp           | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..b7cea9c 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -162,6 +162,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
@@ -171,12 +172,14 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
@@ -184,63 +187,75 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false);
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
@@ -248,6 +263,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
              "Create a RangeBearingFactor2D",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
              py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
@@ -257,12 +273,14 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
+             py::keep_alive<1, 3>(),
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"));
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
 
@@ -271,6 +289,7 @@ PYBIND11_MODULE(_factorama, m) {
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
              "Create a CoordinateTransformFactor",
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>(),
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
              py::arg("sigma") = 1.0)
@@ -318,7 +337,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
         .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -352,7 +371,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
-- 
2.43.0


From 5e5e63346a10d2a8b9de420b1f06921cfdbca6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 20/27] fix: arrays and settings obtained in Python outlive the
 objects they came from

They were views of memory that is freed with the variable, graph or optimizer,
and in the case of the graph's residual and Jacobian also by every later
finalisation that changes a size. Views now keep their owner alive; the graph's
buffers are copied.
---
 .../python/factorama/_factorama.cpp           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index b7cea9c..a064fc0 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::reference_internal)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference_internal)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference_internal);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference_internal)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference_internal)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference_internal)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -182,7 +182,7 @@ PYBIND11_MODULE(_factorama, m) {
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
@@ -341,11 +341,11 @@ PYBIND11_MODULE(_factorama, m) {
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
         .def("get_variable", &factorama::FactorGraph::get_variable)
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
@@ -353,9 +353,9 @@ PYBIND11_MODULE(_factorama, m) {
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -381,7 +381,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 0fa1e66c6face60bfc1c8e22c2741abde8921431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 21/27] fix: FactorGraph.get_variable in Python no longer takes
 ownership of the graph's variable

With no Python reference to the variable left, the wrapper made for the raw
pointer deleted it when dropped, and the graph deleted it again.
---
 python_bindings/python/factorama/_factorama.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index a064fc0..20c8b99 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -347,7 +347,17 @@ PYBIND11_MODULE(_factorama, m) {
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
              py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", [](const factorama::FactorGraph& self, int id) {
+            // hand out the shared owner: Python would take ownership of a raw pointer and delete the variable
+            std::shared_ptr<factorama::Variable> found;
+            factorama::Variable* variable = self.get_variable(id);
+            for (const auto& var : self.get_all_variables()) {
+                if (var.get() == variable) {
+                    found = var;
+                }
+            }
+            return found;
+        })
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
-- 
2.43.0


From 168a63e9357a3ce70b5939d42ec34bcb1e3935f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 22/27] fix: a graph that was added to after finalize_structure
 must be finalised again

compute_sparse_jacobian_matrix indexed past the end of its per-factor blocks
for a factor added after finalisation, and the other evaluations silently
left the addition out.
---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 43c09d2..c65db6f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -13,6 +13,9 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+
+        // The new variable has no place in the structure yet
+        structure_finalized_ = false;
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -23,6 +26,9 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+
+        // The new factor has no place in the structure yet
+        structure_finalized_ = false;
     }
 
     Variable *FactorGraph::get_variable(int id) const
-- 
2.43.0


From be525d38a7d5d4e06186e2b2de85b937b3325ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 23/27] fix: a graph refuses null variables and factors instead
 of dereferencing them

---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index c65db6f..740420c 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -7,6 +7,9 @@ namespace factorama
 {
     void FactorGraph::add_variable(const std::shared_ptr<Variable>& variable)
     {
+        if (variable == nullptr) {
+            throw std::runtime_error("FactorGraph: cannot add a null variable");
+        }
         if (variables_map_.find(variable->id()) != variables_map_.end()) {
             throw std::runtime_error("Variable with ID " + std::to_string(variable->id()) +
                                      " already exists in factor graph. Variable IDs must be unique.");
@@ -20,6 +23,9 @@ namespace factorama
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
     {
+        if (factor == nullptr) {
+            throw std::runtime_error("FactorGraph: cannot add a null factor");
+        }
         if (factors_map_.find(factor->id()) != factors_map_.end()) {
             throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) +
                                      " already exists in factor graph. Factor IDs must be unique.");
-- 
2.43.0


From 69b977430331f2064f78972a9c526355288622b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:59 +0000
Subject: [PATCH 24/27] fix: refuse vectors of the wrong length in every
 variable

Pose, landmark, rotation and inverse-range variables took a vector of any
length as their value (rotation variables also as an increment) and later
read past its end.
---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From 128b419c020e43e3aa8a88a29ab09d2dfc4b0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 25/27] fix: print the Jacobian of a graph whose variables are
 all constant

---
 src/factorama/factor_graph.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 740420c..277684c 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -550,9 +550,14 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        // (with every variable constant there are no singular values)
+        if (cached_jacobian_.size() > 0) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        } else {
+            std::cout << "Jacobian rank: 0\n";
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
-- 
2.43.0


From 61ae16f66b22e0f7635a8dd7f1efbe58d1a94500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 26/27] fix: refuse to print covariances without a factor graph

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3f223a1..df6a815 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -695,6 +695,10 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
+        if (!graph_) {
+            throw std::runtime_error("[SparseOptimizer] No factor graph set.");
+        }
+
         if (!cached_hessian_valid_for_covariance_est_) {
             prepare_to_estimate_covariances();
         }
-- 
2.43.0


From 9aef6a3a14a1df9b55629513284e895c1e5ca62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:40 +0000
Subject: [PATCH 27/27] fix: projected bearing Jacobian of a landmark at the
 camera is zero, not NaN

---
 src/factorama/bearing_projection_factor_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/bearing_projection_factor_2d.cpp b/src/factorama/bearing_projection_factor_2d.cpp
index 7b8cc3e..02012af 100644
--- a/src/factorama/bearing_projection_factor_2d.cpp
+++ b/src/factorama/bearing_projection_factor_2d.cpp
@@ -111,7 +111,7 @@ namespace factorama
         // (unit vector)
         Eigen::Vector3d pos_C = dcm_CW * (pos_W - pos_W_cam);
         double pos_C_norm = pos_C.norm();
-        Eigen::Vector3d bearing_C = pos_C / pos_C_norm;
+        Eigen::Vector3d bearing_C = pos_C.normalized();
 
         // Compute along-ray depth
         double depth = bearing_C_observed_.dot(bearing_C);
-- 
2.43.0

