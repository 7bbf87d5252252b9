From 008a5ee2e3fba9b42cc8cbae42cc5597c8e51916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 01/21] fix: adding a variable or factor un-finalizes the graph
 and cannot half-succeed

add_variable/add_factor left the flags and caches of the previous structure in
place, so jacobian(), residual() and optimize() went on with a structure that no
longer matched the graph. A failing allocation between the map insertion and the
vector insertion left the ID registered without the object. Null pointers are
now refused instead of being dereferenced.
---
 src/factorama/factor_graph.cpp | 31 +++++++++++++++++++++++++++++--
 src/factorama/factor_graph.hpp |  1 +
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..d1f414b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -7,22 +7,40 @@ namespace factorama
 {
     void FactorGraph::add_variable(const std::shared_ptr<Variable>& variable)
     {
+        if (!variable) {
+            throw std::runtime_error("add_variable: variable is null");
+        }
         if (variables_map_.find(variable->id()) != variables_map_.end()) {
             throw std::runtime_error("Variable with ID " + std::to_string(variable->id()) +
                                      " already exists in factor graph. Variable IDs must be unique.");
         }
-        variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        try {
+            variables_map_[variable->id()] = variable.get();
+        } catch (...) {
+            variables_vector_.pop_back();
+            throw;
+        }
+        invalidate_structure();
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
     {
+        if (!factor) {
+            throw std::runtime_error("add_factor: factor is null");
+        }
         if (factors_map_.find(factor->id()) != factors_map_.end()) {
             throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) +
                                      " already exists in factor graph. Factor IDs must be unique.");
         }
-        factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        try {
+            factors_map_[factor->id()] = factor.get();
+        } catch (...) {
+            factors_.pop_back();
+            throw;
+        }
+        invalidate_structure();
     }
 
     Variable *FactorGraph::get_variable(int id) const
@@ -668,6 +686,15 @@ namespace factorama
         return all_passed;
     }
 
+    void FactorGraph::invalidate_structure()
+    {
+        structure_finalized_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+        sparse_jacobian_valid_ = false;
+        sparse_jacobian_initialized_ = false;
+    }
+
     void FactorGraph::copy_sparse_data_to_eigen_matrix()
     {
         double *values = sparse_jacobian_.valuePtr();
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 02b37ef..57d8d5b 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -252,6 +252,7 @@ namespace factorama
         bool verbose_ = false;
 
         // Helper functions
+        void invalidate_structure(); // drop everything derived from the set of variables and factors
         void copy_sparse_data_to_eigen_matrix();
     };
 
-- 
2.43.0


From 8c96b71dc881ad2ba5e7fb100fbbc1a3e916d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 02/21] fix: finalize_structure() drops the caches of the
 previous structure

Re-finalizing kept sparse_jacobian_valid_ (the next evaluation copied values into
the wrong pattern or threw), kept dense caches of the old size (rows and columns
of the new structure written next to stale ones) and, when it threw, left the
graph marked finalized with half-built placements.
---
 src/factorama/factor_graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1f414b..33543f1 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -249,6 +249,10 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Everything cached belongs to the previous structure. The flag is raised again only once the new structure
+        // is complete, so a finalize that throws leaves the graph un-finalized.
+        invalidate_structure();
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From c7734330fb9417c1ed59becfdca4fc8338f267e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 03/21] fix: a failed dense evaluation does not leave a
 half-updated cache marked valid

---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 33543f1..684d9d5 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -142,6 +142,9 @@ namespace factorama
             cached_residual_ = Eigen::VectorXd::Zero(num_residuals_);
         }
 
+        // Not valid while it is being refilled: an evaluation that throws must not leave a mix of old and new rows
+        residual_valid_ = false;
+
         compute_full_residual_vector(cached_residual_);
 
         residual_valid_ = true;
@@ -178,6 +181,9 @@ namespace factorama
             cached_jacobian_ = Eigen::MatrixXd::Zero(num_residuals_, num_values_);
         }
 
+        // Not valid while it is being refilled: an evaluation that throws must not leave a mix of old and new blocks
+        jacobian_valid_ = false;
+
         for (const auto& it : factor_placement_) {
             auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
-- 
2.43.0


From 16e884ba3a9016dc351a6a751e73d082584cdda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 04/21] fix:
 get_variable_vector/set_variable_values_from_vector check their preconditions

The setter sliced the input without checking its length and the getter wrote past
a vector sized by an out-of-date structure; with NDEBUG both were out-of-bounds
accesses.
---
 src/factorama/factor_graph.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 684d9d5..f80ac0b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -61,6 +61,10 @@ namespace factorama
 
     Eigen::VectorXd FactorGraph::get_variable_vector() const
     {
+        if (!structure_finalized_) {
+            throw std::runtime_error("get_variable_vector: must call finalize_structure() first");
+        }
+
         Eigen::VectorXd x(num_values());
         int offset = 0;
         for (const auto& var : variables_vector_) {
@@ -89,6 +93,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int total_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                total_size += var->size();
+            }
+        }
+        if (x.size() != total_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(total_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From cf5e3ce359f6ad5de029226b174de9679dd73073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 05/21] fix: ComputeNumericalJacobians restores the variable
 when an evaluation throws

---
 src/factorama/numerical_jacobian.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/factorama/numerical_jacobian.hpp b/src/factorama/numerical_jacobian.hpp
index 524e913..d0acf84 100644
--- a/src/factorama/numerical_jacobian.hpp
+++ b/src/factorama/numerical_jacobian.hpp
@@ -58,19 +58,27 @@ namespace factorama
                     Eigen::VectorXd dx = Eigen::VectorXd::Zero(var_dim);
                     dx[k] = epsilon;
 
-                    // Apply +epsilon
-                    var->apply_increment(dx);
-                    Eigen::VectorXd res_plus = factor.compute_residual();
+                    Eigen::VectorXd res_plus;
+                    Eigen::VectorXd res_minus;
+                    try {
+                        // Apply +epsilon
+                        var->apply_increment(dx);
+                        res_plus = factor.compute_residual();
 
-                    // Reset
-                    var->set_value_from_vector(x0);
+                        // Reset
+                        var->set_value_from_vector(x0);
 
-                    // Apply -epsilon
-                    var->apply_increment(-dx);
-                    Eigen::VectorXd res_minus = factor.compute_residual();
+                        // Apply -epsilon
+                        var->apply_increment(-dx);
+                        res_minus = factor.compute_residual();
 
-                    // Reset again
-                    var->set_value_from_vector(x0);
+                        // Reset again
+                        var->set_value_from_vector(x0);
+                    } catch (...) {
+                        // The promise to restore the variables also holds when an evaluation throws
+                        var->set_value_from_vector(x0);
+                        throw;
+                    }
 
                     // Central difference
                     jacobians_out[vi].col(k) = (res_plus - res_minus) / (2.0 * epsilon);
-- 
2.43.0


From dfc24a0e7384a3164b4e612a664b409e6c475413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 06/21] fix: set_value_from_vector/apply_increment refuse
 vectors of the wrong size

The other variables already did; a pose, landmark, inverse-range or rotation
variable silently took on a value of another dimension.
---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From ea4513c0d006a3b8b4dac14ea7a06ceb825517d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 07/21] fix: one Jacobian block per variable whatever the
 output vector held before

GenericPriorFactor returned two blocks for a constant variable, and
CoordinateTransformFactor wrote past the end of a vector it had resized to 2.
---
 src/factorama/coordinate_transform_factor.hpp | 4 ++--
 src/factorama/generic_prior_factor.hpp        | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..875ca08 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -111,12 +111,12 @@ namespace factorama
             double scale = scale_AB_->value()[0];
             const Eigen::Vector3d& lm_B = lm_B_->value();
 
-            // Ensure jacobians vector has correct size for 2 variables
+            // Ensure jacobians vector has correct size for 5 variables
             if (jacobians_out.size() == 0) {
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 92166dc3db7838a5ee467b8b26117331aae208d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 08/21] fix: time measurements use the monotonic clock, and the
 Jacobian stopwatch is reset

high_resolution_clock is the system clock with libstdc++, so a clock step gave
negative or huge durations; residual_stopwatch_ was reset twice.
---
 src/factorama/sparse_optimizer.cpp | 6 +++---
 src/factorama/stopwatch.hpp        | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..a0aa21b 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -155,7 +155,7 @@ namespace factorama
         current_stats_.current_iteration = 0;
 
         residual_stopwatch_.reset();
-        residual_stopwatch_.reset();
+        jacobian_stopwatch_.reset();
         hessian_stopwatch_.reset();
         solve_stopwatch_.reset();
         update_vars_stopwatch_.reset();
@@ -181,7 +181,7 @@ namespace factorama
             std::cout << "=================================\n";
         }
 
-        auto start_time = std::chrono::high_resolution_clock::now();
+        auto start_time = std::chrono::steady_clock::now();
 
         // Main optimization loop (following SPARSE METHOD 2 pattern)
         for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
@@ -265,7 +265,7 @@ namespace factorama
             }
         }
 
-        auto end_time = std::chrono::high_resolution_clock::now();
+        auto end_time = std::chrono::steady_clock::now();
         std::chrono::duration<double> elapsed_sec = end_time - start_time;
 
         // Set final status if still RUNNING (max iterations reached)
diff --git a/src/factorama/stopwatch.hpp b/src/factorama/stopwatch.hpp
index 814b188..8b5f940 100644
--- a/src/factorama/stopwatch.hpp
+++ b/src/factorama/stopwatch.hpp
@@ -18,7 +18,7 @@ namespace factorama
                 return;
             }
             is_running_ = true;
-            start_time_ = std::chrono::high_resolution_clock::now();
+            start_time_ = std::chrono::steady_clock::now();
         }
 
         void stop()
@@ -26,7 +26,7 @@ namespace factorama
             if (!is_running_) {
                 return;
             }
-            auto end_time = std::chrono::high_resolution_clock::now();
+            auto end_time = std::chrono::steady_clock::now();
             std::chrono::duration<double> duration = end_time - start_time_;
             accumulated_time_ += duration.count();
             is_running_ = false;
@@ -42,7 +42,7 @@ namespace factorama
         {
             double total = accumulated_time_;
             if (is_running_) {
-                auto current_time = std::chrono::high_resolution_clock::now();
+                auto current_time = std::chrono::steady_clock::now();
                 std::chrono::duration<double> duration = current_time - start_time_;
                 total += duration.count();
             }
@@ -52,6 +52,6 @@ namespace factorama
     private:
         bool is_running_;
         double accumulated_time_;
-        std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+        std::chrono::time_point<std::chrono::steady_clock> start_time_;
     };
 } // namespace factorama
-- 
2.43.0


From 8696334d8907014909a9be25dc2712ad5b8664f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 09/21] fix: optimize() with every variable constant does
 nothing instead of reducing an empty vector

---
 src/factorama/sparse_optimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a0aa21b..0c2a423 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -184,7 +184,8 @@ namespace factorama
         auto start_time = std::chrono::steady_clock::now();
 
         // Main optimization loop (following SPARSE METHOD 2 pattern)
-        for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
+        // (with nothing to estimate there is nothing to iterate on)
+        for (size_t i = 0; graph_->num_values() > 0 && i < settings_.max_num_iterations; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
 
             if (verbose_iteration) {
-- 
2.43.0


From 58fd13bb2e70939dc6e8b229cc55a5ca10662d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 10/21] fix: a step interrupted by an exception is rolled back

An exception out of a factor or a failed allocation between the update and the
statistics left the variables at a half-applied step (or, with LM, at a rejected
trial) while the statistics described another state; one not derived from
std::exception left the run RUNNING and valid. Constant variables are no longer
written when an LM trial is rejected.
---
 src/factorama/sparse_optimizer.cpp | 41 +++++++++++++++++++++++++++++-
 src/factorama/sparse_optimizer.hpp |  5 ++++
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0c2a423..c68d9fd 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -150,7 +150,6 @@ namespace factorama
 
         // Initialize stats
         current_stats_ = OptimizerStats{};
-        current_stats_.valid = true;
         current_stats_.status = OptimizerStatus::RUNNING;
         current_stats_.current_iteration = 0;
 
@@ -164,6 +163,7 @@ namespace factorama
         const Eigen::VectorXd initial_residual = graph_->compute_full_residual_vector();
         current_stats_.residual_norm = initial_residual.norm();
         current_stats_.chi2 = initial_residual.squaredNorm();
+        current_stats_.valid = true;
 
         initial_stats_ = current_stats_;
 
@@ -196,7 +196,11 @@ namespace factorama
             auto prev_stats = current_stats_;
 
             // Perform one optimization step based on selected method
+            bool checkpoint_complete = false;
             try {
+                save_checkpoint();
+                checkpoint_complete = true;
+
                 if (settings_.method == OptimizerMethod::GaussNewton) {
                     single_step_gauss_newton();
                 } else {
@@ -204,9 +208,22 @@ namespace factorama
                 }
             } catch (const std::exception& e) {
                 std::cerr << "[SparseOptimizer] Error in iteration " << i << ": " << e.what() << std::endl;
+                // The step may have been interrupted half-way: go back to the state the statistics describe
+                current_stats_ = prev_stats;
                 current_stats_.valid = false;
                 current_stats_.status = OptimizerStatus::FAILED;
+                if (checkpoint_complete) {
+                    restore_checkpoint();
+                }
                 break;
+            } catch (...) {
+                current_stats_ = prev_stats;
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+                if (checkpoint_complete) {
+                    restore_checkpoint();
+                }
+                throw;
             }
 
             // Check if step failed due to matrix issues
@@ -308,6 +325,25 @@ namespace factorama
         optimization_complete_ = true;
     }
 
+    void SparseOptimizer::save_checkpoint()
+    {
+        const auto& variables = graph_->get_all_variables();
+        checkpoint_values_.resize(variables.size());
+        for (size_t i = 0; i < variables.size(); ++i) {
+            checkpoint_values_[i] = variables[i]->value();
+        }
+    }
+
+    void SparseOptimizer::restore_checkpoint()
+    {
+        const auto& variables = graph_->get_all_variables();
+        for (size_t i = 0; i < variables.size(); ++i) {
+            if (!variables[i]->is_constant()) {
+                variables[i]->set_value_from_vector(checkpoint_values_[i]);
+            }
+        }
+    }
+
     void SparseOptimizer::single_step_levenberg_marquardt()
     {
         if (!graph_) {
@@ -445,6 +481,9 @@ namespace factorama
                 update_vars_stopwatch_.start();
                 // Reject step: restore original values and increase damping
                 for (size_t i = 0; i < variables.size(); ++i) {
+                    if (variables[i]->is_constant()) {
+                        continue;
+                    }
                     variables[i]->set_value_from_vector(original_values[i]);
                 }
 
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index 93dee55..e52a815 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -177,6 +177,11 @@ namespace factorama
         void single_step_gauss_newton();
         void single_step_levenberg_marquardt();
 
+        // Values at the start of the current iteration, to go back to when a step is interrupted by an exception
+        void save_checkpoint();
+        void restore_checkpoint();
+        std::vector<Eigen::VectorXd> checkpoint_values_;
+
         // Internal utilities (e.g., convergence check, logging, damping updates)
         bool check_convergence();
         void print_iteration_summary();
-- 
2.43.0


From 204a827d5fac9b61fc2787b60cd6b80e5cec8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 11/21] fix: non-finite residuals and steps end the run as
 FAILED

They were compared with < all the way through, so a NaN was applied to every
variable and the run ended after max_num_iterations with SUCCESS.
---
 src/factorama/sparse_optimizer.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index c68d9fd..15976e8 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 
 namespace factorama
 {
@@ -83,6 +84,15 @@ namespace factorama
             return;
         }
 
+        if (!dx.allFinite()) {
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+            if (settings_.verbose) {
+                std::cerr << "[SparseOptimizer] Solution of the linear system is not finite.\n";
+            }
+            return;
+        }
+
         dx *= settings_.learning_rate;
 
         // Step 4: Apply increment (todo - push this into the factor graph)
@@ -107,6 +117,9 @@ namespace factorama
 
         // Step 5: Compute updated residual and update statistics
         graph_->compute_full_residual_vector(residual2_);
+        if (!std::isfinite(residual2_.squaredNorm())) {
+            throw std::runtime_error("[SparseOptimizer] Residual is not finite after the step.");
+        }
         current_stats_.delta_norm = dx.norm();
         current_stats_.chi2 = residual2_.squaredNorm();
         current_stats_.residual_norm = residual2_.norm();
@@ -183,9 +196,15 @@ namespace factorama
 
         auto start_time = std::chrono::steady_clock::now();
 
+        // No step can be computed from a residual that is not finite
+        if (!std::isfinite(current_stats_.chi2)) {
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+        }
+
         // Main optimization loop (following SPARSE METHOD 2 pattern)
         // (with nothing to estimate there is nothing to iterate on)
-        for (size_t i = 0; graph_->num_values() > 0 && i < settings_.max_num_iterations; ++i) {
+        for (size_t i = 0; current_stats_.valid && graph_->num_values() > 0 && i < settings_.max_num_iterations; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
 
             if (verbose_iteration) {
@@ -362,6 +381,9 @@ namespace factorama
         jacobian_stopwatch_.stop();
 
         double current_cost = 0.5 * residual1_.squaredNorm();
+        if (!std::isfinite(current_cost)) {
+            throw std::runtime_error("[SparseOptimizer] Residual is not finite.");
+        }
 
         // Initialize damping parameter if this is the first iteration
         if (current_stats_.current_iteration == 0) {
@@ -420,7 +442,7 @@ namespace factorama
             }
 
             dx = sparse_solver_.solve(b);
-            if (sparse_solver_.info() != Eigen::Success) {
+            if (sparse_solver_.info() != Eigen::Success || !dx.allFinite()) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 lm_attempts++;
                 if (settings_.verbose) {
-- 
2.43.0


From 04985f982b5a1bccf1450baf23a5b22288b49fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/21] fix: covariances belong to the last run, the current
 values and the current structure

A second optimize() kept the prepared flag while overwriting the factorization,
the Jacobian used was the one from before the last step, a graph extended after
prepare_to_estimate_covariances() was indexed with placements the factorization
does not have, and a graph without free variables reduced an empty diagonal.
---
 src/factorama/factor_graph.cpp     |  1 +
 src/factorama/factor_graph.hpp     |  4 ++++
 src/factorama/sparse_optimizer.cpp | 32 ++++++++++++++++++++++++------
 src/factorama/sparse_optimizer.hpp |  1 +
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f80ac0b..3814381 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -713,6 +713,7 @@ namespace factorama
 
     void FactorGraph::invalidate_structure()
     {
+        structure_revision_++;
         structure_finalized_ = false;
         jacobian_valid_ = false;
         residual_valid_ = false;
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 57d8d5b..421db58 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -157,6 +157,9 @@ namespace factorama
         bool jacobian_valid() const { return jacobian_valid_; }
         bool residual_valid() const { return residual_valid_; }
 
+        // Changes whenever the structure does (anything added, or finalize_structure() called)
+        size_t structure_revision() const { return structure_revision_; }
+
         // Type-safe variable lookup
         template <typename T>
         std::vector<std::shared_ptr<T>> get_variables_of_type() const
@@ -224,6 +227,7 @@ namespace factorama
 
         // Structure bookkeeping
         bool structure_finalized_ = false;
+        size_t structure_revision_ = 0;
         std::unordered_map<int, VariablePlacement> variable_placement_;
         std::unordered_map<int, FactorPlacement> factor_placement_;
 
diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 15976e8..fdfb446 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -161,6 +161,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // Covariances prepared earlier belong to the previous run, and its factorization is about to be overwritten
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.status = OptimizerStatus::RUNNING;
@@ -589,10 +593,8 @@ namespace factorama
     {
         // Assume the graph has already been optimized - estimate the covariance of each variable
 
-        if (cached_hessian_valid_for_covariance_est_) {
-            // early end, if it was already valid
-            return;
-        }
+        // Recomputed on every call: the variables may have moved since the last one
+        cached_hessian_valid_for_covariance_est_ = false;
 
         if (!optimization_complete_) {
 
@@ -601,8 +603,12 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Get the sparse jacobian at the current values (the one left by the optimizer is from before its
+        // last step)
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
+        if (J.cols() == 0) {
+            return;
+        }
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
@@ -631,6 +637,7 @@ namespace factorama
             // Note: We still allow covariance estimation to proceed, but warn the user
         }
 
+        cached_hessian_revision_ = graph_->structure_revision();
         cached_hessian_valid_for_covariance_est_ = true;
 
         if (settings_.verbose) {
@@ -687,6 +694,15 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
+        // The factorization is only good for the structure it was made from
+        if (cached_hessian_revision_ != graph_->structure_revision() || placement.variable != variable ||
+            placement.dim != variable->size()) {
+            if (settings_.verbose) {
+                std::cerr << "variable is not part of the structure the covariance was prepared for" << std::endl;
+            }
+            return Eigen::MatrixXd();
+        }
+
         // Given the placement, grab the indices into the hessian
         int total_hessian_size = cached_hessian_.rows();
         int variable_size = placement.dim;
@@ -726,6 +742,10 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
+        if (!graph_) {
+            throw std::runtime_error("[SparseOptimizer] No factor graph set.");
+        }
+
         if (!cached_hessian_valid_for_covariance_est_) {
             prepare_to_estimate_covariances();
         }
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index e52a815..81fb765 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -160,6 +160,7 @@ namespace factorama
         // Cached Hessian (for covariance estimates)
         bool cached_hessian_valid_for_covariance_est_ = false;
         Eigen::SparseMatrix<double> cached_hessian_;
+        size_t cached_hessian_revision_ = 0; // structure of the graph the hessian was computed for
 
         // Cached Residuals
         Eigen::VectorXd residual1_;
-- 
2.43.0


From ac373513468c970ee055b88ef72c3634f6ac31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 13/21] fix: Python objects keep alive what they refer to

Factor.variables() and FactorGraph.get_variable() wrapped bare pointers with
take_ownership (double free once the wrapper was collected), factors did not
keep the variables they point to alive, and the arrays returned by reference
outlived the object, or the cache was reallocated under them. Arrays owned by
the graph are now copied, because the next finalize_structure() reallocates
them; the other references keep their owner alive.
---
 .../python/factorama/_factorama.cpp           | 103 +++++++++++-------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..e2dac16 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::reference_internal)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -94,7 +94,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference_internal)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference_internal);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference_internal)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference_internal)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference_internal)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -163,7 +163,8 @@ PYBIND11_MODULE(_factorama, m) {
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
 
     py::class_<factorama::GenericPriorFactor, 
@@ -171,78 +172,92 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
-             py::arg("sigma") = 1.0, py::arg("local_frame") = false);
+             py::arg("sigma") = 1.0, py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
+             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
+             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
-             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
+             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
-             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
+             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
@@ -250,7 +265,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a RangeBearingFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
-             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
+             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("range_obs", &factorama::RangeBearingFactor2D::range_obs)
         .def("bearing_angle_obs", &factorama::RangeBearingFactor2D::bearing_angle_obs);
 
@@ -258,13 +274,15 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
-             py::arg("position_sigma"), py::arg("angle_sigma"));
+             py::arg("position_sigma"), py::arg("angle_sigma"),
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
-             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
+             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::CoordinateTransformFactor, std::shared_ptr<factorama::CoordinateTransformFactor>, factorama::Factor>(m, "CoordinateTransformFactor")
         .def(py::init<int, factorama::RotationVariable*, factorama::GenericVariable*,
@@ -273,7 +291,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a CoordinateTransformFactor",
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
-             py::arg("sigma") = 1.0)
+             py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>())
         .def("weight", &factorama::CoordinateTransformFactor::weight);
 
     // Optimizer enums and settings
@@ -317,26 +336,34 @@ PYBIND11_MODULE(_factorama, m) {
     // Bind main classes
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
-        .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_variable", &factorama::FactorGraph::add_variable, py::keep_alive<1, 2>())
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", [](const factorama::FactorGraph& self, int id) -> std::shared_ptr<factorama::Variable> {
+            const factorama::Variable* found = self.get_variable(id);
+            for (const auto& variable : self.get_all_variables()) {
+                if (variable.get() == found) {
+                    return variable; // shares ownership, unlike the bare pointer
+                }
+            }
+            return nullptr;
+        })
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -352,7 +379,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
@@ -362,7 +389,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 4b0ce960ae438111a4158bc15dd1efd51fcee6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 14/21] fix: sparse Jacobian values go to the right entries
 after re-finalizing

Eigen leaves gaps between the columns when the matrix still owns a larger buffer
from the previous structure; the second evaluation then copied its values across
the gaps. A Jacobian without entries could be evaluated only once.
---
 src/factorama/factor_graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 3814381..caa6e7b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -508,8 +508,10 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // Leave no gaps between the columns: copy_sparse_data_to_eigen_matrix() relies on it
+            if (num_values_ > 0) {
+                sparse_jacobian_.makeCompressed();
+            }
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
@@ -728,7 +730,7 @@ namespace factorama
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
         // Validate preconditions
-        if (!values) {
+        if (!values && total_nonzeros != 0) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
         }
         if (total_nonzeros < 0) {
-- 
2.43.0


From 7ce1e0aae0549e06c8a40569980e8bd54ecad1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 15/21] fix: print_jacobian_and_residual() does not decompose
 an empty or non-finite Jacobian

Eigen leaves the decomposition uninitialised for non-finite input, and rank()
then reads out of bounds.
---
 src/factorama/factor_graph.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index caa6e7b..4c5d7d7 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -564,9 +564,14 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        if (cached_jacobian_.size() == 0 || !cached_jacobian_.allFinite()) {
+            // There is no decomposition to read a rank from
+            std::cout << "Jacobian rank: not available\n";
+        } else {
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
-- 
2.43.0


From 4f410958ecb788ad9f6497c5d55216df80002261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 16/21] fix: a covariance is exactly symmetric (its transpose
 aliased the matrix being assigned)

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index fdfb446..b38bc37 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -736,7 +736,7 @@ namespace factorama
 
         covariance_valid = true;
         // Normalize P to be symmetric
-        P = 0.5 * (P + P.transpose());
+        P = (0.5 * (P + P.transpose())).eval();
         return P;
     }
 
-- 
2.43.0


From 7c9732c1c90542225e33c6b119f1bc68d50c0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 17/21] fix: finalize_structure() refuses a factor on another
 variable with the ID of an added one

---
 src/factorama/factor_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 4c5d7d7..2b53877 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -321,6 +321,11 @@ namespace factorama
                                              ". Variable may not have been added to the factor graph.");
                 }
 
+                if (var_placement.variable != var) {
+                    throw std::runtime_error("Factor: " + factor->name() + " uses a variable that shares the ID of " +
+                                             var->name() + " but is not the one added to the factor graph.");
+                }
+
                 placement.variable_column_indices.push_back(var_placement.index);
                 placement.variable_dims.push_back(var_placement.dim);
             }
-- 
2.43.0


From c6d2104f0065d2e3dcb07249b912a5cae93bed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 18/21] fix: detailed_factor_test() fails a factor with a
 non-finite Jacobian

---
 src/factorama/factor_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 2b53877..f57c1dd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -677,7 +677,8 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                // A comparison with NaN is false, and maxCoeff() may skip one
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From 24ed01f0df1e0bfbaa6080bfda8ce87007500c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 19/21] fix: factor_placement() is looked up by factor ID

finalize_structure() stored the placements under the insertion index, while
factor_placement(id) and factor_placement_map() are documented to be keyed by
the factor's ID, like variable_placement(). A lookup by ID returned another
factor's rows, or none, unless IDs happened to be 0..n-1 in insertion order.
---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f57c1dd..b412136 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -331,7 +331,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -349,7 +349,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -380,7 +380,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -430,7 +430,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            auto factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From a73eac81013c677c2458d54407cad2dbf320e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:28 +0000
Subject: [PATCH 20/21] fix: assigning a FactorGraph is all or nothing, and is
 a change of structure

A memberwise assignment interrupted by a failing allocation left a mix of both graphs
(bare pointers of the one beside the containers of the other), and covariances prepared
before an assignment were still reported valid when both graphs had seen equally many edits.
---
 src/factorama/factor_graph.cpp | 41 ++++++++++++++++++++++++++++++++++
 src/factorama/factor_graph.hpp |  9 +++++++-
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index b412136..2b12a3f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -1,7 +1,9 @@
 #include "factorama/factor_graph.hpp"
 #include "factorama/numerical_jacobian.hpp"
+#include <algorithm>
 #include <stdexcept>
 #include <iostream>
+#include <utility>
 
 namespace factorama
 {
@@ -724,6 +726,45 @@ namespace factorama
         return all_passed;
     }
 
+    FactorGraph::FactorGraph(FactorGraph&& other)
+        : FactorGraph()
+    {
+        swap(other);
+    }
+
+    FactorGraph& FactorGraph::operator=(FactorGraph other)
+    {
+        swap(other);
+        return *this;
+    }
+
+    void FactorGraph::swap(FactorGraph& other)
+    {
+        std::swap(variables_map_, other.variables_map_);
+        std::swap(variables_vector_, other.variables_vector_);
+        std::swap(factors_map_, other.factors_map_);
+        std::swap(factors_, other.factors_);
+        std::swap(structure_finalized_, other.structure_finalized_);
+        std::swap(variable_placement_, other.variable_placement_);
+        std::swap(factor_placement_, other.factor_placement_);
+        std::swap(num_residuals_, other.num_residuals_);
+        std::swap(num_values_, other.num_values_);
+        cached_jacobian_.swap(other.cached_jacobian_);
+        std::swap(jacobian_valid_, other.jacobian_valid_);
+        cached_residual_.swap(other.cached_residual_);
+        std::swap(residual_valid_, other.residual_valid_);
+        sparse_jacobian_.swap(other.sparse_jacobian_);
+        std::swap(sparse_jacobian_components_, other.sparse_jacobian_components_);
+        std::swap(sparse_jacobian_initialized_, other.sparse_jacobian_initialized_);
+        std::swap(sparse_jacobian_valid_, other.sparse_jacobian_valid_);
+        std::swap(sparse_jacobian_row_indices_, other.sparse_jacobian_row_indices_);
+        std::swap(sparse_jacobian_data_, other.sparse_jacobian_data_);
+        std::swap(verbose_, other.verbose_);
+
+        // Both hold something else now, even if the two have seen equally many changes
+        structure_revision_ = other.structure_revision_ = std::max(structure_revision_, other.structure_revision_) + 1;
+    }
+
     void FactorGraph::invalidate_structure()
     {
         structure_revision_++;
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 421db58..987961e 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -50,6 +50,12 @@ namespace factorama
     public:
         FactorGraph() = default;
 
+        // A copy shares the variables and factors, and nothing else. An assignment either succeeds or changes nothing;
+        // a graph that was moved from is empty.
+        FactorGraph(const FactorGraph& other) = default;
+        FactorGraph(FactorGraph&& other);
+        FactorGraph& operator=(FactorGraph other);
+
         /**
          * @brief Add a variable to the factor graph
          * @param variable Shared pointer to any Variable subclass (PoseVariable, LandmarkVariable, etc.)
@@ -157,7 +163,7 @@ namespace factorama
         bool jacobian_valid() const { return jacobian_valid_; }
         bool residual_valid() const { return residual_valid_; }
 
-        // Changes whenever the structure does (anything added, or finalize_structure() called)
+        // Changes whenever the structure does (anything added, finalize_structure() called, or another graph assigned)
         size_t structure_revision() const { return structure_revision_; }
 
         // Type-safe variable lookup
@@ -256,6 +262,7 @@ namespace factorama
         bool verbose_ = false;
 
         // Helper functions
+        void swap(FactorGraph& other);
         void invalidate_structure(); // drop everything derived from the set of variables and factors
         void copy_sparse_data_to_eigen_matrix();
     };
-- 
2.43.0


From 614eba6555b6f9b51c11cfd17c37276a71cc4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 21/21] fix: the sparse Jacobian of a graph without free
 variables stays compressed

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 2b12a3f..b01ab45 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -407,7 +407,9 @@ namespace factorama
 
         // Preallocate the sparse jacobian
         sparse_jacobian_ = Eigen::SparseMatrix<double>(num_residuals_, num_values_);
-        sparse_jacobian_.reserve(num_sparse_rows);
+        if (num_values_ > 0) { // Eigen cannot compress a matrix without columns again
+            sparse_jacobian_.reserve(num_sparse_rows);
+        }
 
         sparse_jacobian_initialized_ = true;
 
-- 
2.43.0

