From 5ea3416d453de555471a1ce5878b4f3ed7cdbc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 01/39] fix: clear the handle's error record on entry to the
 print and save functions

da_options_print, da_datastore_options_print, da_handle_save_model (null file name) and
da_handle_print_model_versions could record an error on top of the one left by an earlier
call, so the earlier one was still reported.
---
 source/core/utilities/da_handle_public.cpp | 3 ++-
 source/core/utilities/options_public.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 3b74c07..a4f6493 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -296,11 +296,11 @@ da_status da_handle_save_model(da_handle handle, const char *file_name) {
     if (handle == nullptr) {
         return da_status_invalid_pointer;
     }
+    handle->clear(); // Clean up handle logs
     if (!file_name) {
         return da_error(handle->err, da_status_invalid_pointer,
                         "file_name cannot be null.");
     }
-    handle->clear(); // Clean up handle logs
 
     return handle->save_handle(std::string(file_name));
 }
@@ -347,6 +347,7 @@ da_status da_handle_load_model(da_handle *handle, const char *file_name) {
 da_status da_handle_print_model_versions(da_handle handle) {
     if (handle == nullptr)
         return da_status_invalid_pointer;
+    handle->clear(); // Clean up handle logs
     return handle->print_model_versions();
 }
 
diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..d8f452c 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -125,6 +125,7 @@ da_status da_options_get(da_handle handle, const char *option, T *value) {
 da_status da_options_print(da_handle handle) {
     if (!handle)
         return da_status_handle_not_initialized;
+    handle->clear(); // Clean up handle logs
 
     da_options::OptionRegistry *opts;
     da_status status = handle->get_current_opts(&opts);
@@ -132,7 +133,6 @@ da_status da_options_print(da_handle handle) {
         return status; // Error message already loaded
 
     opts->print_details();
-    handle->clear(); // Clean up handle logs
     return da_status_success;
 }
 
@@ -201,9 +201,9 @@ da_status da_datastore_options_get(da_datastore store, const char *option, T *va
 da_status da_datastore_options_print(da_datastore store) {
     if (!store)
         return da_status_store_not_initialized;
+    store->clear(); // Clean up store logs
     if (store->opts) {
         store->opts->print_details();
-        store->clear(); // Clean up store logs
         return da_status_success;
     } else {
         return da_error(store->err, da_status_internal_error, "store is invalid?");
-- 
2.43.0


From 9317cccf9b3aa2d37937c720100d57506bcf91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:03 +0000
Subject: [PATCH 02/39] fix: decision trees and forests report failures of the
 steps they run

---
 .../forest/decision_forest.hpp                | 10 +--
 .../forest/decision_forest_inference.hpp      | 66 +++++++++++++++----
 .../forest/decision_forest_training.hpp       | 11 +++-
 .../tree/decision_tree_training_fit.hpp       | 18 +++--
 .../tree/decision_tree_training_memory.hpp    |  7 +-
 5 files changed, 85 insertions(+), 27 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.hpp b/source/core/decision_forest/forest/decision_forest.hpp
index c020702..67ed91a 100644
--- a/source/core/decision_forest/forest/decision_forest.hpp
+++ b/source/core/decision_forest/forest/decision_forest.hpp
@@ -103,11 +103,11 @@ template <typename T> class decision_forest : public basic_handle<T> {
                                 da_int ldx, const da_int *y, da_int n_class = 0,
                                 const da_int *usr_cat_feat = nullptr);
     da_status fit();
-    void parallel_count_classes(const T *X_test, da_int ldx_test, const da_int &n_blocks,
-                                const da_int &block_size, const da_int &block_rem,
-                                const da_int &n_threads,
-                                std::vector<da_int> &count_classes,
-                                std::vector<da_int> &y_pred_tree);
+    da_status parallel_count_classes(const T *X_test, da_int ldx_test,
+                                     const da_int &n_blocks, const da_int &block_size,
+                                     const da_int &block_rem, const da_int &n_threads,
+                                     std::vector<da_int> &count_classes,
+                                     std::vector<da_int> &y_pred_tree);
     da_status predict(da_int nn_samples, da_int n_features, const T *X, da_int ldx,
                       da_int *y_pred);
     da_status predict_proba(da_int nsamp, da_int nfeat, const T *X_test, da_int ldx_test,
diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..1dfe879 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -35,14 +35,15 @@ namespace ARCH {
 namespace da_decision_forest {
 
 template <typename T>
-void decision_forest<T>::parallel_count_classes(
+da_status decision_forest<T>::parallel_count_classes(
     const T *X_test, da_int ldx_test, const da_int &n_blocks, const da_int &block_size,
     const da_int &block_rem, [[maybe_unused]] const da_int &n_threads,
     std::vector<da_int> &count_classes, std::vector<da_int> &y_pred_tree) {
 
+    da_int n_failed_tree = 0;
 #pragma omp parallel for collapse(2)                                                     \
     shared(n_blocks, forest, y_pred_tree, n_features, X_test, ldx_test, count_classes,   \
-               block_rem, block_size) default(none)
+               block_rem, block_size, n_failed_tree) default(none)
     for (da_int i_block = 0; i_block < n_blocks; i_block++) {
         for (auto &tree : forest) {
             da_int start_idx = i_block * block_size;
@@ -52,8 +53,14 @@ void decision_forest<T>::parallel_count_classes(
             if (i_block == n_blocks - 1 && block_rem > 0) {
                 n_elem = block_rem;
             }
-            tree->predict(n_elem, n_features, &X_test[start_idx], ldx_test,
-                          &(y_pred_tree.data()[start_pred_idx]), 2);
+            da_status tree_status =
+                tree->predict(n_elem, n_features, &X_test[start_idx], ldx_test,
+                              &(y_pred_tree.data()[start_pred_idx]), 2);
+            if (tree_status != da_status_success) {
+#pragma omp atomic
+                n_failed_tree++;
+                continue;
+            }
             for (da_int i = 0; i < n_elem; i++) {
                 da_int c = y_pred_tree[start_pred_idx + i];
 #pragma omp atomic update
@@ -61,6 +68,10 @@ void decision_forest<T>::parallel_count_classes(
             }
         }
     }
+
+    if (n_failed_tree != 0)
+        return da_status_internal_error; // LCOV_EXCL_LINE
+    return da_status_success;
 }
 
 template <typename T>
@@ -115,8 +126,14 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    parallel_count_classes(X_test_temp, ldx_test_temp, n_blocks, block_size, block_rem,
-                           n_threads, count_classes, y_pred_tree);
+    status = parallel_count_classes(X_test_temp, ldx_test_temp, n_blocks, block_size,
+                                    block_rem, n_threads, count_classes, y_pred_tree);
+    if (status != da_status_success) {
+        if (utility_ptr1)                                    // LCOV_EXCL_LINE
+            delete[] (utility_ptr1);                         // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                        "The evaluation of a tree failed unexpectedly.");
+    }
 
 #pragma omp parallel for shared(nsamp, n_class, y_pred, count_classes) default(none)
     for (da_int i = 0; i < nsamp; i++) {
@@ -192,9 +209,10 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                         "Memory allocation failed.");
     }
 
+    da_int n_failed_tree = 0;
 #pragma omp parallel for collapse(2)                                                     \
     shared(sum_proba, nsamp, nfeat, X_test_temp, ldx_test_temp, n_blocks, block_rem,     \
-               y_proba_tree, n_threads) default(none)
+               y_proba_tree, n_threads, n_failed_tree) default(none)
     for (da_int i_block = 0; i_block < n_blocks; i_block++) {
         for (auto &tree : forest) {
             da_int start_idx = i_block * block_size;
@@ -204,9 +222,14 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
             if (i_block == n_blocks - 1 && block_rem > 0) {
                 n_elem = block_rem;
             }
-            tree->predict_proba(n_elem, n_features, &X_test_temp[start_idx],
-                                ldx_test_temp, &y_proba_tree.data()[start_pred_idx],
-                                n_class, n_threads * block_size, 2);
+            da_status tree_status = tree->predict_proba(
+                n_elem, n_features, &X_test_temp[start_idx], ldx_test_temp,
+                &y_proba_tree.data()[start_pred_idx], n_class, n_threads * block_size, 2);
+            if (tree_status != da_status_success) {
+#pragma omp atomic
+                n_failed_tree++;
+                continue;
+            }
             for (da_int i = 0; i < n_elem; i++) {
                 for (da_int j = 0; j < n_class; j++) {
 #pragma omp atomic update
@@ -216,6 +239,14 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
             }
         }
     }
+    if (n_failed_tree != 0) {
+        if (this->order == row_major) { // LCOV_EXCL_LINE
+            delete[] (utility_ptr1);    // LCOV_EXCL_LINE
+            delete[] (utility_ptr2);    // LCOV_EXCL_LINE
+        }
+        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                        "The evaluation of a tree failed unexpectedly.");
+    }
 
 #pragma omp parallel for shared(nsamp, n_class, ldy_proba_temp, y_proba_temp, sum_proba, \
                                     n_tree) default(none)
@@ -249,7 +280,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status; // Error message already filled
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
@@ -321,8 +355,14 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    parallel_count_classes(X_test_temp, ldx_test_temp, n_blocks, block_size, block_rem,
-                           n_threads, count_classes, y_pred_tree);
+    status = parallel_count_classes(X_test_temp, ldx_test_temp, n_blocks, block_size,
+                                    block_rem, n_threads, count_classes, y_pred_tree);
+    if (status != da_status_success) {
+        if (utility_ptr1)                                    // LCOV_EXCL_LINE
+            delete[] (utility_ptr1);                         // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                        "The evaluation of a tree failed unexpectedly.");
+    }
 
     *score = 0;
 #pragma omp parallel for shared(nsamp, n_class, y_test, count_classes,                   \
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index b6bb16e..4ec1a2c 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -128,8 +128,12 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error(this->err, da_status_invalid_option,
                         std::string("Exception: ") + e.what());
     }
-    if (use_hist)
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+    if (use_hist) {
+        da_status status = X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+    }
 
     // Initialize the seeds of all the trees to be able to reproduce results if required
     std::mt19937 mt_engine;
@@ -207,7 +211,8 @@ template <typename T> da_status decision_forest<T>::fit() {
         tree_status =
             forest[i]->set_training_data(n_samples, n_features, X, ldx, y, n_class, n_obs,
                                          nullptr, usr_categorical_feat);
-        tree_status = forest[i]->fit();
+        if (tree_status == da_status_success)
+            tree_status = forest[i]->fit();
         forest[i]->clear_working_memory();
         if (tree_status != da_status_success) {
 #pragma omp atomic
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..35a7261 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -210,14 +210,19 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
 
         // Add children nodes and push them into the queue
         // if potential for further improvements is still high enough
-        add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        da_status status =
+            add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         if (best_split.right_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
             nodes_to_treat.push_back(n_nodes - 1);
         else
             n_leaves += 1;
-        add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        status = add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         if (best_split.left_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
@@ -315,7 +320,7 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
             // Sequential section: node selection, class counting, feature pre-selection
 #pragma omp single
             {
-                if (nodes_to_treat.empty()) {
+                if (nodes_to_treat.empty() || status != da_status_success) {
                     done = true;
                     n_selected = 0;
                 } else {
@@ -483,7 +488,10 @@ template <typename T> da_status decision_tree<T>::fit() {
 
     // Compute the bins if needed
     if (use_hist && internal_bins) {
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        status = X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        if (status != da_status_success)
+            return da_error_bypass(this->err, status, // LCOV_EXCL_LINE
+                                   "Memory allocation error");
     }
 
     // Allocate the tree and class_props arrays
@@ -554,6 +562,8 @@ template <typename T> da_status decision_tree<T>::fit() {
     } else {
         status = fit_serial();
     }
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
     this->model_trained = true;
     return status;
 }
diff --git a/source/core/decision_forest/tree/decision_tree_training_memory.hpp b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
index 1cce07d..ba00258 100644
--- a/source/core/decision_forest/tree/decision_tree_training_memory.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
@@ -50,8 +50,11 @@ template <typename T> da_status decision_tree<T>::init_working_memory_raw() {
         memcpy(cat_feat.data(), usr_categorical_feat, n_features * sizeof(da_int));
     else if (check_cat_data) {
         for (da_int j = 0; j < n_features; j++) {
-            da_utils::check_categorical_data(n_samples, &X[j * ldx], cat_feat[j],
-                                             opt_max_cat, cat_tol);
+            da_status status = da_utils::check_categorical_data(
+                n_samples, &X[j * ldx], cat_feat[j], opt_max_cat, cat_tol);
+            if (status != da_status_success)
+                return da_error_bypass(this->err, status, // LCOV_EXCL_LINE
+                                       "Categorical data could not be detected.");
         }
     }
     if (init_cat_data) {
-- 
2.43.0


From 9c4481f3b99b3b9df80fb4ec316c03a4153fd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:03 +0000
Subject: [PATCH 03/39] fix: da_syrk completes without its workspace instead of
 failing unnoticed

---
 source/core/utilities/da_syrk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_syrk.hpp b/source/core/utilities/da_syrk.hpp
index cd59688..fdae089 100644
--- a/source/core/utilities/da_syrk.hpp
+++ b/source/core/utilities/da_syrk.hpp
@@ -146,8 +146,11 @@ da_status da_syrk(da_order order, da_uplo uplo, da_transpose transpose, da_int n
     da_int C_tmp_size = n_tmp_blocks * n * n;
     try {
         C_tmp.resize(C_tmp_size);
-    } catch (std::bad_alloc const &) {
-        return da_status_memory_error;
+    } catch (std::bad_alloc const &) { // LCOV_EXCL_LINE
+        // No memory for the blocked algorithm: a single call needs no workspace
+        da_blas::cblas_syrk(cblas_order, cblas_uplo, cblas_transpose, n, k, alpha, A, ldA,
+                            beta, C, ldC); // LCOV_EXCL_LINE
+        return da_status_success;          // LCOV_EXCL_LINE
     }
 
     da_int A_block_offset;
-- 
2.43.0


From af961f2db2e849ea7c03b89715874124302f36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:52 +0000
Subject: [PATCH 04/39] fix: tree-based neighbour searches and their loading
 propagate failures

---
 source/core/nearest_neighbors/ball_tree.cpp   | 52 ++++++++++++-------
 source/core/nearest_neighbors/binary_tree.cpp |  6 +++
 source/core/nearest_neighbors/kd_tree.cpp     | 40 +++++++++-----
 .../nearest_neighbors/nearest_neighbors.cpp   | 21 ++++++--
 4 files changed, 82 insertions(+), 37 deletions(-)

diff --git a/source/core/nearest_neighbors/ball_tree.cpp b/source/core/nearest_neighbors/ball_tree.cpp
index 6ca3f25..310aafb 100644
--- a/source/core/nearest_neighbors/ball_tree.cpp
+++ b/source/core/nearest_neighbors/ball_tree.cpp
@@ -506,14 +506,18 @@ da_status ball_tree<T>::radius_neighbors_recursive(
         // This is not a leaf node, so check the sub-nodes
 
         // Check the left child
-        radius_neighbors_recursive(current_node->left_child, X, eps, eps_internal,
-                                   neighbors, distances, return_distances, X_is_A,
-                                   index_X, X_norm);
+        status = radius_neighbors_recursive(current_node->left_child, X, eps,
+                                            eps_internal, neighbors, distances,
+                                            return_distances, X_is_A, index_X, X_norm);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
 
         // Check the right child
-        radius_neighbors_recursive(current_node->right_child, X, eps, eps_internal,
-                                   neighbors, distances, return_distances, X_is_A,
-                                   index_X, X_norm);
+        status = radius_neighbors_recursive(current_node->right_child, X, eps,
+                                            eps_internal, neighbors, distances,
+                                            return_distances, X_is_A, index_X, X_norm);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
     }
     return da_status_success;
 }
@@ -583,9 +587,12 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
         // Whether we check the left or right child first depends on which is closest
         if (dist_left < dist_right) {
             // Check the left child first
-            if (ball_left != 0)
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+            if (ball_left != 0) {
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
             // Check the right child
             heap_max_dist =
@@ -593,15 +600,21 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
                     ? std::sqrt(heap.GetMaxDist())
                     : heap.GetMaxDist();
             if (ball_right != 0 &&
-                dist_right - current_node->right_child->radius <= heap_max_dist)
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                dist_right - current_node->right_child->radius <= heap_max_dist) {
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
         } else {
             // Check the right child first
-            if (ball_right != 0)
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+            if (ball_right != 0) {
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
             // Check the left child
             heap_max_dist =
@@ -609,9 +622,12 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
                     ? std::sqrt(heap.GetMaxDist())
                     : heap.GetMaxDist();
             if (ball_left != 0 &&
-                dist_left - current_node->left_child->radius <= heap_max_dist)
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                dist_left - current_node->left_child->radius <= heap_max_dist) {
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
         }
     }
     return da_status_success;
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..708b995 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -512,6 +512,8 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
     };
 
     io_dispatch(node_exists);
+    if (status != da_status_success)
+        return status;
     if (!node_exists) {
         if (buffer.get_mode() == da_model_persistence::buffer_mode::deserialize) {
             node = nullptr;
@@ -523,6 +525,8 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
                         ? node->indices - this->indices.data()
                         : 0;
     io_dispatch(offset);
+    if (status != da_status_success)
+        return status;
 
     // Only create a new node if one wasn't passed in (e.g. for child nodes)
     if (node == nullptr &&
@@ -573,6 +577,8 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->A_norms);
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
+    if (status != da_status_success)
+        return status;
 
     status = this->tree_serialization(buffer, this->root);
 
diff --git a/source/core/nearest_neighbors/kd_tree.cpp b/source/core/nearest_neighbors/kd_tree.cpp
index e5aba2a..28dd51a 100644
--- a/source/core/nearest_neighbors/kd_tree.cpp
+++ b/source/core/nearest_neighbors/kd_tree.cpp
@@ -425,15 +425,19 @@ da_status kd_tree<T>::radius_neighbors_recursive(std::shared_ptr<kd_node<T>> cur
 
         if (diff <= eps) {
             // Check the left child
-            radius_neighbors_recursive(current_node->left_child, X, eps, eps_internal,
-                                       neighbors, distances, return_distance, X_is_A,
-                                       index_X, X_norm);
+            status = radius_neighbors_recursive(current_node->left_child, X, eps,
+                                                eps_internal, neighbors, distances,
+                                                return_distance, X_is_A, index_X, X_norm);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
         }
         if (diff >= -eps) {
             // Check the right child
-            radius_neighbors_recursive(current_node->right_child, X, eps, eps_internal,
-                                       neighbors, distances, return_distance, X_is_A,
-                                       index_X, X_norm);
+            status = radius_neighbors_recursive(current_node->right_child, X, eps,
+                                                eps_internal, neighbors, distances,
+                                                return_distance, X_is_A, index_X, X_norm);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
         }
     }
     return da_status_success;
@@ -507,23 +511,31 @@ da_status kd_tree<T>::k_neighbors_recursive(std::shared_ptr<kd_node<T>> current_
 
         if (diff < (T)0.0) {
             // Check the left child first
-            k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X, X_norm,
-                                  heap);
+            status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                           index_X, X_norm, heap);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
 
             if (diff_tmp >= -heap.GetMaxDist()) {
                 // Check the right child
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
             }
         } else {
             // Check the right child first
-            k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                  X_norm, heap);
+            status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                           index_X, X_norm, heap);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
 
             if (diff_tmp <= heap.GetMaxDist()) {
                 // Check the left child
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
             }
         }
     }
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..6d4f557 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -838,8 +838,11 @@ da_status neighbors<T>::kneighbors_compute_kd_tree(da_int n_queries, da_int n_fe
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    this->internal_kd_tree->k_neighbors(n_queries, n_features, X_test, ldx_test, n_neigh,
-                                        k_ind.data(), k_dist.data(), this->err);
+    da_status status = this->internal_kd_tree->k_neighbors(
+        n_queries, n_features, X_test, ldx_test, n_neigh, k_ind.data(), k_dist.data(),
+        this->err);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // k_neighbors() does not sort the indices and distances, so we need to do it here.
     for (da_int k = 0; k < n_queries; k++) {
@@ -875,9 +878,11 @@ da_status neighbors<T>::kneighbors_compute_ball_tree(da_int n_queries, da_int n_
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    this->internal_ball_tree->k_neighbors(n_queries, n_features, X_test, ldx_test,
-                                          n_neigh, k_ind.data(), k_dist.data(),
-                                          this->err);
+    da_status status = this->internal_ball_tree->k_neighbors(
+        n_queries, n_features, X_test, ldx_test, n_neigh, k_ind.data(), k_dist.data(),
+        this->err);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // k_neighbors() does not sort the indices and distances, so we need to do it here.
     for (da_int k = 0; k < n_queries; k++) {
@@ -1726,6 +1731,9 @@ neighbors<T>::predict_targets_knn(da_int n_queries, da_int n_features, const T *
                     column_major, da_axis_col, this->n_neighbors, 1,
                     pred_targets.data() + j * this->n_neighbors, this->n_neighbors,
                     y_test + j);
+                if (status != da_status_success)
+                    return da_error(this->err, status, // LCOV_EXCL_LINE
+                                    "Failed to compute the mean of the targets.");
             }
         } else if (this->weights == da_neighbors_types::nn_weights::distance) {
             // Compute the most common value of y_test between the neighbors of each element of X_test.
@@ -1844,6 +1852,9 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
                 status =
                     da_basic_statistics::mean(column_major, da_axis_col, n_neigh, 1,
                                               pred_targets.data(), n_neigh, y_test + j);
+                if (status != da_status_success)
+                    return da_error(this->err, status, // LCOV_EXCL_LINE
+                                    "Failed to compute the mean of the targets.");
             }
 
         } else if (this->weights == da_neighbors_types::nn_weights::distance) {
-- 
2.43.0


From 24d99917e635651b52b0246334218aaf0bd4a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:41 +0000
Subject: [PATCH 05/39] fix: the data store propagates the failures of its own
 selection and column steps

---
 source/core/data_management/data_store.hpp | 39 +++++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..0aa497a 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -499,7 +499,9 @@ class data_store {
         }
 
         // Concatenate columns to the right, indices of new columns are [n, n+nc-1]
-        cmap.insert(interval(n, n + nc - 1), new_block);
+        if (cmap.insert(interval(n, n + nc - 1), new_block) != da_status_success)
+            return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                            "The new columns could not be added to the store.");
 
         // Update the size of the datastore if it was initially empty
         if (m == 0)
@@ -627,7 +629,9 @@ class data_store {
             da_int nc = it1->first.upper - it1->first.lower + 1;
             store_block = it1->second;
             store_block->offset += n_orig;
-            cmap.insert(interval(n, n + nc - 1), store_block);
+            if (cmap.insert(interval(n, n + nc - 1), store_block) != da_status_success)
+                return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                                "The new columns could not be added to the store.");
             current_block = store_block;
             next = store_block->next;
             while (next != nullptr) {
@@ -1101,7 +1105,9 @@ class data_store {
         auto it = selections.find(key);
         bool clear_cols = false, clear_all_cols = false;
         if (it == selections.end()) {
-            select_slice(key, {0, m - 1}, {0, n - 1});
+            status = select_slice(key, {0, m - 1}, {0, n - 1});
+            if (status != da_status_success)
+                return status; // Error message already loaded
             it = selections.find(key);
             clear_cols = true;
         }
@@ -1109,7 +1115,9 @@ class data_store {
         std::unique_ptr<interval_set> &col_slice = it->second.col_slice;
         std::unique_ptr<interval_set> &row_slice = it->second.row_slice;
         if (row_slice->empty()) {
-            select_rows(key, {0, m - 1});
+            status = select_rows(key, {0, m - 1});
+            if (status != da_status_success)
+                return status; // Error message already loaded
         }
 
         // Check ALL the rows
@@ -1143,7 +1151,9 @@ class data_store {
             clear_all_cols = true;
         } else {
             if (col_slice->begin() == col_slice->end()) {
-                select_columns(key, {0, n - 1});
+                status = select_columns(key, {0, n - 1});
+                if (status != da_status_success)
+                    return status; // Error message already loaded
                 clear_cols = true;
             }
             it_col = col_slice->begin();
@@ -1169,7 +1179,7 @@ class data_store {
         while (i < m) {
             if (!valid_rows[i]) {
                 da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
+                while (idx_stop < m && !valid_rows[idx_stop]) {
                     idx_stop++;
                 }
                 status = row_slice->erase({i, idx_stop - 1});
@@ -1287,7 +1297,9 @@ class data_store {
         T *col = nullptr;
         da_int stride;
         block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
-        bb->get_col(colidx, &col, stride);
+        da_status status = bb->get_col(colidx, &col, stride);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         elem = col[rowidx * stride];
 
         return da_status_success;
@@ -1326,7 +1338,9 @@ class data_store {
         T *col = nullptr;
         da_int stride;
         block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
-        bb->get_col(colidx, &col, stride);
+        da_status status = bb->get_col(colidx, &col, stride);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         col[rowidx * stride] = elem;
 
         return da_status_success;
@@ -1642,7 +1656,14 @@ class data_store {
 
             da_auto_detect::CSVColumnsType columns;
             // Call routine to detect the datatype of each column
-            da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
+            status =
+                da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
+            if (status != da_status_success) {
+                da_csv::free_data(&headings, ncols);
+                da_csv::free_data(&data_char, nrows * ncols);
+                return da_error_trace(err, status, // LCOV_EXCL_LINE
+                                      "Could not detect the type of the columns");
+            }
             // Convert columns into blocks for the datastore
             status = convert_csv_columns_to_blocks(csv, columns, nrows, ncols);
             if (status != da_status_success)
-- 
2.43.0


From ada894d333024550f1f6ea8fdbcade7c3918933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:13 +0000
Subject: [PATCH 06/39] fix: SVM, PCA, t-SNE, QR and split helpers propagate
 the failures of their steps

---
 source/core/dimension_reduction/tsne/tsne.cpp |  9 +++--
 .../factorization/kernel_pca/kernel_pca.cpp   | 21 +++++++----
 source/core/factorization/pca/pca.cpp         | 36 +++++++++++++------
 source/core/svm/svm.cpp                       | 26 +++++++++++---
 source/core/utilities/basic_handle.cpp        |  2 ++
 source/core/utilities/da_qr.hpp               |  2 +-
 source/core/utilities/da_utils.cpp            |  4 +++
 7 files changed, 76 insertions(+), 24 deletions(-)

diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index 8318137..e9fa495 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -638,9 +638,12 @@ da_status tsne<T>::initialize_embedding(const std::string &init_method, da_int s
             // sklearn uses std of the first column: X_embedded / std(X_embedded[:,0]) * 1e-4
             T mean = 0, var = 0;
             constexpr T target_stdv = (T)1e-4;
-            da_basic_statistics::variance(row_major, da_axis_all, n_samples, 1,
-                                          embedding.data(), n_components, -1, &mean,
-                                          &var);
+            status = da_basic_statistics::variance(row_major, da_axis_all, n_samples, 1,
+                                                   embedding.data(), n_components, -1,
+                                                   &mean, &var);
+            if (status != da_status_success)
+                return da_error(this->err, status, // LCOV_EXCL_LINE
+                                "Failed to scale the initial embedding.");
             T stdv = da_std::sqrt(var);
             // Guard against near-zero std dev (e.g. constant-column input)
             constexpr T eps_safety_factor = (T)100;
diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 6794ac4..97860a6 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -447,12 +447,18 @@ template <typename T> da_status kernel_pca<T>::compute() {
     // row_means[i] = (1/n) * sum_j K_ij */
     // K_work is symmetric by construction if we compute it, and by assumption if user supplies it.
     // If the exact centering formula seems opaque, see Appendix B of [1]
-    da_basic_statistics::mean(this->order, da_axis_row, n_samples, n_samples,
-                              K_work.data(), n_samples, row_means.data());
+    status = da_basic_statistics::mean(this->order, da_axis_row, n_samples, n_samples,
+                                       K_work.data(), n_samples, row_means.data());
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "Failed to compute the means of the kernel matrix.");
 
     // Compute mean of all row_means
-    da_basic_statistics::mean(row_major, da_axis_all, 1, n_samples, row_means.data(),
-                              n_samples, &grand_mean);
+    status = da_basic_statistics::mean(row_major, da_axis_all, 1, n_samples,
+                                       row_means.data(), n_samples, &grand_mean);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "Failed to compute the means of the kernel matrix.");
 
     // Just update the upper triangular portion of K
     for (da_int j = 0; j < n_samples; j++) {
@@ -833,8 +839,11 @@ da_status kernel_pca<T>::transform(da_int m_samples, da_int m_features, const T
     // Center K_new using training statistics
     // K̃_new[i,j] = K_new[i,j] - new_row_means[i] - row_means[j] + grand_mean
     // See Appendix B of [1] for centering details
-    da_basic_statistics::mean(this->order, da_axis_row, m, n_samples, K_new.data(), ldk,
-                              new_row_means.data());
+    status = da_basic_statistics::mean(this->order, da_axis_row, m, n_samples,
+                                       K_new.data(), ldk, new_row_means.data());
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "Failed to compute the means of the kernel matrix.");
 
     if (this->order == da_order::column_major) {
         for (da_int j = 0; j < n_samples; j++) {
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..81b8499 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -440,8 +440,10 @@ template <typename T> da_status pca<T>::compute() {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
         }
-        ARCH::da_basic_statistics::mean(column_major, da_axis_col, n, p, A, lda,
-                                        column_means.data());
+        if (ARCH::da_basic_statistics::mean(column_major, da_axis_col, n, p, A, lda,
+                                            column_means.data()) != da_status_success)
+            return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                            "Failed to compute the column means.");
 
         if (solver == solver_syevd) {
             for (da_int j = 0; j < p; j++) {
@@ -468,8 +470,11 @@ template <typename T> da_status pca<T>::compute() {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
         }
-        ARCH::da_basic_statistics::variance(column_major, da_axis_col, n, p, A, lda, dof,
-                                            column_means.data(), column_sdevs.data());
+        if (ARCH::da_basic_statistics::variance(
+                column_major, da_axis_col, n, p, A, lda, dof, column_means.data(),
+                column_sdevs.data()) != da_status_success)
+            return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                            "Failed to compute the column variances.");
         if (solver == solver_syevd) {
             for (da_int j = 0; j < p; j++) {
                 column_sdevs[j] = sqrt(column_sdevs[j]);
@@ -592,6 +597,14 @@ template <typename T> da_status pca<T>::compute() {
                    &iu, &ns, sigma.data(), u.data(), &ldu, vt.data(), &ldvt, work.data(),
                    &lwork, iwork.data(), &INFO);
 
+        // Handle error
+        if (INFO != 0) {
+            return da_error(
+                this->err, da_status_internal_error,
+                "An internal error occurred while computing the PCA. Please check "
+                "the input data for undefined values.");
+        }
+
         break;
     }
 
@@ -1033,19 +1046,22 @@ da_status pca<T>::inverse_transform(da_int k, da_int r, const T *X, da_int ldx,
     // Undo the standardization used in the PCA computation
     switch (method) {
     case pca_method_cov:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), (T *)nullptr);
+        status = ARCH::da_basic_statistics::standardize(
+            this->order, da_axis_col, k, p, X_inv_transform, ldx_inv_transform, dof, 1,
+            column_means.data(), (T *)nullptr);
         break;
     case pca_method_corr:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), column_sdevs.data());
+        status = ARCH::da_basic_statistics::standardize(
+            this->order, da_axis_col, k, p, X_inv_transform, ldx_inv_transform, dof, 1,
+            column_means.data(), column_sdevs.data());
         break;
     default:
         // No standardization is required
         break;
     }
+    if (status != da_status_success)
+        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                        "Failed to undo the standardization of the data.");
 
     return da_status_success;
 }
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..4d38d29 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -488,8 +488,12 @@ template <typename T> da_status svm<T>::compute() {
         this->opts.get("gamma", gamma_temp);
         if (gamma_temp < 0) {
             T mean, variance = 1;
-            ARCH::da_basic_statistics::variance(column_major, da_axis_all, nrow, ncol, X,
-                                                ldx_train, -1, &mean, &variance);
+            status = ARCH::da_basic_statistics::variance(column_major, da_axis_all, nrow,
+                                                         ncol, X, ldx_train, -1, &mean,
+                                                         &variance);
+            if (status != da_status_success)
+                return da_error(this->err, status, // LCOV_EXCL_LINE
+                                "Failed to compute the variance of the data.");
             if (variance == 0)
                 return da_error(
                     this->err, da_status_invalid_input,
@@ -577,6 +581,8 @@ template <typename T> da_status svm<T>::compute() {
 
         if (predict_proba_opt) {
             status = compute_probabilities(*classifiers[i], n_fold, probaA[i], probaB[i]);
+            if (status != da_status_success)
+                return status; // Error message already loaded
         }
 
         if constexpr (da_fp16::fp16_codegen_ok<lp_type>) {
@@ -1011,6 +1017,11 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
                         "Memory allocation error");
     }
     status = predict(nsamples, nfeat, X_test, ldx_test, predictions.data());
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
+        return status; // Error message already loaded
+    }
     // Calculate accuracy for classification and R^2 for regression
     if (mod == da_svm_model::svc || mod == da_svm_model::nusvc) {
         // Accuracy implementation
@@ -1024,8 +1035,14 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
     } else {
         // R^2 implementation
         T y_test_mean, rss = 0, tss = 0;
-        ARCH::da_basic_statistics::mean(column_major, da_axis_all, nsamples, 1, y_test,
-                                        nsamples, &y_test_mean);
+        status = ARCH::da_basic_statistics::mean(column_major, da_axis_all, nsamples, 1,
+                                                 y_test, nsamples, &y_test_mean);
+        if (status != da_status_success) {
+            if (utility_ptr1)                  // LCOV_EXCL_LINE
+                delete[] (utility_ptr1);       // LCOV_EXCL_LINE
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Failed to compute the mean of y_test.");
+        }
         for (da_int i = 0; i < nsamples; i++) {
             rss += pow(y_test[i] - predictions[i], 2);
             tss += pow(y_test[i] - y_test_mean, 2);
@@ -1366,6 +1383,7 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
             fold_classifier->kernel_function = classifier.kernel_function;
             fold_classifier->cache_size = classifier.cache_size;
             fold_classifier->max_ws_size = classifier.max_ws_size;
+            fold_classifier->err = this->err;
 
             da_status fold_status = fold_classifier->compute();
             if (fold_status != da_status_success)
diff --git a/source/core/utilities/basic_handle.cpp b/source/core/utilities/basic_handle.cpp
index 7a94884..0d89e57 100644
--- a/source/core/utilities/basic_handle.cpp
+++ b/source/core/utilities/basic_handle.cpp
@@ -265,6 +265,8 @@ basic_handle<T>::preallocate_buffer(da_model_persistence::serialization_buffer &
         return da_error(this->err, da_status_internal_error,
                         "Failure while adding registry size.");
     }
+    if (status != da_status_success)
+        return da_error_trace(this->err, status, "Failure while adding registry size.");
     status = buffer.reserve();
     if (status != da_status_success)
         return da_error_trace(this->err, status, "Failure while resizing buffer.");
diff --git a/source/core/utilities/da_qr.hpp b/source/core/utilities/da_qr.hpp
index dcc59cb..32faf00 100644
--- a/source/core/utilities/da_qr.hpp
+++ b/source/core/utilities/da_qr.hpp
@@ -281,7 +281,7 @@ da_status da_qr(da_int m, da_int n, std::vector<T> &A, da_int lda, std::vector<T
             da::geqrf(&mr, &n, R_blocked.data(), &mr, tau_R_blocked.data(), work_R.data(),
                       &lwork_R, &info);
         } else {
-            da::geqrt3(&mr, &n, R_blocked.data(), &mr, Tr.data(), &n, &info_local);
+            da::geqrt3(&mr, &n, R_blocked.data(), &mr, Tr.data(), &n, &info);
         }
         if (info != 0) {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..fe85282 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -423,6 +423,8 @@ da_status stratified_shuffle(da_int m, boost::random::mt19937 &rand_engine,
     // Approximate the counts for each class for the trian split
     status = class_frequency_approximation(train_size, m, n_classes, rand_engine,
                                            appx_freq_train, counts);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // Remove samples used in train in order to accurately approximate test
     for (da_int i = 0; i < n_classes; ++i) {
@@ -431,6 +433,8 @@ da_status stratified_shuffle(da_int m, boost::random::mt19937 &rand_engine,
 
     status = class_frequency_approximation(test_size, m - train_size, n_classes,
                                            rand_engine, appx_freq_test, left_counts);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // class_index keeps track of the current class being processed.
     // train_index keeps track of the position in the shuffled_indices array
-- 
2.43.0


From 4159185405f02a80f3b21d16dad509bbfba3dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:15 +0000
Subject: [PATCH 07/39] fix: warnings while estimating SVM probabilities do not
 abort the training

---
 source/core/svm/svm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 4d38d29..ab87ab7 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -581,7 +581,9 @@ template <typename T> da_status svm<T>::compute() {
 
         if (predict_proba_opt) {
             status = compute_probabilities(*classifiers[i], n_fold, probaA[i], probaB[i]);
-            if (status != da_status_success)
+            // A warning still provides usable probability estimates
+            if (status != da_status_success &&
+                this->err->get_severity() == DA_ERROR)
                 return status; // Error message already loaded
         }
 
-- 
2.43.0


From 8813ac90d039216c6d12bfdd72ffeaf7059a2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 08/39] fix: a failed or superseded training no longer leaves
 earlier results accessible

---
 .../approximate_neighbors.cpp                 |  5 +++++
 source/core/clustering/dbscan/dbscan.cpp      |  3 +++
 source/core/clustering/kmeans/kmeans.cpp      |  8 ++++++-
 .../decision_forest_handle_utilities.hpp      |  3 +++
 .../forest/decision_forest_training.hpp       |  3 +++
 source/core/dimension_reduction/tsne/tsne.cpp |  3 +++
 .../factorization/kernel_pca/kernel_pca.cpp   |  3 +++
 source/core/factorization/pca/pca.cpp         |  3 +++
 .../nearest_neighbors/nearest_neighbors.cpp   | 22 +++++++++++--------
 source/core/nlls/nlls.cpp                     |  2 ++
 source/core/svm/svm.cpp                       |  8 +++++--
 11 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index 07ae95e..016707f 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -497,6 +497,11 @@ template <typename T> da_status approximate_neighbors<T>::train() {
             "da_approx_nn_set_training_data_s or da_approx_nn_set_training_data_d.");
     }
 
+    // Training starts from an empty index: nothing of an earlier one remains accessible
+    this->model_trained = false;
+    this->data_is_added = false;
+    this->n_index = 0;
+
     da_status status = this->read_training_options();
     if (status != da_status_success) {
         return status;
diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..402d911 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -209,6 +209,9 @@ template <typename T> da_status dbscan<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_dbscan_set_data_s or da_dbscan_set_data_d.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    this->model_trained = false;
+
     // Read in options and store in class
 
     this->opts.get("eps", eps);
diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 9102f60..697a4c2 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -251,6 +251,7 @@ da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     this->refresh();
+    this->model_trained = false;
 
     // Read in data storage option
     std::string opt_order;
@@ -272,7 +273,6 @@ da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Record that initialization is complete but computation has not yet been performed
     initdone = true;
-    this->model_trained = false;
 
     // Now that we have a data matrix we can re-register the n_clusters option with new constraints
     da_int temp_clusters;
@@ -315,6 +315,9 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
                         "The storage order option was changed after data was set.");
     }
 
+    // The number of clusters may change, which invalidates any earlier results
+    this->model_trained = false;
+
     // Check for illegal arguments
     this->opts.get("n_clusters", n_clusters);
     da_status status =
@@ -356,6 +359,9 @@ template <typename T> da_status kmeans<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    this->model_trained = false;
+
     if (check_options) {
 
         // Check options weren't changed to incompatible values after data was set
diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..7b13508 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -106,6 +106,9 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
                                                 da_int n_class,
                                                 const da_int *usr_cat_feat) {
 
+    // The current forest does not describe the new data
+    this->model_trained = false;
+
     // Guard against errors due to multiple calls using the same class instantiation
     if (X_temp) {
         delete[] (X_temp);
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index 4ec1a2c..4234448 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -68,6 +68,9 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error_bypass(this->err, da_status_no_data,
                                "No data has been passed to the handle.");
 
+    // A failed fit must not leave an earlier forest accessible
+    this->model_trained = false;
+
     // Read optional parameters
     bool opt_pass = true, bootstrap;
     da_int max_depth, min_node_sample, method, nfeat_split, bootstrap_opt, feat_select,
diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index e9fa495..ff11a9e 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -1125,6 +1125,9 @@ template <typename T> da_status tsne<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_tsne_set_data_s or da_tsne_set_data_d.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    model_trained = false;
+
     T perplexity = (T)30;
 
     if (check_options) {
diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 97860a6..32d392c 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -327,6 +327,9 @@ template <typename T> da_status kernel_pca<T>::compute() {
                         "No data has been provided. Please call da_kernel_pca_set_data_? "
                         "before da_kernel_pca_compute_?.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    this->model_trained = false;
+
     da_int n_components_opt, kernel_int, fit_inv_int, remove_zero_int, solver_int;
     std::string kernel_str, fit_inv_str, remove_zero_str, solver_str;
 
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 81b8499..947b7ff 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -324,6 +324,9 @@ template <typename T> da_status pca<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_pca_set_data_s or da_pca_set_data_d.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    this->model_trained = false;
+
     // Read in options and store in class together with associated variables
     this->opts.get("n_components", npc);
 
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 6d4f557..32acd32 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -477,6 +477,9 @@ da_status neighbors<T>::set_data(da_int n_samples, da_int n_features, const T *X
                                    std::to_string(this->n_samples) + ".");
     }
 
+    // Results computed with the previous data must not remain accessible
+    this->model_trained = false;
+
     // Guard against errors due to multiple calls using the same class instantiation
     if (X_train_temp) {
         delete[] (X_train_temp);
@@ -1934,9 +1937,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Cannot sort results if distances are not returned.");
 
-    this->sort_results = sort_results;
-    this->rnn_return_distances = return_distance;
-
     // Return if set_data() has not been called
     if (!istrained_Xtrain)
         return da_error_bypass(this->err, da_status_no_data,
@@ -1975,6 +1975,10 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         r = this->radius;
     }
 
+    // From here on the results of an earlier search are no longer accessible
+    this->model_trained = false;
+    this->sort_results = sort_results;
+    this->rnn_return_distances = return_distance;
     status = neighbors<T>::radius_neighbors_compute(
         n_queries, n_features, X_test_temp, ldx_test_temp, r,
         this->radius_neighbors_count, this->radius_neighbors_indices,
@@ -1999,12 +2003,10 @@ da_status neighbors<T>::radius_neighbors_compute(
     bool sort_results, bool is_temp) {
     if (!is_temp) {
         // If radius neighbors were already computed, clean up memory of radius neighbors and (optionally) distances
-        if (this->model_trained) {
-            this->radius_neighbors_count.clear();
-            this->radius_neighbors_indices.clear();
-            this->radius_neighbors_distances.clear();
-            this->model_trained = false;
-        }
+        this->radius_neighbors_count.clear();
+        this->radius_neighbors_indices.clear();
+        this->radius_neighbors_distances.clear();
+        this->model_trained = false;
     }
     // Allocate memory
     try {
@@ -2034,6 +2036,8 @@ da_status neighbors<T>::radius_neighbors_compute(
                                "Unknown algorithm: " + std::to_string(working_algo) +
                                    ".");
     }
+    if (status != da_status_success)
+        return status;
 
     for (da_int j = 0; j < n_queries; j++) {
         rnn_count[j] = rnn_indices[j].size();
diff --git a/source/core/nlls/nlls.cpp b/source/core/nlls/nlls.cpp
index 490cb89..0471387 100644
--- a/source/core/nlls/nlls.cpp
+++ b/source/core/nlls/nlls.cpp
@@ -102,6 +102,8 @@ template <typename T> da_status nlls<T>::fit(da_int n_coef, T *coef, void *udata
         return da_error(this->err, da_status_invalid_pointer,
                         "Pointer coef must be valid.");
     }
+    // A failed fit must not leave results of an earlier one accessible
+    this->model_trained = false;
     try {
         this->coef.resize(this->nvar);
     } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index ab87ab7..808fe95 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -278,6 +278,8 @@ da_status svm<T>::get_result(da_result query, da_int *dim, da_int *result) {
 template <typename T>
 da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
                            da_int ldx_train, const T *y_in) {
+    // The current model does not describe the new data
+    this->model_trained = false;
     nrow = n_samples;
     ncol = n_features;
     ismulticlass = false;
@@ -402,7 +404,6 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
     }
     // Record that initialization is complete but computation has not yet been performed
     loadingdone = true;
-    this->model_trained = false;
 
     return da_status_success;
 }
@@ -471,7 +472,7 @@ void svm<T>::copy_classifier_metadata(const base_svm<T> &src, base_svm<lp_type>
 
 /* Compute SVM */
 template <typename T> da_status svm<T>::compute() {
-    da_status status;
+    da_status status = da_status_success;
     std::string kernel_string;
     da_int kernel_enum;
     std::string order_string;
@@ -480,6 +481,9 @@ template <typename T> da_status svm<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_svm_set_data_s or da_svm_set_data_d.");
 
+    // A failed computation must not leave results of an earlier one accessible
+    this->model_trained = false;
+
     // Here is logic to get default gamma 1/(ncol*var(X)), we only do that for kernels that use gamma
     T gamma_temp = 1;
     this->opts.get("kernel", kernel_string, kernel_enum);
-- 
2.43.0


From b94fa4e8e24c784de9dac18a87771795d157698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 09/39] fix: info of a loaded linear model trained with the
 conjugate gradient method

Querying da_rinfo on a loaded model dereferenced the solver object, which a
saved model does not hold. A handle trained after a load is no longer
treated as loaded.
---
 source/core/linear_model/linear_model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 4ea1f70..2fb6650 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -295,8 +295,9 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             // Save information about the computation time
             result[da_linmod_info_t::linmod_info_time] = time;
         }
-        // For CG we have member function that fills n_iter and gradient of loss
-        if (method_id == linmod_method::cg) {
+        // For CG we have member function that fills n_iter and gradient of loss. A loaded
+        // model does not hold the solver data.
+        if (method_id == linmod_method::cg && !this->model_loaded) {
             if constexpr (std::is_same_v<T, _Float16>) {
                 // Unreachable: cg is rejected at fit time for _Float16.
                 return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
@@ -1238,6 +1239,7 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
     }
 
     this->model_trained = true;
+    this->model_loaded = false;
     return da_status_success;
 }
 
-- 
2.43.0


From c5aba53b9e5941950dcaab1b8399c7366258048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:53 +0000
Subject: [PATCH 10/39] fix: setting a numerical option to NaN is rejected

The bounds test let NaN through because it compares false with every bound.
---
 source/core/utilities/options.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..de3e2fe 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -230,8 +230,8 @@ class OptionBase {
     template <typename T>
     da_status validate(T lower, lbound_t lbound, T upper, ubound_t ubound, T value,
                        bool checkall = true) {
+        constexpr bool has_nan = std::numeric_limits<T>::has_quiet_NaN;
         if (checkall) {
-            bool has_nan = std::numeric_limits<T>::has_quiet_NaN;
             // Check all inputs
             if (has_nan) {
                 if (std::isnan(static_cast<double>(upper)) ||
@@ -256,11 +256,13 @@ class OptionBase {
                     return da_status_option_invalid_bounds;
                 }
             }
-            if (has_nan) {
-                if (std::isnan(static_cast<double>(value))) {
-                    errmsg = "Option '" + name + "': Invalid value.";
-                    return da_status_option_invalid_value;
-                }
+        }
+
+        // A NaN compares false with any bound
+        if (has_nan) {
+            if (std::isnan(static_cast<double>(value))) {
+                errmsg = "Option '" + name + "': Invalid value.";
+                return da_status_option_invalid_value;
             }
         }
 
-- 
2.43.0


From a5306396e2d5436872fb86f67ff1f14fd4993ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 11/39] fix: option values read from a saved model are
 validated

A stored value outside an option's range, or a string that is not one of its
labels, was accepted; reading a categorical option then threw an exception.
---
 source/core/utilities/options.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index de3e2fe..b5976df 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -519,7 +519,14 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // The stored bytes may not be a legal value for this option
+        if (this->set(saved_value, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -763,7 +770,14 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // The stored bytes may not be a legal value for this option
+        if (this->set(saved_value, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From 1c5b2cda5995ed999bb6102ebda7063b940efc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 12/39] fix: counts read from a saved model are bounded before
 anything is allocated

A negative or huge number of trees, nodes or classifiers in a damaged file
raised an exception that left the library.
---
 source/core/decision_forest/forest/decision_forest.cpp        | 4 ++++
 .../decision_forest/tree/decision_tree_handle_utilities.hpp   | 3 ++-
 source/core/svm/svm.cpp                                       | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..d462dac 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,6 +43,10 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        // Every tree takes up space in the buffer
+        if (this->n_tree < 0 || (size_t)this->n_tree > buffer.get_size())
+            return da_status_invalid_file_data;
+
         try {
             this->forest.resize(n_tree);
             for (da_int i = 0; i < this->n_tree; ++i) {
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..8f703ae 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -292,7 +292,8 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        if (this->n_nodes <= 0)
+        // Every node takes up space in the buffer
+        if (this->n_nodes <= 0 || (size_t)this->n_nodes > buffer.get_size())
             return da_status_invalid_file_data;
 
         try {
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 808fe95..4d058b7 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1513,6 +1513,10 @@ da_status svm<T>::serialize_classifiers(serialization_buffer &buffer) {
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        // Every classifier takes up space in the buffer
+        if (this->n_classifiers < 0 || (size_t)this->n_classifiers > buffer.get_size())
+            return da_status_invalid_file_data;
+
         try {
             this->classifiers.resize(this->n_classifiers);
             for (da_int i = 0; i < this->n_classifiers; ++i) {
-- 
2.43.0


From c64f3830ebcedb36f8013fa859242950cb201f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 13/39] fix: saving or loading a handle without an algorithm
 object fails cleanly

Saving such a handle, or loading a file with an unknown handle type,
dereferenced a null pointer. The state of the file is also tested after it
is closed.
---
 source/core/utilities/da_handle.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..c116500 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -67,8 +67,14 @@ da_status _da_handle::save_handle(std::vector<char> &buffer_data) {
         return status;
 
     if (this->precision == da_single) {
+        if (this->alg_handle_s == nullptr)
+            return da_error(this->err, da_status_handle_not_initialized,
+                            "The handle does not hold a model that can be saved.");
         status = this->alg_handle_s->save_model(buffer);
     } else if (this->precision == da_double) {
+        if (this->alg_handle_d == nullptr)
+            return da_error(this->err, da_status_handle_not_initialized,
+                            "The handle does not hold a model that can be saved.");
         status = this->alg_handle_d->save_model(buffer);
     }
     if (status != da_status_success)
@@ -97,6 +103,10 @@ da_status _da_handle::save_handle(const std::string &file_name) {
                         "Failed to write to file.");   // LCOV_EXCL_LINE
     }
     file.close();
+    if (!file) {
+        return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
+                        "Failed to write to file.");   // LCOV_EXCL_LINE
+    }
 
     return status;
 }
@@ -118,13 +128,17 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        status = handle->alg_handle_s != nullptr
+                     ? handle->alg_handle_s->load_model(buffer)
+                     : da_status_invalid_file_data;
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        status = handle->alg_handle_d != nullptr
+                     ? handle->alg_handle_d->load_model(buffer)
+                     : da_status_invalid_file_data;
     }
 
     if (status != da_status_success ||
-- 
2.43.0


From 11767dea5658d92608471fe720f050c8ae521356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 14/39] fix: string option getters refuse a negative buffer
 length

---
 source/core/utilities/options_public.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index d8f452c..3869fec 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -78,7 +78,7 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue < 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
@@ -165,7 +165,7 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue < 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
-- 
2.43.0


From 5cb41a22b9387c5b39a5c2dbf664c9316e6f8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 15/39] fix: da_read_csv reports a failure of the tokenizer

---
 source/core/csv/read_csv.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..55200e5 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -99,10 +99,14 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
     char *encoding_errors = NULL;
 
     istatus = tokenize_all_rows(parser, encoding_errors);
-    if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+    if (istatus == PARSER_OUT_OF_MEMORY) {
+        status = da_error(csv->err, da_status_memory_error,
+                          "Memory allocation failure"); // LCOV_EXCL_LINE
+        goto exit;                                      // LCOV_EXCL_LINE
+    } else if (istatus != 0) {
+        status = da_error(csv->err, da_status_parsing_error,
+                          "The file could not be split into rows and fields.");
+        goto exit;
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
-- 
2.43.0


From e98065d456b82dd9aa62add9d17e85e5ad0621e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 16/39] fix: null pointers given to option, error, data and csv
 calls are refused; nn_classes stays within both arrays

---
 source/core/csv/read_csv.hpp                  |  3 ++
 source/core/csv/read_csv_public.cpp           |  3 ++
 .../data_management/data_store_public.cpp     |  2 ++
 source/core/linear_model/linear_model.cpp     |  3 ++
 .../nearest_neighbors_public.hpp              |  9 ++++++
 source/core/utilities/da_error.hpp            |  7 +++--
 source/core/utilities/da_handle_public.cpp    |  4 +--
 source/core/utilities/options_public.cpp      | 28 +++++++++++++++++++
 8 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 55200e5..0c28bf1 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -348,6 +348,9 @@ inline da_status read_csv(csv_reader *csv, const char *filename, T **a, da_int *
     }
 
     da_int get_headings = csv->first_row_header;
+    if (get_headings && headings == nullptr)
+        return da_error(csv->err, da_status_invalid_pointer,
+                        "The array of headings is null.");
 
     error = parse_and_process(csv, filename, a, nrows, ncols, get_headings, headings);
     if (error != da_status_success)
diff --git a/source/core/csv/read_csv_public.cpp b/source/core/csv/read_csv_public.cpp
index ac4f772..ab8ec7b 100644
--- a/source/core/csv/read_csv_public.cpp
+++ b/source/core/csv/read_csv_public.cpp
@@ -36,6 +36,9 @@ da_status da_read_csv(da_datastore store, const char *filename, T **a, da_int *n
                       da_int *n_cols, char ***headings) {
     if (store == nullptr)
         return da_status_store_not_initialized;
+    if (filename == nullptr || a == nullptr || n_rows == nullptr || n_cols == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
     return da_csv::read_csv(store->csv_parser, filename, a, n_rows, n_cols, headings);
 }
 
diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 0baa7df..d6ec99b 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -31,6 +31,8 @@
 #include <vector>
 
 da_status da_datastore_init(da_datastore *store) {
+    if (store == nullptr)
+        return da_status_invalid_pointer;
 
     // Exclude memory checks from coverage
     // LCOV_EXCL_START
diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 2fb6650..bb54f97 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -786,6 +786,9 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
         return da_error(this->err, da_status_no_data,
                         "No data has been passed to the handle.");
 
+    if (usr_ncoefs > 0 && coefs == nullptr)
+        return da_error(this->err, da_status_invalid_pointer, "The array coefs is null.");
+
     if (this->model_trained)
         return da_status_success;
 
diff --git a/source/core/nearest_neighbors/nearest_neighbors_public.hpp b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
index d57e66d..985caab 100644
--- a/source/core/nearest_neighbors/nearest_neighbors_public.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
@@ -25,6 +25,7 @@
 #include "da_handle.hpp"
 #include "dynamic_dispatch.hpp"
 #include "macros.h"
+#include <algorithm>
 
 namespace neighbors_public {
 
@@ -83,6 +84,9 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         return da_error(handle->err, da_status_invalid_handle_type,
                         "handle was not initialized with handle_type=da_handle_nn or "
                         "handle is invalid.");
+    if (n_classes == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "n_classes is not a valid pointer.");
     da_status status = da_status_success;
     if (*n_classes <= 0) { // Querying number of classes to allocate memory
         status = nn->available_classes();
@@ -92,6 +96,11 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         if (classes == nullptr)
             return da_error_bypass(handle->err, da_status_invalid_pointer,
                                    "classes is not a valid pointer.");
+        status = nn->available_classes();
+        if (status != da_status_success)
+            return status; // Error message already loaded
+        // The array may be longer than the number of classes
+        *n_classes = std::min(*n_classes, da_int(nn->classes.size()));
         for (da_int i = 0; i < *n_classes; i++)
             classes[i] = nn->classes[i];
     }
diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index 42073b0..60a55a7 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -188,16 +188,17 @@ class da_error_t {
     string get_telem(void) { return telem.empty() ? "" : telem.front(); };
 
     da_status get_mesg_char(char **message) {
-        size_t len = mesg.front().length();
+        const string text = get_mesg(); // there may be no message
+        size_t len = text.length();
         *message = (char *)(malloc(len + 1));
         if (*message == NULL) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-        strncpy_s(*message, 1 + len, mesg.front().c_str(), len);
+        strncpy_s(*message, 1 + len, text.c_str(), len);
 #else
-        strncpy(*message, mesg.front().c_str(), len);
+        strncpy(*message, text.c_str(), len);
 #endif
         // Ensure null termination
         (*message)[len] = '\0';
diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index a4f6493..c8c53e5 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -267,7 +267,7 @@ da_status da_handle_get_result(da_handle handle, da_result query, da_int *dim,
 
 da_status da_handle_get_error_message(da_handle handle, char **message) {
     // Check to see if we have a valid handle
-    if (handle) {
+    if (handle && message) {
         return handle->err->get_mesg_char(message);
     }
     return da_status_invalid_input;
@@ -275,7 +275,7 @@ da_status da_handle_get_error_message(da_handle handle, char **message) {
 
 da_status da_handle_get_error_severity(da_handle handle, da_severity *severity) {
     // Check to see if we have a valid handle
-    if (handle) {
+    if (handle && severity) {
         *severity = handle->err->get_severity();
         return da_status_success;
     }
diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 3869fec..b8eae23 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -36,6 +36,14 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (option == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "The option name is null.");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (value == nullptr)
+            return da_error(handle->err, da_status_invalid_pointer,
+                            "The option value is null.");
+    }
 
     if constexpr (!std::is_same_v<T, da_int> && !std::is_same_v<T, const char *>) {
         da_status status = handle->check_precision<T>();
@@ -63,6 +71,9 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (option == nullptr || value == nullptr || lvalue == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
 
     da_options::OptionRegistry *opts;
     status = handle->get_current_opts(&opts);
@@ -102,6 +113,9 @@ da_status da_options_get(da_handle handle, const char *option, T *value) {
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
+    if (option == nullptr || value == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
 
     if constexpr (!std::is_same_v<T, da_int>) {
         da_status status = handle->check_precision<T>();
@@ -143,6 +157,14 @@ da_status da_datastore_options_set(da_datastore store, const char *option, T val
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (option == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "The option name is null.");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (value == nullptr)
+            return da_error(store->err, da_status_invalid_pointer,
+                            "The option value is null.");
+    }
 
     status = store->opts->set(option, value, da_options::user);
     if (status != da_status_success) {
@@ -159,6 +181,9 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (option == nullptr || value == nullptr || lvalue == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
 
     std::string svalue;
     status = store->opts->get(option, svalue);
@@ -189,6 +214,9 @@ da_status da_datastore_options_get(da_datastore store, const char *option, T *va
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
+    if (option == nullptr || value == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
 
     status = store->opts->get(option, *value);
     if (status != da_status_success) {
-- 
2.43.0


From 2c1bead96b9f2bc89c9d6f40ca4818a53c307473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 17/39] fix: null handle refused by da_handle_init; tree
 predict_log_proba honours n_class; da_read_csv clears the store's error
 record

---
 source/core/csv/read_csv_public.cpp                          | 1 +
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 source/core/utilities/da_handle_public.cpp                   | 3 +++
 source/include/aoclda_basic_statistics.h                     | 2 +-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/read_csv_public.cpp b/source/core/csv/read_csv_public.cpp
index ab8ec7b..a565a86 100644
--- a/source/core/csv/read_csv_public.cpp
+++ b/source/core/csv/read_csv_public.cpp
@@ -36,6 +36,7 @@ da_status da_read_csv(da_datastore store, const char *filename, T **a, da_int *n
                       da_int *n_cols, char ***headings) {
     if (store == nullptr)
         return da_status_store_not_initialized;
+    store->clear(); // Clean up store logs
     if (filename == nullptr || a == nullptr || n_rows == nullptr || n_cols == nullptr)
         return da_error(store->err, da_status_invalid_pointer,
                         "One of the arguments is null.");
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..b85c160 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -183,7 +183,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index c8c53e5..3cdbd5b 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -34,6 +34,9 @@
 template <typename T>
 da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
 
+    if (handle == nullptr)
+        return da_status_invalid_pointer;
+
     try {
         *handle = new _da_handle;
     } catch (std::bad_alloc &) {
diff --git a/source/include/aoclda_basic_statistics.h b/source/include/aoclda_basic_statistics.h
index 6cdc9bc..d03eb05 100644
--- a/source/include/aoclda_basic_statistics.h
+++ b/source/include/aoclda_basic_statistics.h
@@ -279,7 +279,7 @@ da_status da_kurtosis_s(da_order order, da_axis axis, da_int n_rows, da_int n_co
  * \param[in] n_cols the number of columns in the data matrix. Constraint: \p n_cols @f$\ge 1@f$.
  * \param[in] X the \p n_rows @f$\times @f$ \p n_cols data matrix.
  * \param[in] ldx the leading dimension of the data matrix. Constraint: \p ldx @f$\ge@f$ \p n_rows if \p order = \p column_major, or \p ldx @f$\ge@f$ \p n_cols if \p order = \p row_major.
- * \param[in] k the order of the moment to be computed. Constraint: k @f$>@f$ 0.
+ * \param[in] k the order of the moment to be computed. Constraint: k @f$\ge@f$ 0.
  * \param[in] use_precomputed_mean if nonzero, then means supplied by the calling program will be used. Otherwise means will be computed internally and returned to the calling program.
  * \param[inout] mean the array which will hold the computed means. If \p use_precomputed_mean is zero then this array need not be set on entry. If \p axis = \ref da_axis_col the array must be at least of size @f$n_cols@f$. If \p axis = \ref da_axis_row the array must be at least of size @f$n_rows@f$.  If \p axis = \ref da_axis_all the array must be at least of size 1.
  * \param[out] moment the array which will hold the computed moments. If \p axis = \ref da_axis_col the array must be at least of size @f$n_cols@f$. If \p axis = \ref da_axis_row the array must be at least of size @f$n_rows@f$. If \p axis = \ref da_axis_all the array must be at least of size 1.
-- 
2.43.0


From f0dc46cffd6f8fea10d650ae9f0eeb798c931885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 18/39] fix: result queries check the array length before they
 touch it

pca total variance and the dbscan counts wrote their value without looking at
*dim; the neighbors *_index queries read result[0] first; and the radius
neighbors count was copied up to the caller's length, past the end of the
stored counts when the array is longer than needed.
---
 source/core/clustering/dbscan/dbscan.cpp         | 12 ++++++++++++
 source/core/factorization/pca/pca.cpp            |  6 ++++++
 .../core/nearest_neighbors/nearest_neighbors.cpp | 16 +++++++++++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 402d911..2b65dca 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -149,9 +149,21 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
         break;
     }
     case da_result::da_dbscan_n_clusters:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_clusters;
         break;
     case da_result::da_dbscan_n_core_samples:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_core_samples;
         break;
     default:
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 947b7ff..6fd9446 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -236,6 +236,12 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
             result[i] = column_sdevs[i];
         break;
     case da_result::da_pca_total_variance:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         result[0] = total_variance;
         break;
     default:
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 32acd32..44042fe 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -136,6 +136,13 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, T *result) {
                            "computation. Please set return_distance to true in "
                            "da_nn_radius_neighbors_s or da_nn_radius_neighbors_d call.");
         }
+        // The index of the query point is passed in as the first element of the array
+        if (n_count < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         da_int index = da_int(result[0]);
         if (index < 0 || index >= (da_int)this->radius_neighbors_distances.size()) {
             return da_warn(
@@ -219,7 +226,7 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
                            "least size: " +
                                std::to_string(n_queries + 1) + ".");
         }
-        return neighbors<T>::radius_neighbors_count_internal(n_count, result);
+        return neighbors<T>::radius_neighbors_count_internal(n_queries + 1, result);
         break;
     }
     case da_result::da_nn_radius_neighbors_offsets: {
@@ -244,6 +251,13 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
         break;
     }
     case da_result::da_nn_radius_neighbors_indices_index: {
+        // The index of the query point is passed in as the first element of the array
+        if (n_count < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         da_int index = da_int(result[0]);
         if (index < 0 || index >= (da_int)this->radius_neighbors_indices.size()) {
             return da_warn(this->err, da_status_invalid_input,
-- 
2.43.0


From 7b8dd342da30986a5822bdcb913a43735f4309ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 19/39] fix: dbscan no longer frees the stored data when an
 option is set after set_data

---
 source/core/clustering/dbscan/dbscan.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 2b65dca..f284b51 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -175,10 +175,6 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
 };
 
 template <typename T> void dbscan<T>::refresh() {
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-    }
     this->model_trained = false;
     neighbors.clear();
     labels.clear();
@@ -194,6 +190,12 @@ da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     refresh();
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+    }
+    A = nullptr;
+    initdone = false;
 
     da_status status =
         this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
-- 
2.43.0


From 494abf9ec457d2b97c529ac54bedf2c38346ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 20/39] fix: linear model refit releases the previous solver
 and data copies

---
 source/core/linear_model/linear_model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index bb54f97..d84c86d 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -874,6 +874,10 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
 
     bool do_prep = true;
 
+    // An earlier fit that failed may have left its solver and working data behind
+    reset_solvers();
+    reset_data();
+
     while (true) {
         // Resolve scaling using helper and update option
         scaling = get_required_scaling(method_id, in_fallback);
-- 
2.43.0


From 424fde778a71c527a8c81b381308e5c953d2e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 21/39] fix: standardize releases the mean buffer when the
 variance allocation fails

---
 source/core/basic_statistics/statistical_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..d97e6a0 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -119,6 +119,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             amean = new T[length];
             var = new T[length];
         } catch (std::bad_alloc const &) {
+            delete[] amean;                // LCOV_EXCL_LINE
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
 
-- 
2.43.0


From b5cd3ba1f5a50fda1ff8df5bfe19c86f0a3aba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 22/39] fix: tree and forest inference release temporary copies
 on early returns

---
 .../forest/decision_forest_inference.hpp      | 28 +++++++++++++------
 .../tree/decision_tree_handle_utilities.hpp   |  1 +
 .../tree/decision_tree_inference.hpp          | 12 +++++---
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 1dfe879..6c92e8f 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -106,10 +106,12 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
     if (status != da_status_success)
         return status;
 
-    if (this->opts.get("block size", block_size) != da_status_success)
-        return da_error_trace( // LCOV_EXCL_LINE
+    if (this->opts.get("block size", block_size) != da_status_success) {
+        delete[] (utility_ptr1); // LCOV_EXCL_LINE
+        return da_error_trace(   // LCOV_EXCL_LINE
             this->err, da_status_internal_error,
             "Unexpected error while reading the optional parameter 'block size' .");
+    }
 
     // Set up the parallel tasks and data. X is divided into blocks of small size
     // evaluating 1 tree on one of X's blocks is considered an independent task that
@@ -123,6 +125,7 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
         y_pred_tree.resize(n_threads * block_size);
         count_classes.resize(n_class * nsamp, 0);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
@@ -159,8 +162,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                                             da_int ldy) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_temp;
     da_int ldy_proba_temp;
@@ -194,8 +197,10 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
     status = this->store_2D_array(nsamp, nclass, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_proba_temp,
                                   "n_samples", "n_class", "y_proba", "ldy", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
     std::vector<T> sum_proba, y_proba_tree;
     da_int n_blocks, block_rem;
@@ -205,6 +210,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
         sum_proba.resize(n_class * nsamp);
         y_proba_tree.resize(n_threads * n_class * block_size);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
+        delete[] (utility_ptr2);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
@@ -335,13 +342,17 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
-    if (this->opts.get("block size", block_size) != da_status_success)
-        return da_error_trace( // LCOV_EXCL_LINE
+    if (this->opts.get("block size", block_size) != da_status_success) {
+        delete[] (utility_ptr1); // LCOV_EXCL_LINE
+        return da_error_trace(   // LCOV_EXCL_LINE
             this->err, da_status_internal_error,
             "Unexpected error while reading the optional parameter 'block size' .");
+    }
 
     std::vector<da_int> count_classes, y_pred_tree;
     da_int n_blocks, block_rem;
@@ -352,6 +363,7 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         y_pred_tree.resize(n_threads * block_size);
         count_classes.resize(n_class * nsamp, 0);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 8f703ae..62b2817 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -140,6 +140,7 @@ template <typename T> void decision_tree<T>::clear_working_memory() {
     thread_workspaces = std::vector<split_workspace<T>>();
     if (X_temp) {
         delete[] (X_temp);
+        X_temp = nullptr;
         X = nullptr;
     }
     if (X_binned && internal_bins) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b85c160..4f85dfc 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -100,8 +100,8 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                           da_int ldy, da_int mode) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_pred_temp;
     da_int ldy_proba_pred_temp;
@@ -142,8 +142,10 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                   const_cast<const T **>(&y_proba_pred_temp),
                                   ldy_proba_pred_temp, "n_samples", "n_class", "y_proba",
                                   "ldy", mode_output);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
     // Fill y_proba_pred with the values of all the requested samples
     node<T> *current_node;
@@ -236,8 +238,10 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
     node<T> *current_node;
     *accuracy = 0.;
-- 
2.43.0


From d390775211e8dbe97e69022163a45364610a9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 23/39] fix: svm inference releases temporary copies on early
 returns

---
 source/core/svm/svm.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 4d058b7..a8356bb 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -890,13 +890,17 @@ da_status svm<T>::decision_function(da_int nsamples, da_int nfeat, const T *X_te
     status = this->store_2D_array(n_rows, n_cols, decision_values, ldd, &utility_ptr2,
                                   const_cast<const T **>(&decision_values_temp), ldd_temp,
                                   "n_rows", "n_cols", "decision_values", "ldd", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
     std::vector<T> decision_values_ovo;
     try {
         decision_values_ovo.resize(nsamples * n_classifiers);
     } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
+        delete[] (utility_ptr2);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
@@ -942,6 +946,8 @@ da_status svm<T>::decision_function(da_int nsamples, da_int nfeat, const T *X_te
             decision_values_ovr.resize(nsamples * n_class);
             confidence_sum.resize(nsamples * n_class);
         } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+            delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
+            delete[] (utility_ptr2);                           // LCOV_EXCL_LINE
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
         }
@@ -1012,13 +1018,16 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
         return status;
 
     status = this->check_1D_array(nsamples, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
 
     std::vector<T> predictions;
     try {
         predictions.resize(nsamples);
     } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
@@ -1103,12 +1112,16 @@ da_status svm<T>::predict_proba(da_int nsamples, da_int nfeat, const T *X_test,
     status = this->store_2D_array(nsamples, n_class, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_temp,
                                   "n_rows", "n_cols", "y_proba", "ldy", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return status;
+    }
     std::vector<T> dec_values;
     try {
         dec_values.resize(nsamples * n_classifiers);
     } catch (std::bad_alloc &) {
+        delete[] (utility_ptr1);
+        delete[] (utility_ptr2);
         return da_error(this->err, da_status_memory_error, "Memory allocation error");
     }
     // Obtain OVO decision function values
@@ -1138,6 +1151,8 @@ da_status svm<T>::predict_proba(da_int nsamples, da_int nfeat, const T *X_test,
             Q.resize(n_class * n_class);
             Qp.resize(n_class);
         } catch (std::bad_alloc &) {
+            delete[] (utility_ptr1);
+            delete[] (utility_ptr2);
             return da_error(this->err, da_status_memory_error, "Memory allocation error");
         }
         // Construct pairwise probabilities matrix
-- 
2.43.0


From 1fb523f5a039b0642353e9a08e302fc113c0ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 24/39] fix: nearest neighbors inference releases temporary
 copies on early returns

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 44042fe..7603b13 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -990,6 +990,7 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
 
     // Check number of requested neighbors
     if ((n_neigh <= 0 && this->n_neighbors <= 0)) {
+        delete[] (utility_ptr1);
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Number of requested neighbors must be positive.");
     }
@@ -999,6 +1000,7 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
 
     // Effective number of neighbors needs to be at most the size of features.
     if (n_neigh > this->n_samples) {
+        delete[] (utility_ptr1);
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Number of requested neighbors must be at least as big as "
                                "the number of samples.");
@@ -1007,6 +1009,7 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
     // If distances are requested, check the pointer for outputs is valid.
     if (return_distance) {
         if (n_dist == nullptr) {
+            delete[] (utility_ptr1);
             return da_error_bypass(this->err, da_status_invalid_pointer,
                                    "n_dist is not a valid pointer.");
         }
@@ -1553,15 +1556,18 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
         // From the input data y_train, find the available classes.
         status = neighbors<T>::available_classes();
     }
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (utility_ptr1);
         return da_error_bypass(this->err, status,
                                "Failed to compute probabilities due to an internal error "
                                "of the available classes computation.");
+    }
 
     std::vector<T> proba;
     try {
         proba.resize(n_queries * this->n_classes);
     } catch (std::bad_alloc const &) {
+        delete[] (utility_ptr1);                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
@@ -1578,10 +1584,12 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
             da_error_bypass(this->err, da_status_invalid_input,
                             "Unknown search mode: " + std::to_string(search_mode) + ".");
     }
-    if (status != da_status_success && status != da_status_outlier_warning)
+    if (status != da_status_success && status != da_status_outlier_warning) {
+        delete[] (utility_ptr1);
         return da_error_bypass(this->err, status,
                                "Failed to compute predicted labels due to an internal "
                                "error of predicting the probabilities.");
+    }
 
     // For each column of proba, check which label appears the most times.
     // In case of a tie, return the first label.
@@ -1981,6 +1989,7 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
 
     // Check radius of requested neighbors
     if (r < 0.0 && this->radius < 0.0) {
+        delete[] (utility_ptr1);
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Radius of requested neighbors must be non-negative.");
     }
-- 
2.43.0


From fb93fa7ccfbac03b07f6f53e6522d5b402b8731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 25/39] fix: resizing the cache and resetting interpolation
 sites release the previous buffer

---
 source/core/interpolation/interpolation_generic.hpp | 2 ++
 source/core/utilities/da_cache.hpp                  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..da36aae 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -215,6 +215,8 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     n_sites = n;
     T dx_val = (x_end - x_start) / (T)(n - 1);
     x_usr = nullptr;
+    delete[] x_internal;
+    x_internal = nullptr;
     try {
         x_internal = new T[n_sites];
         dx.resize(n_sites - 1, dx_val);
diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index a0428dd..bee38b6 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -167,6 +167,8 @@ template <typename T> class LRUCache {
         len_ = len;
         active_ = (capacity_ > 0);
         if (active_) {
+            delete[] data_;
+            data_ = nullptr;
             try {
                 data_ = new T[capacity * len];
             } catch (std::bad_alloc &) {
-- 
2.43.0


From 13dce30b92bd11cb012bce89530fecde5e87484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 26/39] fix: a failed handle initialisation releases the
 algorithm object

---
 source/core/utilities/da_handle_public.cpp | 26 +++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 3cdbd5b..e0655dd 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -64,7 +64,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_linmod::linear_model<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -72,7 +72,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_pca::pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -81,7 +81,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_tsne::tsne<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -90,7 +90,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kmeans::kmeans<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -99,7 +99,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_dbscan::dbscan<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -109,7 +109,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_tree<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -119,7 +119,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_forest<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -132,7 +132,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err,
                        alg_handle = new da_nlls::nlls<T>(status, *(*handle)->err));
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -141,7 +141,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_neighbors::neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -149,7 +149,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_svm::svm<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -159,7 +159,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_interpolation::interpolation_p<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -169,7 +169,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_approx_nn::approximate_neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -178,7 +178,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kernel_pca::kernel_pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
-- 
2.43.0


From dabb1156dac177e2e5139a5f41186335da2128af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 27/39] fix: a data store block takes ownership on success
 only, and csv loading releases its buffers on failure

---
 source/core/csv/read_csv.hpp                  |  7 ++++++
 source/core/data_management/data_store.cpp    | 12 +++++++--
 source/core/data_management/data_store.hpp    | 25 +++++++++++++------
 .../data_management/data_store_public.cpp     | 10 ++------
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 0c28bf1..e99aac6 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -62,6 +62,7 @@ inline da_status delete_string_array(char ***S, da_int n) {
 template <typename T> inline void free_data(T **arr, [[maybe_unused]] da_int n) {
     if (*arr)
         free(*arr);
+    *arr = nullptr;
 }
 
 inline void free_data(char ***arr, da_int n) {
@@ -217,6 +218,7 @@ inline da_status populate_data_array(csv_reader *csv, T **a, da_int *nrows, da_i
                     (j - parser->line_start[i]) * ((int64_t)lines - (int64_t)first_line);
                 break;
             default:
+                free_data(&data, (da_int)n);                        // LCOV_EXCL_LINE
                 return da_error(csv->err, da_status_internal_error, // LCOV_EXCL_LINE
                                 "An internal error occurred. This is likely to be due to "
                                 "a memory corruption issue.");
@@ -312,6 +314,11 @@ inline da_status parse_and_process(csv_reader *csv, const char *filename, T **a,
 
     if (tmp_error != da_status_success) {
         error = tmp_error;
+        if (tmp_error != da_status_missing_data) {
+            // No data was stored
+            parser_reset(csv->parser);
+            return error; // Error message already loaded
+        }
     }
 
     // Now deal with headings
diff --git a/source/core/data_management/data_store.cpp b/source/core/data_management/data_store.cpp
index bd72d4a..dc81211 100644
--- a/source/core/data_management/data_store.cpp
+++ b/source/core/data_management/data_store.cpp
@@ -44,6 +44,8 @@ da_status data_store::concatenate_cols_csv<char **>(da_int mc, da_int nc, char *
     data = nullptr;
     da_status status =
         concatenate_columns(mc, nc, deref_data, order, copy_data, true, C_data);
+    if (status != da_status_success)
+        da_csv::free_data(&deref_data, mc * nc);
     return status;
 }
 
@@ -55,11 +57,16 @@ da_status data_store::raw_ptr_from_csv_columns<char **>(
     parser_t *parser = csv->parser;
     int *maybe_int = nullptr;
     char *p_end = nullptr;
+    C_data = true;
 
     da_int ncols = end_column - start_column + 1;
     // Because char_to_num below uses calloc, we need to use calloc here too rather than new so deallocing is well-defined
     *bl = (char ***)calloc(1, sizeof(char **));
-    **bl = (char **)calloc(nrows * ncols, sizeof(char *));
+    if (*bl != nullptr)
+        **bl = (char **)calloc(nrows * ncols, sizeof(char *));
+    if (*bl == nullptr || **bl == nullptr)
+        return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation failure");
     for (da_int i = 0; i < ncols; i++) {
         if (std::vector<char **> *char_col =
                 std::get_if<std::vector<char **>>(&(columns[start_column + i]))) {
@@ -73,16 +80,17 @@ da_status data_store::raw_ptr_from_csv_columns<char **>(
                     std::string buff;
                     buff = "Unable to parse data on line " + std::to_string(i) +
                            " entry " + std::to_string(j) + ".";
+                    da_csv::free_data(*bl, nrows * ncols);
                     return da_error(err, tmp_error, buff);
                     // LCOV_EXCL_STOP
                 }
             }
         } else {
+            da_csv::free_data(*bl, nrows * ncols);         // LCOV_EXCL_LINE
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "Wrong data type detected unexpectedly");
         }
     }
-    C_data = true;
     return da_status_success;
 }
 } // namespace da_data
\ No newline at end of file
diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 0aa497a..f998c01 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -490,8 +490,6 @@ class data_store {
             new_block->b =
                 new block_dense<T>(mc, nc, data, *this->err, order, copy_data, C_data);
             new_block->offset = n;
-            block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-            bd->set_own_data(own_data || copy_data);
             index_to_name.resize(n + nc, nullptr);
         } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
             return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
@@ -502,6 +500,8 @@ class data_store {
         if (cmap.insert(interval(n, n + nc - 1), new_block) != da_status_success)
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "The new columns could not be added to the store.");
+        // The data changes hands on success only
+        static_cast<block_dense<T> *>(new_block->b)->set_own_data(own_data || copy_data);
 
         // Update the size of the datastore if it was initially empty
         if (m == 0)
@@ -545,8 +545,6 @@ class data_store {
                 new_block = std::make_shared<block_id>(block_id());
                 new_block->b =
                     new block_dense<T>(mr, nr, data, *err, order, copy_data, C_data);
-                block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-                bd->set_own_data(own_data || copy_data);
             } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
                 return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                                 "Memory allocation error");
@@ -577,6 +575,9 @@ class data_store {
                     new_block->left_parent = current_block;
             }
             if (!cleanup) {
+                // The data changes hands on success only
+                static_cast<block_dense<T> *>(new_block->b)
+                    ->set_own_data(own_data || copy_data);
                 if (idx_start + nr < n) {
                     missing_block = true;
                     idx_start_missing = idx_start + nr;
@@ -1463,7 +1464,12 @@ class data_store {
     template <class T>
     da_status concatenate_cols_csv(da_int mc, da_int nc, T *data, da_order order,
                                    bool copy_data, bool C_data) {
-        return concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        // Takes over data, even on failure
+        da_status status =
+            concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        if (status != da_status_success)
+            delete[] data;
+        return status;
     }
     template <class T>
     da_status raw_ptr_from_csv_columns([[maybe_unused]] da_csv::csv_reader *csv,
@@ -1571,14 +1577,19 @@ class data_store {
         }
         status = concatenate_columns(nrows, ncols, data, csv->order, copy_data, own_data,
                                      C_data);
-        if (status != da_status_success)
+        if (status != da_status_success) {
+            free_data(&headings, ncols);
+            free_data(&data, nrows * ncols);
             return da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
                                   "Failed concatenation.");
+        }
 
         status = label_all_columns(headings);
-        if (status != da_status_success)
+        if (status != da_status_success) {
+            free_data(&headings, ncols);
             return da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
                                   "Unexpected error in column labeling.");
+        }
         if (headings != nullptr) {
             for (da_int j = 0; j < ncols; j++) {
                 if (headings[j])
diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index d6ec99b..0020ac1 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -170,10 +170,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
@@ -206,10 +203,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
-- 
2.43.0


From 5eafd9889699d0c73e051cbdd7cda8029c299aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 28/39] fix: svm multiclass training releases its data slices
 on every return and reports a failed allocation

---
 source/core/svm/base_svm.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 8e37477..d00f7c6 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -48,6 +48,8 @@
 #include <cstring>
 #include <iostream>
 #include <limits>
+#include <memory>
+#include <new>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -160,9 +162,17 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     T first_diff = T(0), previous_first_diff = T(0);
     da_int no_diff_counter = 0;
     // For multiclass we take slices of user's data on indexes where class is i or j (those indexes are stored in idx_class and obtained in set_data())
+    std::unique_ptr<T[]> X_slice, y_slice; // Release the slices on every return
     if (ismulticlass) {
-        X = new T[n * p];
-        y = new T[n];
+        try {
+            X_slice.reset(new T[n * p]);
+            y_slice.reset(new T[n]);
+        } catch (std::bad_alloc &) {
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
+        X = X_slice.get();
+        y = y_slice.get();
 
         // 0 is transformed to -1 in initialisation
         for (da_int i = 0; i < n; i++)
@@ -371,10 +381,6 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         }
     }
 
-    if (ismulticlass) {
-        delete[] X;
-        delete[] y;
-    }
     return status;
 }
 
-- 
2.43.0


From 9b1e9867b10dac97aad611c1298f4941e834b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 29/39] fix: statistics, metrics, PCA: report failed
 allocations as memory errors

---
 .../core/basic_statistics/correlation_and_covariance.cpp | 8 +++++++-
 source/core/basic_statistics/order_statistics.cpp        | 7 ++++++-
 source/core/factorization/pca/pca.cpp                    | 7 ++++++-
 source/core/metrics/cosine_distance.cpp                  | 9 +++++++--
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/source/core/basic_statistics/correlation_and_covariance.cpp b/source/core/basic_statistics/correlation_and_covariance.cpp
index a497220..d54c7f5 100644
--- a/source/core/basic_statistics/correlation_and_covariance.cpp
+++ b/source/core/basic_statistics/correlation_and_covariance.cpp
@@ -99,7 +99,13 @@ da_status cov_corr_matrix(da_order order, da_int n, da_int p, const T *x, da_int
         status =
             standardize(order, da_axis_col, n, p, x_copy, ldx_copy, 1, 0, dummy, dummy);
     } else if (!assume_centered) {
-        std::vector<T> col_means(p);
+        std::vector<T> col_means;
+        try {
+            col_means.resize(p);
+        } catch (std::bad_alloc const &) {
+            delete[] x_copy;               // LCOV_EXCL_LINE
+            return da_status_memory_error; // LCOV_EXCL_LINE
+        }
         // Call standardize with col_means full of zeros so the means are computed
         status = standardize(order, da_axis_col, n, p, x_copy, ldx_copy, dof, 0,
                              col_means.data(), dummy);
diff --git a/source/core/basic_statistics/order_statistics.cpp b/source/core/basic_statistics/order_statistics.cpp
index bb3d886..edbd06e 100644
--- a/source/core/basic_statistics/order_statistics.cpp
+++ b/source/core/basic_statistics/order_statistics.cpp
@@ -207,7 +207,12 @@ da_status quantile(da_order order, da_axis axis, da_int n, da_int p, const T *x,
         return status;
 
     // Sort quantile indices for faster selection while preserving output order.
-    std::vector<da_int> sorted_h_idx(n_q);
+    std::vector<da_int> sorted_h_idx;
+    try {
+        sorted_h_idx.resize(n_q);
+    } catch (std::bad_alloc const &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
     da_std::iota(sorted_h_idx.begin(), sorted_h_idx.end(), 0);
     std::sort(sorted_h_idx.begin(), sorted_h_idx.end(),
               [&h](da_int a, da_int b) { return h[a] < h[b]; });
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 6fd9446..91c933a 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -276,7 +276,12 @@ da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
 
     // We'll always store A in column-major format internally
     if (this->order == row_major) {
-        A_temp = new T[n * p];
+        try {
+            A_temp = new T[n * p];
+        } catch (std::bad_alloc const &) {
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation failed.");
+        }
         ARCH::da_utils::copy_transpose_2D_array_row_to_column_major<T>(n, p, A_in, lda_in,
                                                                        A_temp, n);
         A = A_temp;
diff --git a/source/core/metrics/cosine_distance.cpp b/source/core/metrics/cosine_distance.cpp
index 7eba961..69b2bcc 100644
--- a/source/core/metrics/cosine_distance.cpp
+++ b/source/core/metrics/cosine_distance.cpp
@@ -102,8 +102,13 @@ da_status cosine(da_order order, da_int m, da_int n, da_int k, const T *X, da_in
         X_is_Y = true;
     }
     // Compute the norms for all rows of X and Y
-    std::vector<T> normsX(m);
-    std::vector<T> normsY(n);
+    std::vector<T> normsX, normsY;
+    try {
+        normsX.resize(m);
+        normsY.resize(n);
+    } catch (std::bad_alloc const &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
     const T eps = std::numeric_limits<T>::epsilon();
     // Open scope so that memory gets deallocated before calling the computational kernel
     if (order == column_major) {
-- 
2.43.0


From f951a8ad5af10b9d91fe6404366a50ddca3872e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 30/39] fix: CSV and data store: report failed allocations
 instead of letting them escape

---
 source/core/csv/read_csv.hpp               | 24 ++++++++++++++--------
 source/core/data_management/data_store.hpp |  8 ++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index e99aac6..a7d5a88 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -113,15 +113,21 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
         buff = "The following lines of the CSV file were ignored:\n";
         // Get the list of ignored lines from the parser's hash table and sort them
         std::vector<khint64_t> keys;
-        for (khint64_t it = kh_begin((kh_int64_t *)parser->skipped_lines);
-             it != kh_end((kh_int64_t *)parser->skipped_lines); ++it) {
-            if (kh_exist((kh_int64_t *)parser->skipped_lines, it))
-                keys.push_back(
-                    (khint64_t)kh_key(((kh_int64_t *)parser->skipped_lines), it));
-        };
-        std::sort(keys.begin(), keys.end());
-        for (const khint64_t &key : keys) {
-            buff += std::to_string(key) + " ";
+        try {
+            for (khint64_t it = kh_begin((kh_int64_t *)parser->skipped_lines);
+                 it != kh_end((kh_int64_t *)parser->skipped_lines); ++it) {
+                if (kh_exist((kh_int64_t *)parser->skipped_lines, it))
+                    keys.push_back(
+                        (khint64_t)kh_key(((kh_int64_t *)parser->skipped_lines), it));
+            };
+            std::sort(keys.begin(), keys.end());
+            for (const khint64_t &key : keys) {
+                buff += std::to_string(key) + " ";
+            }
+        } catch (std::bad_alloc const &) {
+            status = da_error(csv->err, da_status_memory_error, // LCOV_EXCL_LINE
+                              "Memory allocation failure");
+            goto exit; // LCOV_EXCL_LINE
         }
         da_warn(csv->err, da_status_success, buff);
         goto exit;
diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index f998c01..d8a732e 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1667,8 +1667,12 @@ class data_store {
 
             da_auto_detect::CSVColumnsType columns;
             // Call routine to detect the datatype of each column
-            status =
-                da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
+            try {
+                status =
+                    da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
+            } catch (std::bad_alloc const &) {
+                status = da_status_memory_error; // LCOV_EXCL_LINE
+            }
             if (status != da_status_success) {
                 da_csv::free_data(&headings, ncols);
                 da_csv::free_data(&data_char, nrows * ncols);
-- 
2.43.0


From 766322e14ac06e2d81ef9f1734af0149c1606a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 31/39] fix: linear model, L-BFGS-B: failed allocations end in
 da_status_memory_error

---
 source/core/drivers/lbfgsb_driver.hpp     |  6 +++-
 source/core/linear_model/linear_model.cpp | 39 +++++++++++++++++------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/source/core/drivers/lbfgsb_driver.hpp b/source/core/drivers/lbfgsb_driver.hpp
index 8fd2e47..f2b6097 100644
--- a/source/core/drivers/lbfgsb_driver.hpp
+++ b/source/core/drivers/lbfgsb_driver.hpp
@@ -34,6 +34,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <new>
 #include <vector>
 
 namespace ARCH {
@@ -227,7 +228,10 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
                             "expected option not found: monitoring frequency");
 
     da_status status;
-    lbfgsb_work<T> *w = new lbfgsb_work<T>(m, nvar, status);
+    lbfgsb_work<T> *w = new (std::nothrow) lbfgsb_work<T>(m, nvar, status);
+    if (w == nullptr)
+        return da_error(&err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "unable to allocate memory for solving the problem");
     if (status != da_status_success) {
         delete w;
         return da_error(&err, da_status_memory_error,
diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index d84c86d..62d36ed 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -281,7 +281,13 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             // Save information about loss function
             da_int flag;
             T loss;
-            std::vector<T> pred(nsamples);
+            std::vector<T> pred;
+            try {
+                pred.resize(nsamples);
+            } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+                return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error.");
+            }
             const T l1reg = alpha * lambda;
             const T l2reg = (T(1) - alpha) * lambda / T(2);
             // Call loss_mse
@@ -1549,7 +1555,12 @@ template <typename T> da_status linear_model<T>::fit_linreg_cg() {
                         "Internal error with CG solver");
     }
 
-    setup_xtx_xty(cg->A, cg->b);
+    try {
+        setup_xtx_xty(cg->A, cg->b);
+    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error");
+    }
 
     // In case of providing initial coefficients we want to overwrite already initialized and filled with 0 cg->coef vector
     // otherwise we leave it filled with 0 as a starting point.
@@ -1671,7 +1682,12 @@ template <typename T> da_status linear_model<T>::fit_linreg_cholesky() {
                         "Memory allocation error");
     }
 
-    setup_xtx_xty(cholesky->A, cholesky->b);
+    try {
+        setup_xtx_xty(cholesky->A, cholesky->b);
+    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error");
+    }
 
     da_int info = 1;
     char uplo = 'U';
@@ -2106,12 +2122,17 @@ da_status linear_model<T>::preprocess_data(linmod_method method_id) {
 
     // All other solvers need X which is a modifiable copy of XUSR
 
-    if (scaling != scaling_t::none) {
-        std_scales.assign(nfeat + 1, T(0));
-        std_shifts.assign(nfeat + 1, T(0));
-    }
-    if (use_xv) {
-        std_xv.assign(nfeat, T(0));
+    try {
+        if (scaling != scaling_t::none) {
+            std_scales.assign(nfeat + 1, T(0));
+            std_shifts.assign(nfeat + 1, T(0));
+        }
+        if (use_xv) {
+            std_xv.assign(nfeat, T(0));
+        }
+    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error.");
     }
 
     da_int nrow, ncol;
-- 
2.43.0


From 2b46e11eebc997de3f4328bdcc2fb1d9e909de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 32/39] fix: nearest neighbours: keep allocation failures
 inside the OpenMP regions and report them

---
 source/core/nearest_neighbors/ball_tree.cpp   | 29 +++++++++++++++----
 source/core/nearest_neighbors/binary_tree.cpp | 20 ++++++++-----
 source/core/nearest_neighbors/binary_tree.hpp |  3 ++
 source/core/nearest_neighbors/kd_tree.cpp     | 29 +++++++++++++++----
 .../nearest_neighbors/nearest_neighbors.cpp   | 18 +++++++++---
 .../nearest_neighbors/radius_neighbors.cpp    | 16 ++++++++--
 6 files changed, 90 insertions(+), 25 deletions(-)

diff --git a/source/core/nearest_neighbors/ball_tree.cpp b/source/core/nearest_neighbors/ball_tree.cpp
index 310aafb..d281503 100644
--- a/source/core/nearest_neighbors/ball_tree.cpp
+++ b/source/core/nearest_neighbors/ball_tree.cpp
@@ -180,10 +180,17 @@ ball_tree<T>::ball_tree(da_int n_samples_in, da_int n_features_in, const T *A_in
     {
 #pragma omp single
         {
-            this->root =
-                build_tree(0, this->indices.data(), this->n_samples, &centroid, radius);
+            try {
+                this->root = build_tree(0, this->indices.data(), this->n_samples,
+                                        &centroid, radius);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     }
+    if (this->build_failed)
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
 }
 
 // Special constructor for when being loaded from memory.
@@ -376,11 +383,23 @@ ball_tree<T>::build_tree(da_int depth, da_int *indices, da_int n_indices,
     if (mid > BALL_TREE_MIN_TASK_SIZE) {
         // Some older compilers don't like the use of "omp task if" so use an explicit if statement
 #pragma omp task firstprivate(depth, mid, indices, this_node)
-        { this_node->left_child = build_tree(depth + 1, indices, mid); }
+        {
+            try {
+                this_node->left_child = build_tree(depth + 1, indices, mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
+        }
 #pragma omp task firstprivate(depth, mid, indices, n_indices, this_node)
         {
-            this_node->right_child =
-                build_tree(depth + 1, indices + mid, n_indices - mid);
+            try {
+                this_node->right_child =
+                    build_tree(depth + 1, indices + mid, n_indices - mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     } else {
         this_node->left_child = build_tree(depth + 1, indices, mid);
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 708b995..b6915fb 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -472,14 +472,18 @@ da_status binary_tree<Derived, NodeType>::radius_neighbors_loop(
 
             // Find the epsilon radius neighbors of the ith point in X by recursively searching the tree
             da_status tmp_status;
-            if constexpr (ReturnDistances) {
-                tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
-                    this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
-                    distances[i], true, X_is_A, i, X_norm);
-            } else {
-                tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
-                    this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
-                    dummy_dist, false, X_is_A, i, X_norm);
+            try {
+                if constexpr (ReturnDistances) {
+                    tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
+                        this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
+                        distances[i], true, X_is_A, i, X_norm);
+                } else {
+                    tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
+                        this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
+                        dummy_dist, false, X_is_A, i, X_norm);
+                }
+            } catch (std::bad_alloc const &) {
+                tmp_status = da_status_memory_error; // LCOV_EXCL_LINE
             }
             if (tmp_status != da_status_success) {
 // If there was an error, set the status and break out of the loop
diff --git a/source/core/nearest_neighbors/binary_tree.hpp b/source/core/nearest_neighbors/binary_tree.hpp
index 1d150d0..db789a4 100644
--- a/source/core/nearest_neighbors/binary_tree.hpp
+++ b/source/core/nearest_neighbors/binary_tree.hpp
@@ -179,6 +179,9 @@ template <typename Derived, typename NodeType> class binary_tree {
 
     da_int leaf_size = 30;
 
+    // Set when a node could not be allocated while building the tree in parallel
+    bool build_failed = false;
+
     // Indices of points in the dataset
     std::vector<da_int> indices;
 
diff --git a/source/core/nearest_neighbors/kd_tree.cpp b/source/core/nearest_neighbors/kd_tree.cpp
index 28dd51a..fbfa408 100644
--- a/source/core/nearest_neighbors/kd_tree.cpp
+++ b/source/core/nearest_neighbors/kd_tree.cpp
@@ -210,10 +210,17 @@ kd_tree<T>::kd_tree(da_int n_samples_in, da_int n_features_in, const T *A_in,
     {
 #pragma omp single
         {
-            this->root = build_tree(0, this->indices.data(), this->n_samples, &min_bounds,
-                                    &max_bounds, root_dim);
+            try {
+                this->root = build_tree(0, this->indices.data(), this->n_samples,
+                                        &min_bounds, &max_bounds, root_dim);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     }
+    if (this->build_failed)
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
 }
 
 // Special constructor for when being loaded from memory.
@@ -317,11 +324,23 @@ kd_tree<T>::build_tree(da_int depth, da_int *indices, da_int n_indices,
     if (mid > KD_TREE_MIN_TASK_SIZE) {
         // Some older compilers don't like the use of "omp task if" so use an explicit if statement
 #pragma omp task firstprivate(depth, mid, indices, this_node)
-        { this_node->left_child = build_tree(depth + 1, indices, mid); }
+        {
+            try {
+                this_node->left_child = build_tree(depth + 1, indices, mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
+        }
 #pragma omp task firstprivate(depth, mid, indices, n_indices, this_node)
         {
-            this_node->right_child =
-                build_tree(depth + 1, indices + mid + 1, n_indices - mid - 1);
+            try {
+                this_node->right_child =
+                    build_tree(depth + 1, indices + mid + 1, n_indices - mid - 1);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     } else {
         this_node->left_child = build_tree(depth + 1, indices, mid);
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 7603b13..bb2ea95 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2255,8 +2255,13 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
 #pragma omp for schedule(guided)
             // Merge the local neighbors into the global radius_neighbors_indices
             for (da_int i = 0; i < n_queries; i++) {
-                for (da_int t = 1; t < n_threads; t++) {
-                    rnn_indices[i].append(neighbors_local_indices[t][i]);
+                try {
+                    for (da_int t = 1; t < n_threads; t++) {
+                        rnn_indices[i].append(neighbors_local_indices[t][i]);
+                    }
+                } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                    threading_error = 1;
                 }
             }
 
@@ -2264,8 +2269,13 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
 #pragma omp for schedule(guided)
                 // Merge the local distances into the global radius_neighbors_distances
                 for (da_int i = 0; i < n_queries; i++) {
-                    for (da_int t = 1; t < n_threads; t++) {
-                        rnn_distances[i].append(neighbors_local_distances[t][i]);
+                    try {
+                        for (da_int t = 1; t < n_threads; t++) {
+                            rnn_distances[i].append(neighbors_local_distances[t][i]);
+                        }
+                    } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                        threading_error = 1;
                     }
                 }
             }
diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..3b1106c 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -93,7 +93,12 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     da_int threading_error = 0;
 
     // Local storage for neighbors to help avoid thread contention
-    std::vector<neighbors_t> neighbors_local(n_threads);
+    std::vector<neighbors_t> neighbors_local;
+    try {
+        neighbors_local.resize(n_threads);
+    } catch (std::bad_alloc const &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
 
 #pragma omp parallel num_threads(n_threads) default(none)                                \
     shared(threading_error, neighbors, max_block_size, max_block_size_sq, n_samples, D,  \
@@ -191,8 +196,13 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
 #pragma omp for schedule(guided)
             // Merge the local neighbors into the global neighbors
             for (da_int i = 0; i < n_samples; i++) {
-                for (da_int t = 1; t < n_threads; t++) {
-                    neighbors[i].append(neighbors_local[t][i]);
+                try {
+                    for (da_int t = 1; t < n_threads; t++) {
+                        neighbors[i].append(neighbors_local[t][i]);
+                    }
+                } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                    threading_error = 1;
                 }
             }
         }
-- 
2.43.0


From 32c4bd7fdf71b23a79627c7db99b844ff6c3033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 33/39] fix: SVM: report failed allocations as memory errors

---
 source/core/svm/base_svm.cpp       | 26 ++++++++++++++++----
 source/core/svm/nu_svm.cpp         | 39 ++++++++++++++++++++----------
 source/core/svm/svm.cpp            | 14 ++++++++---
 source/core/utilities/da_cache.hpp |  6 ++++-
 4 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index d00f7c6..eee78fe 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -336,15 +336,26 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         }
         //////////
         // Compute kernel matrix using working set indexes
-        kernel_compute(ws_indexes, ws_size, X_temp, kernel_matrix, ptr_kernel_col, cache);
+        try {
+            kernel_compute(ws_indexes, ws_size, X_temp, kernel_matrix, ptr_kernel_col,
+                           cache);
+        } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         // Use kernel matrix to perform local SMO (as a result alpha, alpha_diff and first_diff are updated)
         local_smo(ws_size, ws_indexes, ptr_kernel_col, local_kernel_matrix_row_major,
                   kernel_diagonal, real_indices, alpha, local_alpha, gradient,
                   local_gradient, response, local_response, I_low_p, I_up_p, I_low_n,
                   I_up_n, first_diff, alpha_diff, std::nullopt);
         // Global gradient update based on alpha_diff
-        update_gradient(gradient.data(), gradient_threads, alpha_diff, n, ws_size,
-                        ptr_kernel_col);
+        try {
+            update_gradient(gradient.data(), gradient_threads, alpha_diff, n, ws_size,
+                            ptr_kernel_col);
+        } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         // Check global convergence
         // Stop when first_diff does not change for 5 iteration OR first_diff is less than tolerance
         // Additionally make sure that we perform at least 5 iterations
@@ -793,8 +804,13 @@ da_status base_svm<T>::recompute_gradient(std::vector<T> &alpha, std::vector<T>
             idx_block[j] = idx_all[offset + j];
             coeff_block[j] = coeff_all[offset + j];
         }
-        kernel_compute(idx_block, current_block_size, X_temp, kernel_temp, ptr_kernel_col,
-                       cache);
+        try {
+            kernel_compute(idx_block, current_block_size, X_temp, kernel_temp,
+                           ptr_kernel_col, cache);
+        } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         for (da_int j = 0; j < current_block_size; j++) {
             T *dst = kernel_packed.data() + (std::size_t)j * n;
             T *src = ptr_kernel_col[j];
diff --git a/source/core/svm/nu_svm.cpp b/source/core/svm/nu_svm.cpp
index de44e19..64d939f 100644
--- a/source/core/svm/nu_svm.cpp
+++ b/source/core/svm/nu_svm.cpp
@@ -389,7 +389,7 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
     da_int n_blocks = counter / block_size, residual = counter % block_size;
     std::vector<T> kernel_matrix, X_temp, gradient_threads, current_alpha_diff,
         gradient_local;
-    std::vector<da_int> current_idx;
+    std::vector<da_int> current_idx, index_aux;
     [[maybe_unused]] da_int n_threads = da_utils::get_n_threads_loop(n_blocks);
     n_threads = std::min(n_threads, da_int(64));
     // Create local arrays for each thread
@@ -399,12 +399,12 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
         gradient_local.resize(gradient_size * n_threads);
         kernel_matrix.resize(this->n * block_size);
         X_temp.resize(block_size * this->p);
+        index_aux = this->index_aux;
     } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
     da_int n = this->n, p = this->p, ldx_2 = this->ldx_2;
-    std::vector<da_int> index_aux = this->index_aux;
     T *X = this->X, *x_norm_aux = this->x_norm_aux.data();
     kernel_f_type<T> kernel_f = this->kernel_f;
     T coef0 = this->coef0, gamma = this->gamma;
@@ -450,7 +450,14 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
         da_int compute_X_norms = 1;
         da_int compute_y_norms = 2;
         // Make y-norms buffer thread-local to avoid data races
-        std::vector<T> y_norm_aux_local(current_block_size);
+        std::vector<T> y_norm_aux_local;
+        try {
+            y_norm_aux_local.resize(current_block_size);
+        } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+            threading_error = 1;
+            continue;
+        }
         kernel_f(column_major, n, current_block_size, p, X, x_norm_aux, compute_X_norms,
                  ldx_2, X_temp.data(), y_norm_aux_local.data(), compute_y_norms,
                  current_block_size, kernel_matrix.data(), n, gamma, degree, coef0, false,
@@ -459,12 +466,13 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
         // Update cache with idx_computed_count new columns of kernel matrix
         if (cache.active_) {
             // Build index array for cache keys
-            std::vector<da_int> idx_temp(current_block_size);
+            std::vector<da_int> idx_temp;
             try {
                 idx_temp.resize(current_block_size);
             } catch (std::bad_alloc const &) {
 #pragma omp atomic write
                 threading_error = 1;
+                continue;
             }
             for (da_int j = 0; j < current_block_size; j++) {
                 idx_temp[j] = current_idx[j] % n;
@@ -474,18 +482,23 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
         }
         // Use raw kernel data pointer directly - avoids storing pointers to local kernel_matrix
         da_int t_id = omp_get_thread_num();
-        this->update_gradient(&gradient_local[t_id * gradient_size], gradient_threads,
-                              current_alpha_diff, n, current_block_size,
-                              kernel_matrix.data(), n);
-        if (this->mod == da_svm_model::nusvr) {
-            // alpha_diff is just of size n (when technically it should be 2n) but since
-            // second half of alpha_diff is just first half negated, we can just multiply by -1
-            // and call update_gradient again with new values
-            std::for_each(current_alpha_diff.begin(), current_alpha_diff.end(),
-                          [](T &value) { value = -value; });
+        try {
             this->update_gradient(&gradient_local[t_id * gradient_size], gradient_threads,
                                   current_alpha_diff, n, current_block_size,
                                   kernel_matrix.data(), n);
+            if (this->mod == da_svm_model::nusvr) {
+                // alpha_diff is just of size n (when technically it should be 2n) but since
+                // second half of alpha_diff is just first half negated, we can just multiply by -1
+                // and call update_gradient again with new values
+                std::for_each(current_alpha_diff.begin(), current_alpha_diff.end(),
+                              [](T &value) { value = -value; });
+                this->update_gradient(&gradient_local[t_id * gradient_size],
+                                      gradient_threads, current_alpha_diff, n,
+                                      current_block_size, kernel_matrix.data(), n);
+            }
+        } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+            threading_error = 1;
         }
     }
     if (threading_error == 1)
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index a8356bb..a0c9ffd 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -363,7 +363,17 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
             for (da_int j = i + 1; j < n_class; j++) {
                 da_int size = 0, pos_size = 0;
                 // Vector that will store all indexes whose label is i or j (reserve bigger size here and then copy only necessary)
-                std::vector<da_int> all_idx(n_samples);
+                std::vector<da_int> all_idx, pos_idx, neg_idx;
+                std::vector<bool> is_positive;
+                try {
+                    all_idx.resize(n_samples);
+                    is_positive.resize(n_samples, false);
+                    pos_idx.resize(n_samples);
+                    neg_idx.resize(n_samples);
+                } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+                    return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                    "Memory allocation error");
+                }
                 classifiers[k]->ismulticlass = true;
                 classifiers[k]->pos_class = i;
                 classifiers[k]->neg_class = j;
@@ -373,8 +383,6 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
                         all_idx[size++] = row;
 
                 // Among the picked indexes assign ones where class==i is positive
-                std::vector<bool> is_positive(size, false);
-                std::vector<da_int> pos_idx(size), neg_idx(size);
                 for (da_int idx = 0; idx < size; idx++) {
                     if (y[all_idx[idx]] == i) {
                         is_positive[idx] = true;
diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index bee38b6..7830bc0 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -108,7 +108,11 @@ template <typename T> class LRUCache {
         // PART 1 - Get the pointers to free data from cache data_ buffer
         std::vector<T *> free_pointers;
         da_int target = std::min(n_requested, capacity_);
-        free_pointers.reserve(target);
+        try {
+            free_pointers.reserve(target);
+        } catch (std::bad_alloc &) {
+            return da_status_memory_error; // LCOV_EXCL_LINE
+        }
         omp_set_lock(&cache_lock_);
         // Use free slots first
         while ((da_int)free_pointers.size() < target && n_cols_free > 0) {
-- 
2.43.0


From 542c83e430a9adc18e96d773b097e6e393be63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 34/39] fix: t-SNE: report failed allocations as memory errors

---
 source/core/dimension_reduction/tsne/tsne.cpp | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index ff11a9e..8893334 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -374,23 +374,26 @@ da_status symmetrize_to_csr(da_int n, da_int k, const da_int *neighbor_indices,
     try {
         row_contributions.resize(n);
         P_row_ptr.resize(n + 1);
+        for (da_int i = 0; i < n; ++i) {
+            const da_int base = i * k;
+            for (da_int t = 0; t < k; ++t) {
+                const da_int j = neighbor_indices[base + t];
+                const T contrib = neighbor_probs[base + t] / norm;
+                row_contributions[i].emplace_back(j, contrib);
+                row_contributions[j].emplace_back(i, contrib);
+            }
+        }
+        // At most 2 * n * k entries are stored in the symmetric matrix
+        P_col_idx.clear();
+        P_values.clear();
+        P_col_idx.reserve((size_t)2 * n * k);
+        P_values.reserve((size_t)2 * n * k);
     } catch (std::bad_alloc &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
-    for (da_int i = 0; i < n; ++i) {
-        const da_int base = i * k;
-        for (da_int t = 0; t < k; ++t) {
-            const da_int j = neighbor_indices[base + t];
-            const T contrib = neighbor_probs[base + t] / norm;
-            row_contributions[i].emplace_back(j, contrib);
-            row_contributions[j].emplace_back(i, contrib);
-        }
-    }
 
     // Sort each row by column, merge duplicates, and build CSR directly.
     P_row_ptr[0] = 0;
-    P_col_idx.clear();
-    P_values.clear();
     T total = (T)0;
     for (da_int i = 0; i < n; ++i) {
         std::vector<std::pair<da_int, T>> &row = row_contributions[i];
-- 
2.43.0


From 988e879734de00800db6ed01eff11abd4bb90ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:14 +0000
Subject: [PATCH 35/39] fix: kmeans: a failed allocation while choosing centres
 ends in a status

---
 source/core/clustering/kmeans/kmeans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 697a4c2..dd4f68f 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -723,7 +723,12 @@ template <typename T> da_status kmeans<T>::compute() {
     for (da_int run = 0; run < n_init; run++) {
 
         // Initialize the centres if needed
-        kmeans<T>::initialize_centres();
+        try {
+            kmeans<T>::initialize_centres();
+        } catch (std::bad_alloc &) {
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation failed.");
+        }
 
         // Iteratively refine the clusters using lower precision if needed
         if (this->use_mixed_precision) {
-- 
2.43.0


From c934238c9fd5b65ed6bfb1e6e2ba4f5f9498565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:14 +0000
Subject: [PATCH 36/39] fix: svm: report failed allocations of the warm start
 and of the kernel cache

---
 source/core/svm/svm.cpp            |  8 +++++++-
 source/core/utilities/da_cache.hpp | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index a0c9ffd..203624e 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -631,7 +631,13 @@ template <typename T> da_status svm<T>::compute() {
                 lp_n_iteration[i] = lp_classifier->iter;
 
                 // Use raw_alpha which is saved before set_bias/set_sv modify it.
-                std::vector<T> promoted_alpha(lp_classifier->raw_alpha.size());
+                std::vector<T> promoted_alpha;
+                try {
+                    promoted_alpha.resize(lp_classifier->raw_alpha.size());
+                } catch (std::bad_alloc &) {
+                    return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                    "Memory allocation failed.");
+                }
                 da_utils::copy_array_convert_precision(
                     column_major, (da_int)promoted_alpha.size(), 1,
                     lp_classifier->raw_alpha.data(),
diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index 7830bc0..8e136ed 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -152,10 +152,15 @@ template <typename T> class LRUCache {
         }
         // PART 3 - Update the doubly linked list to keep track of the order of usage (LRU policy)
         omp_set_lock(&cache_lock_);
-        for (da_int i = 0; i < actual; i++) {
-            // Add new item to the front
-            items_.emplace_front(key[i], free_pointers[i]);
-            cache_[key[i]] = items_.begin();
+        try {
+            for (da_int i = 0; i < actual; i++) {
+                // Add new item to the front
+                items_.emplace_front(key[i], free_pointers[i]);
+                cache_[key[i]] = items_.begin();
+            }
+        } catch (std::bad_alloc &) {
+            omp_unset_lock(&cache_lock_);  // LCOV_EXCL_LINE
+            return da_status_memory_error; // LCOV_EXCL_LINE
         }
         omp_unset_lock(&cache_lock_);
         return da_status_success;
-- 
2.43.0


From 0f7e775b4a3b7d53374fe9c37cd1ead1d8fdd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 37/39] fix: decision tree: report a failed allocation of the
 node queue

---
 .../tree/decision_tree_training_fit.hpp       | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 35a7261..215d301 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -216,18 +216,30 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
             return status; // LCOV_EXCL_LINE
         if (best_split.right_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
-            tree[n_nodes - 1].depth < max_depth)
-            nodes_to_treat.push_back(n_nodes - 1);
-        else
+            tree[n_nodes - 1].depth < max_depth) {
+            try {
+                nodes_to_treat.push_back(n_nodes - 1);
+            } catch (std::bad_alloc &) {
+                return da_error_bypass(this->err,
+                                       da_status_memory_error, // LCOV_EXCL_LINE
+                                       "Memory allocation error");
+            }
+        } else
             n_leaves += 1;
         status = add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
         if (status != da_status_success)
             return status; // LCOV_EXCL_LINE
         if (best_split.left_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
-            tree[n_nodes - 1].depth < max_depth)
-            nodes_to_treat.push_back(n_nodes - 1);
-        else
+            tree[n_nodes - 1].depth < max_depth) {
+            try {
+                nodes_to_treat.push_back(n_nodes - 1);
+            } catch (std::bad_alloc &) {
+                return da_error_bypass(this->err,
+                                       da_status_memory_error, // LCOV_EXCL_LINE
+                                       "Memory allocation error");
+            }
+        } else
             n_leaves += 1;
     } else
         n_leaves += 1;
@@ -554,8 +566,14 @@ template <typename T> da_status decision_tree<T>::fit() {
     }
 
     // Insert the root node in the queue if the maximum depth is big enough
-    if (max_depth > 0)
-        nodes_to_treat.push_back(0);
+    if (max_depth > 0) {
+        try {
+            nodes_to_treat.push_back(0);
+        } catch (std::bad_alloc &) {
+            return da_error_bypass(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                   "Memory allocation error");
+        }
+    }
 
     if (n_threads_split > 1) {
         status = fit_parallel();
-- 
2.43.0


From 53511da963b0ad2518fcad91610bf8578e4309b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 38/39] fix: data store: report failed allocations of
 selections, labels, intervals and options

---
 source/core/data_management/data_store.hpp    | 38 +++++++++++----
 .../data_management/data_store_public.cpp     |  9 ++--
 source/core/data_management/interval_map.hpp  |  6 ++-
 source/core/data_management/interval_set.cpp  | 48 +++++++++++--------
 4 files changed, 68 insertions(+), 33 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index d8a732e..05116b9 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -812,8 +812,13 @@ class data_store {
         auto it = selections.find(key);
         if (it == selections.end()) {
             bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
+            try {
+                std::tie(it, inserted) =
+                    selections.insert(std::make_pair(key, coord_slice()));
+            } catch (std::bad_alloc &) {
+                return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error");
+            }
             if (!inserted) {
                 // LCOV_EXCL_START
                 exit_status = da_status_internal_error;
@@ -854,8 +859,13 @@ class data_store {
         auto it = selections.find(key);
         if (it == selections.end()) {
             bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
+            try {
+                std::tie(it, inserted) =
+                    selections.insert(std::make_pair(key, coord_slice()));
+            } catch (std::bad_alloc &) {
+                return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error");
+            }
             if (!inserted) {
                 return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                                 "Unexpected error in the interval insertion");
@@ -884,8 +894,13 @@ class data_store {
         auto it = selections.find(key);
         if (it == selections.end()) {
             bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
+            try {
+                std::tie(it, inserted) =
+                    selections.insert(std::make_pair(key, coord_slice()));
+            } catch (std::bad_alloc &) {
+                return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error");
+            }
             if (!inserted) {
                 return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                                 "Unexpected error. Possible memory corruption.");
@@ -1356,9 +1371,14 @@ class data_store {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "maps and store size are out of sync");
 
-        auto it = name_to_index.insert(std::make_pair(label, idx)).first;
-        std::string const *pstr = &it->first;
-        index_to_name[idx] = pstr;
+        try {
+            auto it = name_to_index.insert(std::make_pair(label, idx)).first;
+            std::string const *pstr = &it->first;
+            index_to_name[idx] = pstr;
+        } catch (std::bad_alloc &) {
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         return da_status_success;
     }
 
diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 0020ac1..3b7c1bc 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -49,10 +49,13 @@ da_status da_datastore_init(da_datastore *store) {
     } catch (std::bad_alloc &) {
         return da_error((*store)->err, da_status_memory_error, "Memory allocation error");
     }
-    // LCOV_EXCL_STOP
 
-    da_status status = da_csv::register_csv_options(*(*store)->opts);
-    return status; // Error message already loaded
+    try {
+        return da_csv::register_csv_options(*(*store)->opts); // Error message loaded
+    } catch (std::bad_alloc &) {
+        return da_error((*store)->err, da_status_memory_error, "Memory allocation error");
+    }
+    // LCOV_EXCL_STOP
 }
 
 da_status da_datastore_print_error_message(da_datastore store) {
diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..034482c 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -117,7 +117,11 @@ template <class T> class interval_map {
             // lb or ub are already in the intervals => trying to create an overlap
             return da_status_invalid_input;
 
-        imap.insert(std::make_pair(bounds, val));
+        try {
+            imap.insert(std::make_pair(bounds, val));
+        } catch (std::bad_alloc &) {
+            return da_status_memory_error; // LCOV_EXCL_LINE
+        }
         return da_status_success;
     }
 
diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..01ab5fc 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -72,7 +72,11 @@ da_status interval_set::insert(interval bounds) {
         iset.erase(it_upper);
     }
 
-    iset.insert({lb, ub});
+    try {
+        iset.insert({lb, ub});
+    } catch (std::bad_alloc &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
     return da_status_success;
 }
 
@@ -143,27 +147,31 @@ da_status interval_set::erase(interval bounds) {
 
     // Remove bounds from the lower and upper interval
     da_int new_lb, new_ub;
-    if (it_lower != iset.end()) {
-        new_lb = it_lower->lower;
-        new_ub = it_lower->upper;
-        if (it_lower->upper >= lb) {
-            iset.erase(it_lower);
-            if (lb >= new_lb + 1)
-                iset.insert({new_lb, lb - 1});
-            if (ub <= new_ub - 1)
-                iset.insert({ub + 1, new_ub});
+    try {
+        if (it_lower != iset.end()) {
+            new_lb = it_lower->lower;
+            new_ub = it_lower->upper;
+            if (it_lower->upper >= lb) {
+                iset.erase(it_lower);
+                if (lb >= new_lb + 1)
+                    iset.insert({new_lb, lb - 1});
+                if (ub <= new_ub - 1)
+                    iset.insert({ub + 1, new_ub});
+            }
         }
-    }
-    if (!is_included && it_upper != iset.end()) {
-        new_lb = it_upper->lower;
-        new_ub = it_upper->upper;
-        if (it_upper->lower <= ub) {
-            iset.erase(it_upper);
-            if (lb >= new_lb + 1)
-                iset.insert({new_lb, lb - 1});
-            if (ub <= new_ub - 1)
-                iset.insert({ub + 1, new_ub});
+        if (!is_included && it_upper != iset.end()) {
+            new_lb = it_upper->lower;
+            new_ub = it_upper->upper;
+            if (it_upper->lower <= ub) {
+                iset.erase(it_upper);
+                if (lb >= new_lb + 1)
+                    iset.insert({new_lb, lb - 1});
+                if (ub <= new_ub - 1)
+                    iset.insert({ub + 1, new_ub});
+            }
         }
+    } catch (std::bad_alloc &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
     }
     return da_status_success;
 }
-- 
2.43.0


From a54af19147474649a24f6ab5991b621904a5c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:18 +0000
Subject: [PATCH 39/39] fix: DBSCAN: parallel clustering loses merges recorded
 by racing threads

Two threads could write the same entry of duplicate_labels, and a later write
replaced an earlier one, so that parts of one cluster kept different labels and
the result depended on the number of threads. Link the core points with a
union-find and give border points the lowest cluster they touch, as the serial
method does.
---
 source/core/clustering/dbscan/dbscan.cpp | 93 ++++++++++++------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index f284b51..6756cdf 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -333,72 +333,75 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
                status, duplicate_labels, is_core_sample, next_id, remap)
     {
 
-// Parallel loop to compute DBSCAN clusters
-#pragma omp for schedule(guided, 64)
-        for (da_int i = 0; i < n_samples; i++) {
-            if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
-
-                // Loop through each point in the epsilon neighborhood of point i
+// Combine the clusters of core points that are neighbors of each other. The root of
+// a cluster is the core point with the lowest index; duplicate_labels links every
+// other core point to one with a lower index in the same cluster.
+#pragma omp single
+        {
+            for (da_int i = 0; i < n_samples; i++) {
+                if (!is_core_sample[i])
+                    continue;
+                da_int root_i = i;
+                while (duplicate_labels[root_i] != NOISE)
+                    root_i = duplicate_labels[root_i];
                 auto &this_neighbor = neighbors[i];
                 for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
-                    da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
-#pragma omp atomic write
-                        labels[sample_point_j] = i;
-                    }
+                    if (!is_core_sample[this_neighbor[j]])
+                        continue;
+                    da_int root_j = this_neighbor[j];
+                    while (duplicate_labels[root_j] != NOISE)
+                        root_j = duplicate_labels[root_j];
+                    // Shorten the chain for later visits of the same point
+                    da_int root = std::min(root_i, root_j);
+                    if (this_neighbor[j] != root)
+                        duplicate_labels[this_neighbor[j]] = root;
+                    if (root_j != root)
+                        duplicate_labels[root_j] = root;
+                    if (root_i != root)
+                        duplicate_labels[root_i] = root;
+                    root_i = root;
                 }
+                if (i != root_i)
+                    duplicate_labels[i] = root_i;
             }
         }
 
+        // Label the core points with the root of their cluster, and the border points with
+        // the lowest root among the core points in their neighborhood
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
-                continue;
-            }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            da_int lowest = NOISE;
+            if (is_core_sample[i]) {
+                lowest = i;
+                while (duplicate_labels[lowest] != NOISE)
+                    lowest = duplicate_labels[lowest];
+            } else {
+                auto &this_neighbor = neighbors[i];
+                for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                    da_int root = this_neighbor[j];
+                    if (!is_core_sample[root])
+                        continue;
+                    while (duplicate_labels[root] != NOISE)
+                        root = duplicate_labels[root];
+                    if (lowest == NOISE || root < lowest)
+                        lowest = root;
+                }
             }
-
-            labels[i] = current_label;
+            labels[i] = lowest;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
+                if (labels[i] == i) {
+                    remap[i] = next_id;
                     next_id++;
                 }
             }
             n_clusters = next_id;
         }
 
-#pragma omp barrier
 #pragma omp for schedule(static)
         for (da_int i = 0; i < n_samples; ++i) {
             da_int lab = labels[i];
-- 
2.43.0

