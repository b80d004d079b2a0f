From 548847e494e62524b809b3cdfba9431fb809e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 01/51] fix: hinge loss gradient accumulates into uninitialised
 memory

---
 src/core/loss/hinge_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..41b685e 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -62,7 +62,7 @@ public:
         const VecType& W) const{
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
-        VecType grad(num_features);
+        VecType grad = VecType::Zero(num_features);
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 6f6571eeff8493f3d173d7a6f2ac1a827659b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 02/51] fix: softmax loss penalises cross products of class
 weights instead of the squared norm

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..d6ec9f8 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -56,7 +56,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = static_cast<double>(W.array().square().sum()) / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From b27a80bbf301ea7384d62fccb3e52fe9a42cdd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 03/51] fix: entropy and gini declare two iterator types in one
 auto declaration

---
 src/core/math/extmath.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..6c3dbfd 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -129,8 +129,9 @@ double entropy(const VecType& x,
         w_count_map[x(i)].push_back(w(i));
     }
 
-    for (auto x_count = x_count_map.begin(), w_count = w_count_map.begin();
-        x_count != x_count_map.end(), w_count != w_count_map.end(); 
+    auto x_count = x_count_map.begin();
+    auto w_count = w_count_map.begin();
+    for (; x_count != x_count_map.end(), w_count != w_count_map.end(); 
         ++x_count, ++w_count) {
         
         double sum = 0.0;
@@ -182,8 +183,9 @@ double gini(const VecType& x,
         w_count_map[x(i)].push_back(w(i));
     }
 
-    for (auto x_count = x_count_map.begin(), w_count = w_count_map.begin();
-        x_count != x_count_map.end(), w_count != w_count_map.end(); 
+    auto x_count = x_count_map.begin();
+    auto w_count = w_count_map.begin();
+    for (; x_count != x_count_map.end(), w_count != w_count_map.end(); 
         ++x_count, ++w_count) {
         
         double sum = 0.0;
-- 
2.43.0


From 1326386f98a5304e3af84608139a0f26047b477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 04/51] fix: matrix argsort starts from indices outside the
 range for one or two elements

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From 8a6e1fa55bfa88b685f5a166e96de80fa819fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 05/51] fix: vector argsort writes past the end of an empty
 result

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..fd35575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -819,7 +819,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From 3f2551775e84babccb1581e806a4bb97ae1dcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 06/51] fix: sortrows comparator returns nothing for equal rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index fd35575..9d7f575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From cdb4b5aab766af1ccce1461efa643ce9e8ab582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 07/51] fix: is_equal reads past the end of a shorter second
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9d7f575..81983c0 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From aef104b254d807ef4b88d8a30a51f3c3e414e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 08/51] fix: slice checks columns against the row count and
 slices one-dimensional input past its end

---
 src/core/common.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 81983c0..db285a4 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -844,14 +844,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[0].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
@@ -882,7 +882,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -892,7 +892,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From c94252886bb252b47e46132d99f1f1f4a512cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 09/51] fix: loadtxt reads past the end of rows shorter than
 the first one

---
 src/core/data/load.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..d40b810 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -35,7 +35,15 @@ void loadtxt(const std::string &fp,
     }
 
     // conert std 2D vector into eigen matrix
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
+    for (auto& row : stdmat) {
+        if (row.size() != n_cols) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
+    }
     MatType mat(n_rows, n_cols);
     for (std::size_t i = 0; i < n_rows; i++) {
         mat.row(i) = VecType::Map(&stdmat[i][0], n_cols);
@@ -91,7 +99,15 @@ void loadtxt(const std::string &fp,
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
+    for (auto& row : stdmat) {
+        if (row.size() != ncols) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
+    }
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
-- 
2.43.0


From 5592dae66ac1e6424c5985a8ee8dfe8ed63f55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 10/51] fix: exponential decay increases the learning rate
 instead of decreasing it

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From e8a7ce23c1df1dfbfb6ef7040456a2b1c1a93309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 11/51] fix: step decay is one epoch ahead of its documented
 schedule

---
 src/core/optimizer/sgd/decay_policies/step_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/step_decay.hpp b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
index cfddbcc..a4198ad 100644
--- a/src/core/optimizer/sgd/decay_policies/step_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
@@ -33,7 +33,7 @@ public:
      * lr = base_lr * gamma ^ floor(epoch / step_size) 
     */
     double compute(std::size_t epoch) {
-        std::size_t warmup_iters = (1 + epoch) / step_size_;
+        std::size_t warmup_iters = epoch / step_size_;
         double lr = base_lr_ * std::pow(gamma_, warmup_iters);
         return lr;
     }
-- 
2.43.0


From e17b633c01bd833e9a5abafbc0dc34f7a18eae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 12/51] fix: momentum update forgets its velocity at every step

---
 .../optimizer/sgd/update_policies/momentum_update.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..31c9435 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    // the velocity accumulated over the previous updates
+    mutable MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -25,10 +27,11 @@ public:
         const MatType& grad, 
         const double lr) const{
         std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(num_features, num_classes);
+        }
+        V_ = V_ * mu_ + grad * lr;
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
-- 
2.43.0


From dbbe6c72533a2e9d86cc5bc68f7dff814ef8c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 13/51] fix: line searches accept a NaN objective value or
 direction as success

---
 src/core/optimizer/lbfgs/search_policies/backtracking.hpp | 4 ++--
 src/core/optimizer/lbfgs/search_policies/bracketing.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
index 1ea2c97..b5a4315 100644
--- a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
@@ -51,7 +51,7 @@ public:
         const double fx_init = fx;
         const double dg_init = d.dot(g);
 
-        if (dg_init > 0.0) {
+        if (!(dg_init <= 0.0)) {
             std::cout << "Moving direction increases the objective function value" << std::endl;
             return -1;
         }
@@ -69,7 +69,7 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            if (!(fx <= fx_init + step * dg_test)) {
                 width = dec_factor;
             }
             else {
diff --git a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
index 879d621..3f24ed0 100644
--- a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
@@ -51,7 +51,7 @@ public:
         const double fx_init = fx;
         const double dg_init = d.dot(g);
 
-        if (dg_init > 0.0) {
+        if (!(dg_init <= 0.0)) {
             std::cout << "Moving direction increases the objective function value" << std::endl;
             return -1;
         }
@@ -70,7 +70,7 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            if (!(fx <= fx_init + step * dg_test)) {
                 step_hi = step;
             }
             else {
-- 
2.43.0


From 3998959bb57cbc6c84c061b78158f2de5e88d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 14/51] fix: LBFGS returns no coefficients when the start is
 already stationary

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From d6dbc828dfbaea747fe5e1a916025b0be925fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 15/51] fix: LBFGS convergence test reads objective values that
 were never stored

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..8fc2e35 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,11 +162,13 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
-                rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
-                if (rate < delta_) {
-                    std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
-                    break;
+            if (past_ > 0) {
+                if (past_ <= k) {
+                    rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
+                    if (rate < delta_) {
+                        std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
+                        break;
+                    }
                 }
                 pfx(k % past_) = fx;
             }
-- 
2.43.0


From 2729cc9fe9190bfb065044aa38246456f06f9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 16/51] fix: lu drops the column permutation, P * L * U does
 not reproduce the input

---
 src/core/math/linalg.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..3bd8026 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,19 +25,25 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
+    // row pivoting only: X = P * L * U without a column permutation. 
+    // PartialPivLU needs a square matrix, so pad with zeros
+    std::size_t max_size = std::max(nrows, ncols);
+    MatType square = MatType::Zero(max_size, max_size);
+    square.topLeftCorner(nrows, ncols) = x;
+    Eigen::PartialPivLU<MatType> lu_decomposition(square);
 
     MatType lu_m = lu_decomposition.matrixLU();
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
-    L = L.leftCols(min_size).eval();
+    L = L.topLeftCorner(nrows, min_size).eval();
 
-    // U is (min(M, N), K)
+    // U is (min(M, N), N)
     MatType U = lu_m.template triangularView<Eigen::Upper>();
-    U = U.topRows(min_size).eval();
+    U = U.topLeftCorner(min_size, ncols).eval();
 
+    // P * X = L * U holds for the permutation of the decomposition
     MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    P = P.topLeftCorner(nrows, nrows).transpose().eval();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 1ea7b0d284b72e4fabc21fa71448647ec3ca4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 17/51] fix: eig does not compile for real matrices

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 3bd8026..f046a71 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -362,8 +362,8 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
     }
 
     MatType vals, vecs;
-    vals = eigs.eigenvalues().template cast<DataType>();
-    vecs = eigs.eigenvectors();
+    vals = eigs.eigenvalues().real().template cast<DataType>();
+    vecs = eigs.eigenvectors().real().template cast<DataType>();
 
     return std::make_tuple(vals, vecs);
 }
-- 
2.43.0


From b092acf50a687c811c5ee5bc57dd029dfe272fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 18/51] fix: logistic regression predicts the opposite class
 and swaps the probability columns

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From 35fc2d687565fe5e61e225482e28b488cffcd1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 19/51] fix: perceptron ignores the intercept column when
 fitting

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 4e6b309808536a290b8a66d85ccddf3429c2c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 20/51] fix: softmax regression neither fits nor uses its
 intercept

---
 src/methods/linear_model/softmax_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..f1a2096 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
@@ -87,7 +87,7 @@ protected:
             auto xw = X * this->w_.topRows(num_features);
             // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
             auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = xw + b.colwise().replicate(num_samples);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From fdd670cd6de54ba69179d900799b59df2c396ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 21/51] fix: lasso regression ignores the intercept column when
 fitting

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..bd0e891 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From aadb6e52d2bde54b9a6953f998a84bbc3fc1e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 22/51] fix: lasso regression shares the include guard of ridge
 regression

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index bd0e891..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From d76854f12fb787d2fc243a2166141208da7ae218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 23/51] fix: PCA centers new data with the mean of the training
 data

---
 src/methods/decomposition/pca.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..8067f9b 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,11 +28,15 @@ private:
 
     std::string solver_;
     double noise_var_;
+    MatType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        // the mean of the training data, used to center any new data
+        mean_ = math::mean<MatType>(X, 0);
+
         MatType centered_X;
         centered_X = math::center<MatType>(X);
         
@@ -73,7 +77,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.row(0);
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +151,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.row(0);
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From f2e7a744591f7d6dbc4a91a3296e6989566e961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 24/51] fix: PCA::score and the getters use the covariance and
 precision of the last fit

---
 src/methods/decomposition/pca.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 8067f9b..1d3596c 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -71,6 +71,9 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From a1775b7f675c6713f5c3dfa37f5c99bdb3ed4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 25/51] fix: randomized_svd flips signs on the thin right
 singular vectors

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index f046a71..7b3c870 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -199,7 +199,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 240a2be5ab99cb04892a01bcebdd676aee28e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 26/51] fix: naive Bayes predict returns the class label
 instead of the class index

---
 src/methods/naive_bayes/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..e69c134 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -103,7 +103,10 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred(num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            y_pred(i) = classes_(argmax_jll(i));
+        }
         return y_pred;
     }
 
-- 
2.43.0


From 1700f603a5e3e52e06395f71b0e49a618047bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 27/51] fix: Gaussian naive Bayes adds the log prior of the
 class only

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..4fd3d1d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From 757fd71a2a99acf6b23b1d78ccb27152615efbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 28/51] fix: naive Bayes column selection stays inside the
 matrix

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 4fd3d1d..2039dc7 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From 00ddcb32879acb316d2e71972df97641d13f909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 29/51] fix: multinomial naive Bayes stores the feature counts
 of a class as a column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From 5b388f326968903fa8926b0cfd885e6f5000631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 30/51] fix: Gaussian naive Bayes getters return the per-class
 matrices

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2039dc7..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From 2916c194a9e41f38d7d498062888a0552adde138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 31/51] fix: naive Bayes forgets the labels of an earlier fit

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index e69c134..696bf00 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From bb76de450843358aac325c631f92db85b6753c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 32/51] fix: tied Gaussian mixture uses the shared
 log-determinant for every component

---
 src/methods/mixture/gaussian_mixture.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..aad67d2 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -267,6 +267,10 @@ private:
         std::size_t num_components = means.rows();
 
         VecType log_det = compute_log_det_cholesky(precisions_cholesky_);
+        if (covariance_type_ == "tied") {
+            // all components share the one precision matrix
+            log_det = VecType::Constant(num_components, log_det(0)).eval();
+        }
 
         MatType log_prob(num_samples, num_components);
 
-- 
2.43.0


From 6f26b71d433dcfc92ffaf9bc977f4f1fa78e8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 33/51] fix: Gaussian mixture forgets the precision matrices of
 an earlier fit

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index aad67d2..3515eed 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -508,6 +508,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From d7c4cbbd6fbe44c9d434b538d8c1022f1e7bc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 34/51] fix: k-means stores the cluster mean as a row

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From 70c0a3d599610ad2c0c1d4207c3489adb6555273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:57 +0000
Subject: [PATCH 35/51] fix: KD-tree splits the root rectangles along the
 partition axis

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From b7951413a57508cef80767436269e8740856528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:57 +0000
Subject: [PATCH 36/51] fix: KD-tree searches boxes that touch the radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From 93ff3418a89dd28f46231f2d1ea0bfa3eaff3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:21 +0000
Subject: [PATCH 37/51] fix: hash tree extraction starts from empty result
 lists

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From 16c0d6cf7fad86bee44524ad58b48b550b885d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 38/51] fix: apriori stops at the first level without frequent
 itemsets

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..8b76e8a 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -162,6 +162,9 @@ protected:
             }
 
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
+            if (itemsets_list.empty()) {
+                break;
+            }
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
             ++length;
-- 
2.43.0


From c1ae27c986a63585ca73fafe4aa0570b9c316e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 39/51] fix: apriori treats transactions as sets of items

---
 src/methods/rule_model/apriori.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 8b76e8a..ad971c9 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -61,7 +61,14 @@ private:
 
 
 protected:
-    void fit_data(const std::vector<std::vector<DataType>>& X) {    
+    void fit_data(const std::vector<std::vector<DataType>>& transactions) {    
+        // a transaction is a set of items: order and repetitions don't matter
+        std::vector<std::vector<DataType>> X(transactions);
+        for (auto& x : X) {
+            std::sort(x.begin(), x.end());
+            x.erase(std::unique(x.begin(), x.end()), x.end());
+        }
+
         std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
     
         std::vector<DataType> records_order;
@@ -74,6 +81,8 @@ protected:
             }
         }
 
+        std::sort(records_order.begin(), records_order.end());
+
         preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
-- 
2.43.0


From 7de4426c5dc09e235583bb0b28085ba3797cf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 40/51] fix: decision tree thresholds lie between distinct
 feature values

---
 src/methods/tree/base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..5272f6a 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -28,6 +28,9 @@ protected:
         
         std::vector<DataType> stdvec_x;
         for (std::size_t i = 1; i < num_samples; ++i) {
+            if (sorted_x(i - 1) == sorted_x(i)) {
+                continue;
+            }
             DataType mean = (sorted_x(i - 1) + sorted_x(i)) / 2;
             stdvec_x.push_back(mean);
         }
-- 
2.43.0


From 5354c1e96b0f4e3b64d36a36093f73aab7e33d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 41/51] fix: regression tree weighs the child variances by
 their share of the samples

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..ed3015f 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 8a0aebaf89be4cd9277257770a8b43dd5e760a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 42/51] fix: regression tree absolute error criterion

---
 src/methods/tree/decision_tree_regressor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index ed3015f..033d443 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,19 +98,19 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
             double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value());
 
-            impurity = mae;
+            impurity = mae / static_cast<double>(num_samples);
         }
         else {
             throw std::invalid_argument("The criterion must be 'absolute_error' or 'squared_error'");
-- 
2.43.0


From e3c95c940a4986a0d63b4691b47941af1a8b68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 43/51] fix: classification tree gini criterion is the decrease
 from the parent

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..81d2310 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -93,7 +93,7 @@ protected:
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = math::gini<VecType>(y) - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From f7669f7040931d8f6a9e227333da7d0e9729c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 44/51] fix: decision trees stay within the maximum depth

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 src/methods/tree/decision_tree_regressor.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 81d2310..fc8f5b1 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -161,7 +161,7 @@ protected:
             return ;
         }
 
-        if (cur_depth > max_depth_) {
+        if (cur_depth >= max_depth_) {
             return ;
         }
 
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 033d443..28bf9f2 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -165,7 +165,7 @@ protected:
             return ;
         }
 
-        if (cur_depth > max_depth_) {
+        if (cur_depth >= max_depth_) {
             return ;
         }
 
-- 
2.43.0


From 9344965672527fc007beac06f69d0e551781621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 45/51] fix: decision trees do not split into a node without
 one of its children

---
 src/methods/tree/decision_tree_classifier.hpp | 5 +++++
 src/methods/tree/decision_tree_regressor.hpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index fc8f5b1..3add7b8 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -178,6 +178,11 @@ protected:
             return ;
         }
 
+        std::size_t num_left = (X.col(best_feature_index).array() <= best_feature_value).count();
+        if (num_left < min_samples_leaf_ || num_samples - num_left < min_samples_leaf_) {
+            return ;
+        }
+
         cur_node->impurity = best_impurity;
         cur_node->feature_index = best_feature_index;
         cur_node->feature_value = best_feature_value;
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 28bf9f2..e46336c 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -182,6 +182,11 @@ protected:
             return ;
         }
 
+        std::size_t num_left = (X.col(best_feature_index).array() <= best_feature_value).count();
+        if (num_left < min_samples_leaf_ || num_samples - num_left < min_samples_leaf_) {
+            return ;
+        }
+
         cur_node->impurity = best_impurity;
         cur_node->feature_index = best_feature_index;
         cur_node->feature_value = best_feature_value;
-- 
2.43.0


From 936f76b111b64e3904ac4b3d945b8ef09af6425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 46/51] fix: classification tree forgets the labels of an
 earlier fit

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 3add7b8..bbee60d 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -268,6 +268,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From 9a229fca9f1ea1802632528989c0fa479503e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 47/51] fix: classification tree predicts the label, not its
 index

---
 src/methods/tree/decision_tree_classifier.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index bbee60d..3ffb13d 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -305,10 +305,14 @@ public:
         MatType log_prob = predict_prob(X);
         auto y_pred_index = common::argmax<MatType, VecType, IdxVecType>(log_prob, 1);
         VecType y_pred_value(num_samples);
-        
+        std::vector<DataType> labels;
+        for (auto& label : label_count_) {
+            labels.push_back(label.first);
+        }
+
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            y_pred_value(i) = labels[index];
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From 7237a15a1ef577212ce5b55478c2c13ca8efd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 48/51] fix: apriori forgets the itemsets and rules of an
 earlier fit

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index ad971c9..ebbbad4 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -228,6 +228,8 @@ public:
     };
 
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
+        all_frequency_.clear();
+        association_rules_.clear();
         fit_data(X);
         transform_data();        
     }
-- 
2.43.0


From 4dafde4048a18c04446960c581da5ad3e8f904ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:10 +0000
Subject: [PATCH 49/51] fix: k-nearest-neighbour classifier compiles

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..8707e32 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
-- 
2.43.0


From d4bfbb116dcfa9a9f59bc777eb40cfbbce240187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:10 +0000
Subject: [PATCH 50/51] fix: k-nearest-neighbour brute force returns the most
 frequent label

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 8707e32..1a3fbf7 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From ca40aa356c23bd95ea9b268378801ca5a23a4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:10 +0000
Subject: [PATCH 51/51] fix: k-nearest-neighbour kd-tree prediction votes per
 query

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 1a3fbf7..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0

