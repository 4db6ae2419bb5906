From c45f495937ddb6018b5cb20ef420b1396b035b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 01/31] fix: DuoMatrix::has_alloc returns its answer (was
 declared void, so any use failed to compile)

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..13006bc 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -238,7 +238,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) const {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From 4d235b2b0548d05b872364ef849287e4c35e38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 02/31] fix: TenMatrix::DumpTen reports a failed flush instead
 of returning true (and releasing the only copy)

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..59f066b 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -104,6 +104,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Buffered data could not be flushed to the file
+    }
     return true; // Successfully dumped the tensor
   }
 
@@ -125,6 +128,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Buffered data could not be flushed to the file
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
-- 
2.43.0


From 95b3baffaa15b25c02105d510f736c71abaf1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:45 +0000
Subject: [PATCH 03/31] fix: psi consistency summary is scale invariant
 (absolute cut-offs skipped sign alignment and understated the spread of small
 amplitudes)

---
 include/qlpeps/algorithm/vmc_update/psi_consistency.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/psi_consistency.h b/include/qlpeps/algorithm/vmc_update/psi_consistency.h
index 769ccd7..214649a 100644
--- a/include/qlpeps/algorithm/vmc_update/psi_consistency.h
+++ b/include/qlpeps/algorithm/vmc_update/psi_consistency.h
@@ -128,7 +128,6 @@ inline PsiConsistencySummary<TenElemT> ComputePsiConsistencySummaryAligned(
   }
 
   // Choose the largest magnitude as reference to stabilize phase/sign alignment.
-  constexpr double kReferenceTol = 1e-14;
   size_t ref_index = 0;
   double ref_abs = 0.0;
   for (size_t i = 0; i < psi_list.size(); ++i) {
@@ -138,8 +137,10 @@ inline PsiConsistencySummary<TenElemT> ComputePsiConsistencySummaryAligned(
       ref_index = i;
     }
   }
-  const bool ref_valid = ref_abs > kReferenceTol;
-  const TenElemT psi_ref = psi_list[ref_index];
+  // The amplitude scale is arbitrary: use only the direction of the reference, so that
+  // the alignment neither stops working nor underflows for small amplitudes.
+  const bool ref_valid = ref_abs > 0.0;
+  const TenElemT psi_ref = ref_valid ? psi_list[ref_index] / ref_abs : TenElemT(0);
 
   TenElemT mean(0);
   std::vector<TenElemT> aligned;
@@ -160,7 +161,7 @@ inline PsiConsistencySummary<TenElemT> ComputePsiConsistencySummaryAligned(
   mean = mean / static_cast<double>(psi_list.size());
 
   auto abs_val = [](const TenElemT &v) -> double { return static_cast<double>(std::abs(v)); };
-  const double denom = std::max(abs_val(mean), std::numeric_limits<double>::epsilon());
+  const double denom = std::max(abs_val(mean), std::numeric_limits<double>::min());
   double max_dev = 0.0;
   for (const auto &v : aligned) {
     max_dev = std::max(max_dev, abs_val(v - mean));
-- 
2.43.0


From ae60cef3a3e86b85ca3905f50cf708e7385575b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:45 +0000
Subject: [PATCH 04/31] fix: CreatePath/EnsureDirectoryExists report whether
 the directory exists (lost creation race reported failure, a regular file
 reported success)

---
 include/qlpeps/utility/filesystem_utils.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..a941b94 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -40,10 +40,12 @@ inline bool CreatePath(const std::string& path) {
   if (path.empty()) return false;
   
   try {
-    if (std::filesystem::exists(path)) return true;
+    if (std::filesystem::exists(path)) return std::filesystem::is_directory(path);
     
     std::cout << "Creating directory: " << path << std::endl;
-    return std::filesystem::create_directories(path);
+    // create_directories() also returns false when another process created it first: judge by the result.
+    std::filesystem::create_directories(path);
+    return std::filesystem::is_directory(path);
   } catch (const std::exception& e) {
     std::cerr << "Error creating directory " << path << ": " << e.what() << std::endl;
     return false;
@@ -59,7 +61,7 @@ inline bool CreatePath(const std::string& path) {
  * eliminating the common pattern: if(!IsPathExist(path)) CreatePath(path);
  */
 inline bool EnsureDirectoryExists(const std::string& path) {
-  return IsPathExist(path) || CreatePath(path);
+  return CreatePath(path);
 }
 
 } // namespace qlpeps
-- 
2.43.0


From 41c9159a53c18f6cc5a2495c41e42213b33f96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:00 +0000
Subject: [PATCH 05/31] fix: OptimizerParamsBuilder default gradient tolerance
 no longer depends on which setter is called first

---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From 71e107db31f792ad9725e090f2cb005658cfb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:40 +0000
Subject: [PATCH 06/31] fix: two-pass standard error in
 GatherStatisticSingleData

---
 .../vmc_basic/monte_carlo_tools/statistics.h    | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..780e883 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -255,19 +255,12 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
                                 comm));
 
   if (comm_rank == qlten::hp_numeric::kMPIMasterRank) {
-    ElemT sum = 0.0;
-    for (size_t i = 0; i < comm_size; i++) {
-      sum += gather_data[i];
-    }
-    mean = sum / static_cast<RealT>(comm_size);
-    
+    const std::vector<ElemT> samples(gather_data.get(), gather_data.get() + comm_size);
+    mean = Mean(samples);
+
     if (comm_size > 1) {
-      RealT sum_square = 0.0;
-      for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
-      }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
-      standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
+      // Two-pass variance: E|x|^2 - |E x|^2 cancels catastrophically and can turn negative (NaN error).
+      standard_err = StandardError(samples, mean);
 
       // Check if standard error is infinite and output warning with data
       if (std::isinf(standard_err)) {
-- 
2.43.0


From 33632b7e7ad13400d4a6557c2a5ef57d96beb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 07/31] fix: scale the Hermiticity tolerance of p^dag A p in
 conjugate gradient

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..8d203ba 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -144,7 +144,8 @@ inline bool pap_is_valid(double pap) {
 }
 
 inline bool pap_is_valid(std::complex<double> pap) {
-  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10;
+  // Rounding in p^dag A p grows with its magnitude: compare the imaginary part on that scale.
+  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10 * std::max(1.0, pap.real());
 }
 
 inline double real_part(double x) { return x; }
-- 
2.43.0


From d790d53b2361a5b23b41c796c4d1c4f90e6cf288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 08/31] fix: SplitIndexTPS arithmetic keeps the boundary
 condition (results of +, -, scaling and element-wise operations silently
 became open)

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 441f560..a9c3565 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -50,7 +50,7 @@ void SplitIndexTPS<TenElemT, QNT>::ForEachValidTensor_(Func&& func) {
 template<typename TenElemT, typename QNT>
 template<typename Func>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const SplitIndexTPS &right, Func&& func) const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
@@ -65,7 +65,7 @@ SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const
 
 template<typename TenElemT, typename QNT>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::CreateInitializedResult_() const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
-- 
2.43.0


From 3e6eaeeb05114a0eb26e68ca46070718b5b6bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 09/31] fix: bond-dimension queries on one-row and one-column
 lattices (reserve underflow threw, uniform chains were reported non-uniform)

---
 .../two_dim_tn/tps/split_index_tps_impl.h     | 21 +++++--------------
 include/qlpeps/two_dim_tn/tps/tps_impl.h      |  4 +++-
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index a9c3565..9b23b88 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -8,9 +8,11 @@
 #ifndef QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 #define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 
+#include <algorithm>  // adjacent_find
 #include <complex>    // real
 #include <cstring>    // memcpy
 #include <cstdint>    // uint64_t
+#include <functional> // not_equal_to
 #include <stdexcept>  // runtime_error
 #include "qlpeps/utility/filesystem_utils.h"
 
@@ -104,7 +106,7 @@ std::pair<size_t, size_t> SplitIndexTPS<TenElemT, QNT>::GetMinMaxBondDimension()
 template<typename TenElemT, typename QNT>
 std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() const {
   std::vector<size_t> bond_dims;
-  bond_dims.reserve(this->rows() * this->cols() - this->rows() - this->cols());
+  bond_dims.reserve(2 * this->rows() * this->cols());
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const Tensor &tensor = (*this)({row, col})[0];
@@ -123,21 +125,8 @@ std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() co
 
 template<typename TenElemT, typename QNT>
 bool SplitIndexTPS<TenElemT, QNT>::IsBondDimensionEven(void) const {
-  size_t d = (*this)({0, 0})[0].GetShape()[1];
-  for (size_t row = 0; row < this->rows(); ++row) {
-    for (size_t col = 0; col < this->cols(); ++col) {
-      const Tensor &tensor = (*this)({row, col})[0];
-      bool has_south = (row < this->rows() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_south && d != tensor.GetShape()[1]) {
-        return false;
-      }
-      bool has_east = (col < this->cols() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_east && d != tensor.GetShape()[2]) {
-        return false;
-      }
-    }
-  }
-  return true;
+  const auto bond_dims = GetAllInnerBondDimensions();
+  return std::adjacent_find(bond_dims.cbegin(), bond_dims.cend(), std::not_equal_to<>()) == bond_dims.cend();
 }
 
 /**
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 758a94c..02b5f18 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -82,7 +82,9 @@ size_t TPS<TenElemT, QNT>::GetMaxBondDimension(void) const {
 ///< OBC
 template<typename TenElemT, typename QNT>
 bool TPS<TenElemT, QNT>::IsBondDimensionUniform(void) const {
-  size_t d = (*this)(0, 0)->GetShape()[1];
+  // a single-row open lattice has no vertical bond, its reference bond is horizontal
+  const bool has_vertical = this->rows() > 1 || boundary_condition_ == BoundaryCondition::Periodic;
+  size_t d = (*this)(0, 0)->GetShape()[has_vertical ? 1 : 2];
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const TenT *tensor = (*this)(row, col);
-- 
2.43.0


From 56eaa81d40e59931de524568ba6fe9ec25ae43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:56 +0000
Subject: [PATCH 10/31] fix: WaveFunctionSum keeps the sign and complex phase
 of its coefficients (dropped for even site counts, complex or single-state
 sums)

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 02b5f18..3f22dd6 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -199,6 +199,20 @@ inline std::vector<size_t> GetExpandIndices_(
   }
   return expand_idx_nums;
 }
+
+/**
+ * @brief Per-site share of a wave-function coefficient.
+ *
+ * The magnitude is spread evenly over the N sites; the sign (or complex phase) is carried by a single site,
+ * so that the product over all sites is exactly the coefficient.
+ */
+template<typename TenElemT>
+TenElemT SiteScale_(const TenElemT &coefficient, size_t N, bool carries_phase) {
+  const double magnitude = std::abs(coefficient);
+  const double scale = std::pow(magnitude, 1.0 / N);
+  if (!carries_phase || magnitude == 0.0) return TenElemT(scale);
+  return TenElemT(scale) * (coefficient / magnitude);
+}
 } // namespace detail
 
 template<typename TenElemT, typename QNT>
@@ -264,26 +278,13 @@ TPS<TenElemT, QNT> WaveFunctionSum(
   const size_t N = rows * cols;
   const BoundaryCondition bc = tps1.GetBoundaryCondition();
   
-  // Compute per-site scaling factors: alpha^(1/N), beta^(1/N)
-  // For complex numbers, use principal root
-  double alpha_scale, beta_scale;
-  if constexpr (std::is_same_v<TenElemT, double>) {
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-    if (alpha < 0 && N % 2 == 1) alpha_scale = -alpha_scale;
-    if (beta < 0 && N % 2 == 1) beta_scale = -beta_scale;
-  } else {
-    // Complex case: use magnitude
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-  }
-  
   TPS<TenElemT, QNT> result(rows, cols, bc);
   
   for (size_t row = 0; row < rows; ++row) {
     for (size_t col = 0; col < cols; ++col) {
-      TenT ten1_scaled = *tps1(row, col) * TenElemT(alpha_scale);
-      TenT ten2_scaled = *tps2(row, col) * TenElemT(beta_scale);
+      const bool carries_phase = (row == 0 && col == 0);
+      TenT ten1_scaled = *tps1(row, col) * detail::SiteScale_(alpha, N, carries_phase);
+      TenT ten2_scaled = *tps2(row, col) * detail::SiteScale_(beta, N, carries_phase);
       
       std::vector<size_t> expand_idx_nums = 
           detail::GetExpandIndices_(row, col, rows, cols, bc);
@@ -317,10 +318,9 @@ TPS<TenElemT, QNT> WaveFunctionSum(
       // Scale by coefficient (distributed across sites)
       TPS<TenElemT, QNT> result = tps_list[0];
       const size_t N = result.rows() * result.cols();
-      double scale = std::pow(std::abs(coefficients[0]), 1.0 / N);
       for (size_t row = 0; row < result.rows(); ++row) {
         for (size_t col = 0; col < result.cols(); ++col) {
-          result({row, col}) *= TenElemT(scale);
+          result({row, col}) *= detail::SiteScale_(coefficients[0], N, row == 0 && col == 0);
         }
       }
       return result;
-- 
2.43.0


From cbd9b74d32982776c13ac8896073bc3d2c65bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 11/31] fix: const SquareLatticePEPS::Dump writes into the
 directory it is given (files landed beside it and Load could not find them)

---
 .../qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index debc724..538c85c 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -400,7 +400,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   EnsureDirectoryExists(path);
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-      std::string filename = path + "gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!Gamma.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump Gamma tensor
@@ -410,7 +410,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_vert.rows(); ++row) {
     for (size_t col = 0; col < lambda_vert.cols(); ++col) {
-      std::string filename = path + "lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_vert.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_vert tensor
@@ -420,7 +420,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_horiz.rows(); ++row) {
     for (size_t col = 0; col < lambda_horiz.cols(); ++col) {
-      std::string filename = path + "lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_horiz.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_horiz tensor
-- 
2.43.0


From bdcf24ca5efdfc6b44c7fba439aac904079b647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 12/31] fix: SplitIndexTPS::Dump reports a tensor that could
 not be written (it was ignored and the memory released)

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 9b23b88..562b296 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -262,11 +262,8 @@ bool SplitIndexTPS<TenElemT, QNT>::DumpTen(const size_t row,
     return false; // Failed to open the file
   }
   ofs << (*this)({row, col})[compt];
-  if (!ofs) {
-    return false; // Failed to write the tensor to the file
-  }
   ofs.close();
-  return true; // Successfully dumped the tensor
+  return !ofs.fail(); // false if the tensor could not be written and flushed completely
 }
 
 template<typename TenElemT, typename QNT>
@@ -295,7 +292,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
         file = GenSplitIndexTPSTenName(tps_path, row, col, compt);
-        this->DumpTen(row, col, compt, file);
+        if (!this->DumpTen(row, col, compt, file)) {
+          throw std::ios_base::failure("Failed to dump tensor file: " + file);
+        }
       }
       if (release_mem) {
         this->dealloc(row, col);
-- 
2.43.0


From 15d6863a6fa2b10adeaf1afc895d9ce0f920635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 13/31] fix: SplitIndexTPS::Load rejects a corrupted metadata
 file (the error flag was cleared before it was tested)

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 562b296..48fdc06 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -333,14 +333,17 @@ bool SplitIndexTPS<TenElemT, QNT>::Load(const std::string &tps_path) {
     size_t rows = 0, cols = 0;
     int bc_int = 0;
     ifs >> rows >> cols >> phy_dim;
+    bool parsed = !ifs.fail();
     if (ifs >> bc_int) {
         // has bc info
+        parsed = parsed && (bc_int == static_cast<int>(BoundaryCondition::Open)
+            || bc_int == static_cast<int>(BoundaryCondition::Periodic));
     } else {
-        ifs.clear(); // Reset error state if EOF reached
+        parsed = parsed && ifs.eof(); // metadata written before the boundary condition was stored
         bc_int = static_cast<int>(BoundaryCondition::Open);
     }
 
-    if (ifs.fail()) {
+    if (!parsed) {
 #ifndef NDEBUG
       std::cerr << "[SplitIndexTPS::Load][DEBUG] Failed to parse metadata file: "
                 << meta_file << std::endl;
-- 
2.43.0


From af6827085f7ac87559bf1955cd61f6c5501c53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 14/31] fix: TPS::Dump reports metadata and tensors that could
 not be written (failures were silent)

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 3f22dd6..729c95d 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -108,15 +108,19 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
   {
     std::string meta_file = tps_path + "/tps_meta.txt";
     std::ofstream ofs(meta_file);
-    if (ofs) {
-      ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs.close();
+    if (ofs.fail()) {
+      throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
     }
   }
   std::string file;
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       file = GenTPSTenName(tps_path, row, col);
-      this->DumpTen(row, col, file, release_mem);
+      if (!this->DumpTen(row, col, file, release_mem)) {
+        throw std::ios_base::failure("Failed to dump tensor file: " + file);
+      }
     }
   }
 }
-- 
2.43.0


From 898b0b2c595c70671462d98c884af5689019b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 15/31] fix: TPS::Load rejects a corrupted metadata file (it
 loaded with whatever lattice it had)

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 729c95d..d78a555 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -133,12 +133,14 @@ bool TPS<TenElemT, QNT>::Load(const std::string &tps_path) {
     size_t r, c;
     int bc_int;
     ifs >> r >> c >> bc_int;
-    if (ifs) {
-      if (r != this->rows() || c != this->cols()) {
-         *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
-      } else {
-         boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
-      }
+    if (ifs.fail() || (bc_int != static_cast<int>(BoundaryCondition::Open)
+        && bc_int != static_cast<int>(BoundaryCondition::Periodic))) {
+      return false; // corrupted metadata
+    }
+    if (r != this->rows() || c != this->cols()) {
+      *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
+    } else {
+      boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
     }
   }
 
-- 
2.43.0


From 3318920bbd0cdc7755b37fe9b0569fce75f26390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 16/31] fix: let TRGContractor::Trace run again after
 ClearCache

ClearCache() drops the multi-scale skeleton, so the documented reload path (ClearCache() then Trace(tn)) indexed an empty vector. Rebuild the skeleton when it is missing.
---
 .../two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
index c2b1b34..6c60d0b 100644
--- a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
+++ b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
@@ -574,6 +574,12 @@ TenElemT TRGContractor<TenElemT, QNT>::Trace(const TensorNetwork2D<TenElemT, QNT
     return ComputeFinalAmplitude_();
   }
 
+  // ClearCache() drops the multi-scale skeleton together with the tensors: rebuild it.
+  if (scales_.empty()) {
+    BuildScale0GraphPBCSquare_();
+    BuildTopology_();
+  }
+
   // Full initialization
   const size_t N = rows_ * cols_;
   for (uint32_t i = 0; i < N; ++i) {
-- 
2.43.0


From a316956a5c32e5884ba5fcc7480a9d3db70ae455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 17/31] fix: SquareHubbardModel::EvaluateObservables did not
 compile (NNN link measured for NN-only models)

---
 .../square_nnn_model_measurement_solver.h     | 52 ++++++++++---------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h b/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
index 39d9303..750bc75 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
@@ -138,34 +138,36 @@ class SquareNNNModelMeasurementSolver
       // NNN link measurement functor (accumulate LEFTUP_TO_RIGHTDOWN to preserve legacy semantics)
     auto nnn_link_measure_func = [&](const SiteIdx site1, const SiteIdx site2, const DIAGONAL_DIR dir,
                                      const TenElemT inv_psi_row, std::optional<TenElemT> &fermion_psi) {
-      if constexpr (!has_nnn_interaction) { return; }
-      auto& contractor = tps_sample->contractor;
-      // Do NOT pre-set fermion_psi here: EvaluateNNNEnergy must compute the correct
-      // psi via ReplaceNNNSiteTrace on the first call (LEFTUP_TO_RIGHTDOWN), then
-      // reuse it on the second call (LEFTDOWN_TO_RIGHTUP). Pre-setting fermion_psi
-      // to the 1-row trace psi bypasses this and produces incorrect NNN bond energies.
-      TenElemT eb;
-      if constexpr (Index<QNT>::IsFermionic()) {
-        eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
-                                        (*split_index_tps)(site1), (*split_index_tps)(site2), fermion_psi);
-      } else {
-        eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
-                                        (*split_index_tps)(site1), (*split_index_tps)(site2), inv_psi_row);
-      }
-      // Sum energy from both diagonals for general square NNN models (e.g. J1-J2).
-      // For models with only one diagonal interaction (like triangular mapped to square),
-      // the derived class must ensure EvaluateNNNEnergy returns 0 for the non-interacting direction.
-      if (dir == LEFTUP_TO_RIGHTDOWN) {
-        if (e_dr.size() != 0) {
-          e_dr(site1.row(), site1.col()) = eb;
+      // The whole body is discarded for pure NN models, which need not provide EvaluateNNNEnergy.
+      if constexpr (has_nnn_interaction) {
+        auto& contractor = tps_sample->contractor;
+        // Do NOT pre-set fermion_psi here: EvaluateNNNEnergy must compute the correct
+        // psi via ReplaceNNNSiteTrace on the first call (LEFTUP_TO_RIGHTDOWN), then
+        // reuse it on the second call (LEFTDOWN_TO_RIGHTUP). Pre-setting fermion_psi
+        // to the 1-row trace psi bypasses this and produces incorrect NNN bond energies.
+        TenElemT eb;
+        if constexpr (Index<QNT>::IsFermionic()) {
+          eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
+                                          (*split_index_tps)(site1), (*split_index_tps)(site2), fermion_psi);
+        } else {
+          eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
+                                          (*split_index_tps)(site1), (*split_index_tps)(site2), inv_psi_row);
         }
-      } else if (dir == LEFTDOWN_TO_RIGHTUP) {
-        if (e_ur.size() != 0) {
-          size_t mapped_row = site1.row() - 1;  // LEFTDOWN anchor -> shift to top cell
-          e_ur(mapped_row, site1.col()) = eb;
+        // Sum energy from both diagonals for general square NNN models (e.g. J1-J2).
+        // For models with only one diagonal interaction (like triangular mapped to square),
+        // the derived class must ensure EvaluateNNNEnergy returns 0 for the non-interacting direction.
+        if (dir == LEFTUP_TO_RIGHTDOWN) {
+          if (e_dr.size() != 0) {
+            e_dr(site1.row(), site1.col()) = eb;
+          }
+        } else if (dir == LEFTDOWN_TO_RIGHTUP) {
+          if (e_ur.size() != 0) {
+            size_t mapped_row = site1.row() - 1;  // LEFTDOWN anchor -> shift to top cell
+            e_ur(mapped_row, site1.col()) = eb;
+          }
         }
+        energy_bond_total += eb;
       }
-      energy_bond_total += eb;
     };
 
     // Optional row hook for *off-diagonal* observables that require contractor environment
-- 
2.43.0


From 395c82dba1e1a60e6acf43014336aae3ae50c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 18/31] fix: triangular J1-J2 measurement used an exhausted
 window, omitted second-neighbour bonds and crashed on two-row lattices

---
 ..._onehalf_triangle_heisenbergJ1J2_sqrpeps.h | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 79da7cf..0d5e376 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -166,11 +166,9 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       if (row + 1 < ly) {
-        // Triangular J1 diagonal (↘)
+        // Triangular J1 diagonal (left-down to right-up)
         contractor.InitBTen2(tn, LEFT, row);
         contractor.GrowFullBTen2(tn, RIGHT, row, 2, true);
-        auto psi2 = contractor.Trace(tn, {row, 0}, HORIZONTAL);
-        auto inv_psi2 = TenElemT(1.0) / psi2;
         for (size_t col = 0; col + 1 < lx; ++col) {
           const SiteIdx ld{row + 1, col};
           const SiteIdx ru{row, col + 1};
@@ -181,26 +179,35 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
                                                      (*split_index_tps)(ld)[config(ru)],
                                                      (*split_index_tps)(ru)[config(ld)]);
-            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
           }
           if (e_ur.size() != 0) {
             e_ur(row, col) = eb;
           }
           energy_total += eb;
-          if (col + 2 < lx) contractor.ShiftBTen2Window(tn, RIGHT, row);
-        }
 
-        // J2 contribution on the same row window (left-up to right-down)
-        for (size_t col = 0; col + 1 < lx; ++col) {
-          SiteIdx s1{row, col};
-          SiteIdx s2{row + 1, col + 1};
+          // J2 contributions while the two-row window still sits at this column
+          const SiteIdx s1{row, col};
+          const SiteIdx s2{row + 1, col + 1};
           if (config(s1) == config(s2)) {
             energy_j2_total += TenElemT(0.25);
           } else {
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
                                                      (*split_index_tps)(s1)[config(s2)],
                                                      (*split_index_tps)(s2)[config(s1)]);
-            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+          }
+          if (col + 2 < lx) {
+            const SiteIdx ru2{row, col + 2};
+            if (config(ld) == config(ru2)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceSqrt5DistTwoSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
+                                                                (*split_index_tps)(ld)[config(ru2)],
+                                                                (*split_index_tps)(ru2)[config(ld)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
+            contractor.ShiftBTen2Window(tn, RIGHT, row);
           }
         }
         contractor.ShiftBMPSWindow(tn, DOWN);
@@ -235,7 +242,7 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       // J2 vertical window (sqrt(5) separation)
-      if (col + 1 < lx) {
+      if (col + 1 < lx && ly > 2) {
         contractor.InitBTen2(tn, UP, col);
         contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
         for (size_t row = 0; row + 2 < ly; ++row) {
@@ -259,7 +266,8 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
     if (e_h.size() != 0) out["bond_energy_h"] = e_h.Extract();
     if (e_v.size() != 0) out["bond_energy_v"] = e_v.Extract();
     if (e_ur.size() != 0) out["bond_energy_ur"] = e_ur.Extract();
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // All-to-all SzSz packed
     {
@@ -420,7 +428,7 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
         contractor.ShiftBTenWindow(tn, DOWN);
       }
     }
-    if (col < tn.cols() - 1) {
+    if (col < tn.cols() - 1 && tn.rows() > 2) { // sqrt(5) bonds span three rows
       contractor.InitBTen2(tn, UP, col);
       contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
       //Calculate J2 energy contribution
@@ -441,6 +449,8 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
           contractor.ShiftBTen2Window(tn, DOWN, col);
         }
       }
+    }
+    if (col < tn.cols() - 1) {
       contractor.ShiftBMPSWindow(tn, RIGHT);
     }
   }
-- 
2.43.0


From 1e2b426260ec8c506d843c32babcbe85e6c0e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 19/31] fix: transverse-field Ising measurement: sigma_x
 reported zero at h=0 and open-boundary psi summary never cached

---
 .../transverse_field_ising_square_obc.h       | 25 ++++++++++++++-----
 .../transverse_field_ising_square_pbc.h       |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
index 62e1ef3..8c002b7 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
@@ -95,9 +95,9 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
       auto inv_psi = TenElemT(1.0) / psi;
       for (size_t col = 0; col < lx; ++col) {
         const SiteIdx site{row, col};
-        TenElemT ex_term = EvaluateOnSiteOffDiagEnergy(site, config(site), tn, contractor, (*sitps)(site), inv_psi);
-        energy_ex += ex_term;
-        sigma_x_mat(site) = (h_ != 0.0) ? (-ex_term) / static_cast<double>(h_) : TenElemT(0);
+        const TenElemT sigma_x = EvaluateSigmaX(site, config(site), tn, contractor, (*sitps)(site), inv_psi);
+        energy_ex += (-h_) * sigma_x;
+        sigma_x_mat(site) = sigma_x;
         if (col < lx - 1) {
           contractor.ShiftBTenWindow(tn, RIGHT);
         }
@@ -131,7 +131,9 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
 
     out["sigma_x"] = sigma_x_mat.Extract();
     if (!two_point.empty()) out["SzSz_row"] = std::move(two_point);
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    // psi_list is not emitted via registry; cache its summary for the Measurer
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // Diagonal bond energies omitted by default; can be enabled if needed later
     return out;
@@ -195,12 +197,23 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
       BMPSContractor<TenElemT, QNT> &contractor,
       const std::vector<QLTensor<TenElemT, QNT>> &split_index_tps_on_site,
       TenElemT inv_psi
+  ) {
+    return (-h_) * EvaluateSigmaX(site, config, tn, contractor, split_index_tps_on_site, inv_psi);
+  }
+
+  /// Local estimator of sigma_i^x, independent of the field strength h (same requirements as above).
+  template<typename TenElemT, typename QNT>
+  [[nodiscard]] TenElemT EvaluateSigmaX(
+      const SiteIdx site, const size_t config,
+      const TensorNetwork2D<TenElemT, QNT> &tn,
+      BMPSContractor<TenElemT, QNT> &contractor,
+      const std::vector<QLTensor<TenElemT, QNT>> &split_index_tps_on_site,
+      TenElemT inv_psi
   ) {
     TenElemT psi_ex = contractor.ReplaceOneSiteTrace(tn, site,
                                              split_index_tps_on_site[1 - config],
                                              HORIZONTAL);
-    TenElemT ratio = ComplexConjugate(psi_ex * inv_psi);
-    return (-h_) * ratio;
+    return ComplexConjugate(psi_ex * inv_psi);
   }
 
   
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
index 8635e5c..e6c717c 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
@@ -188,7 +188,7 @@ class TransverseFieldIsingSquarePBC : public ModelEnergySolver<TransverseFieldIs
 
         energy_ex += (-h_) * ratio;
         if (sigma_x_mat.size() != 0) {
-          sigma_x_mat(site) = (h_ != 0.0) ? ratio : TenElemT(0);
+          sigma_x_mat(site) = ratio;
         }
       }
     }
-- 
2.43.0


From 2d659eb60241b174e22ad22eef4ae678039299cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:00 +0000
Subject: [PATCH 20/31] fix: ReplicaTest divides by zero with fewer than ten
 samples per rank

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 97fb9db..93a8630 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -139,8 +139,9 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     // calculate overlap
     overlaps.push_back(overlap_func(engine_.WavefuncComp().config, config2));
-    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % (engine_.SamplesPerRank() /
-      10) == 0) {
+    // at least 1: with fewer than 10 samples per rank the interval would be zero
+    const size_t print_interval = std::max<size_t>(1, engine_.SamplesPerRank() / 10);
+    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_interval == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
 
       auto accept_rates_avg = accept_rates_accum;
-- 
2.43.0


From 1cd1d0f69b3220f4ce559259745d5868257433ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:10 +0000
Subject: [PATCH 21/31] fix: triangular Heisenberg structure factor is
 described with a zero-sized shape that the measurer refuses to dump

---
 .../model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
index 7f2fa8a..b084a81 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
@@ -174,7 +174,7 @@ class SpinOneHalfTriHeisenbergSqrPEPS :
     desc.push_back({"SpSm_row", "Row Sp(i)Sm(j) along middle row (flat)", {row_corr_len}, {"segment"}});
     desc.push_back({"SzSz_all2all", "All-to-all SzSz correlations (upper-tri packed)", {site_num * (site_num + 1) / 2},
                     {"pair_packed_upper_tri"}});
-    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {0}, {"y1", "x1", "y2", "x2", "val"}});
+    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {}, {"y1", "x1", "y2", "x2", "val"}});
     return desc;
   }
 
-- 
2.43.0


From 0b9d0756862d7f22cc71eb586f7fceedde78a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:43 +0000
Subject: [PATCH 22/31] fix: energy-spike rollback without a saved state
 re-evaluates the same state forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..5ba44e5 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,10 +736,16 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without a state to roll back to, re-evaluating the same state could repeat forever.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
         if (action == SpikeAction::kRollback) {
           if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
             LogSpikeEvent_(iter, attempts, signal, action,
-- 
2.43.0


From ab47c335a608c5831737e2dfb7ce75f3e1686a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:54 +0000
Subject: [PATCH 23/31] fix: VMCPEPSOptimizer::Execute silently dropped the
 callbacks set by the user

---
 .../vmc_update/vmc_peps_optimizer_impl.h        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
index 5ad6c44..aef2369 100644
--- a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
@@ -107,8 +107,9 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   this->SetStatus(ExecutorStatus::EXEING);
   monte_carlo_engine_.WarmUp();
 
-  // Set up optimization callback to track progress
-  optimization_callback_.on_iteration =
+  // Track progress, then hand over to the callbacks registered by the user (if any)
+  auto callback = optimization_callback_;
+  callback.on_iteration =
       [this](size_t iteration, double energy, double energy_error, double gradient_norm) {
         if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
           energy_trajectory_.push_back(energy);
@@ -125,13 +126,19 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
             WriteEnergyTrajectoryCsv_("./energy/energy_trajectory.csv");
           }
         }
+        if (optimization_callback_.on_iteration) {
+          optimization_callback_.on_iteration(iteration, energy, energy_error, gradient_norm);
+        }
       };
 
-  optimization_callback_.on_lowest_state_found = [this](const SITPST &state, double energy) {
+  callback.on_lowest_state_found = [this](const SITPST &state, double energy) {
     if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
       tps_lowest_ = state;
       en_min_ = energy;
     }
+    if (optimization_callback_.on_lowest_state_found) {
+      optimization_callback_.on_lowest_state_found(state, energy);
+    }
   };
 
   // Create energy evaluator function that provides gradient samples for stochastic reconfiguration
@@ -175,11 +182,11 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   // Use iterative optimization for all algorithms in the current implementation
   // Line search support can be added as enhancement later
   if (needs_sr_buffers_) {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, callback,
                                           &Ostar_samples_, &Ostar_mean_, &energy_samples_,
                                           energy_only_evaluator);
   } else {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, callback,
                                           nullptr, nullptr, nullptr,
                                           energy_only_evaluator);
   }
-- 
2.43.0


From e00abab67eeb2345c8576635cae62b10592a05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:54 +0000
Subject: [PATCH 24/31] fix: the iteration that meets a stopping criterion was
 not reported to on_iteration

---
 include/qlpeps/optimizer/optimizer_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 5ba44e5..6c0b6f3 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -832,6 +832,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
             }
             result.converged = true;
           }
+          if (callback.on_iteration) {
+            callback.on_iteration(iter, current_energy_real, current_error, grad_norm);
+          }
           step_accepted = true;
           done = true;
           break;
-- 
2.43.0


From 9c9cb46bb132a347909000d90b5f91d110e79e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 25/31] fix: iterating a DuoMatrix with rows but no columns
 visits nothing

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 13006bc..330d0a2 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -378,6 +378,7 @@ class DuoMatrix {
 
   // Begin iterator for DuoMatrix
   Iterator begin() {
+    if (cols() == 0) return end();  // rows without columns: nothing to visit
     return Iterator(*this);
   }
 
@@ -447,6 +448,7 @@ class DuoMatrix {
 
   // Begin const iterator for DuoMatrix
   ConstIterator cbegin() const {
+    if (cols() == 0) return cend();  // rows without columns: nothing to visit
     return ConstIterator(*this);
   }
 
-- 
2.43.0


From a6bd601bdc2d375b54b139ad5acb4a4e25c9adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 26/31] fix: print the full step length in SU_METRIC lines

---
 include/qlpeps/algorithm/simple_update/simple_update_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/simple_update/simple_update_impl.h b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
index 4e65f34..21ae0bb 100644
--- a/include/qlpeps/algorithm/simple_update/simple_update_impl.h
+++ b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
@@ -327,7 +327,7 @@ void SimpleUpdateExecutor<TenElemT, QNT>::Execute(void) {
     if (update_para.emit_machine_readable_metrics) {
       std::cout << "SU_METRIC"
                 << " step=" << step
-                << " tau=" << update_para.tau
+                << " tau=" << std::setprecision(15) << update_para.tau
                 << " e0=" << std::setprecision(15) << sweep_result.estimated_e0
                 << " en=" << std::setprecision(15) << sweep_result.estimated_en;
       if (sweep_result.trunc_err.has_value()) {
-- 
2.43.0


From 2eafd2147cbfa1e0013a1efef496bb1a24a89c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 27/31] fix: simple update accepts on-site terms given on some
 sites only

---
 .../algorithm/simple_update/simple_update.h    | 18 ++++++++++++++++++
 .../square_lattice_nn_simple_update.h          |  1 +
 .../square_lattice_nnn_simple_update.h         |  1 +
 3 files changed, 20 insertions(+)

diff --git a/include/qlpeps/algorithm/simple_update/simple_update.h b/include/qlpeps/algorithm/simple_update/simple_update.h
index b9d7025..ec84c1f 100644
--- a/include/qlpeps/algorithm/simple_update/simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/simple_update.h
@@ -168,6 +168,24 @@ class SimpleUpdateExecutor : public Executor {
 
   virtual void SetEvolveGate_(void) = 0;
 
+  /// @brief Set the on-site terms the user left out (e.g. sites without pinning field) to zero.
+  static void FillUnsetOnSiteTerms_(TenMatrix<Tensor> &on_site_terms) {
+    const Tensor *set_term = nullptr;
+    for (size_t row = 0; row < on_site_terms.rows() && set_term == nullptr; ++row) {
+      for (const Tensor *term : on_site_terms.get_row(row)) {
+        if (term != nullptr && !term->IsDefault()) {
+          set_term = term;
+          break;
+        }
+      }
+    }
+    if (set_term == nullptr) return;
+    const Tensor zero_term = RealT(0) * (*set_term);
+    for (auto &term : on_site_terms) {
+      if (term.IsDefault()) term = zero_term;
+    }
+  }
+
   /// @brief Perform one full sweep. Subclasses must return a SweepResult.
   virtual SweepResult SimpleUpdateSweep_(void) = 0;
 
diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index b805a2f..278cca4 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -66,6 +66,7 @@ class SquareLatticeNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElemT
       vertical_nn_evolve_gate_set_(peps_initial.GetBoundaryCondition() == BoundaryCondition::Periodic ? this->ly_ : this->ly_ - 1, this->lx_) {
     assert(ham_on_site_terms_.rows() == this->ly_);
     assert(ham_on_site_terms_.cols() == this->lx_);
+    this->FillUnsetOnSiteTerms_(ham_on_site_terms_);
   }
   /**
    * Non-uniform bond Hamiltonians (e.g. checkerboard hopping, random coupling).
diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index 39278ec..f8f7c46 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -92,6 +92,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
                                  peps_initial.GetBoundaryCondition() == BoundaryCondition::Periodic ? this->lx_ : this->lx_ - 1) {
     assert(ham_on_site_terms_.rows() == this->ly_);
     assert(ham_on_site_terms_.cols() == this->lx_);
+    this->FillUnsetOnSiteTerms_(ham_on_site_terms_);
   }
 
  private:
-- 
2.43.0


From 8f45eff2a182a90dd11ce6a0ac0e10bc230805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 28/31] fix: on-site share per bond on one-row and one-column
 lattices

---
 .../square_lattice_nn_simple_update.h         | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index 278cca4..2701eb6 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -109,6 +109,12 @@ class SquareLatticeNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElemT
  private:
   void SetEvolveGate_(void) override;
 
+  /// Number of NN bonds attached to a site (each bond carries that share of the on-site term).
+  size_t CoordinationNumber_(const size_t row, const size_t col) const {
+    if (this->peps_.GetBoundaryCondition() == BoundaryCondition::Periodic) return 4;
+    return (row > 0) + (row + 1 < this->ly_) + (col > 0) + (col + 1 < this->lx_);
+  }
+
   /**
    * @return h_ij = ham_two_site_term_ + h1 * ham_one_site_term_ * id + h2 * id * ham_one_site_term_
    */
@@ -221,18 +227,9 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
 
   for (size_t col = 0; col < hor_bond_limit; col++) {
     for (size_t row = 0; row < this->ly_; row++) {
-      size_t coord_num1 = 4;
-      size_t coord_num2 = 4;
-      if (!is_pbc) {
-        if (row == 0 || row == this->ly_ - 1) {
-          coord_num1 -= 1;
-          coord_num2 -= 1;
-        }
-        if (col == 0) coord_num1 -= 1;
-        if (col == this->lx_ - 2) coord_num2 -= 1;
-      }
-
       const size_t col2 = (col + 1) % this->lx_;
+      const size_t coord_num1 = CoordinationNumber_(row, col);
+      const size_t coord_num2 = CoordinationNumber_(row, col2);
       const Tensor &base_ham = non_uniform_bond_hams_
           ? horizontal_nn_input_hams_({row, col}) : ham_two_site_term_;
       horizontal_nn_ham_set_({row, col}) = ConstructBondHamiltonian(base_ham,
@@ -252,18 +249,9 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
 
   for (size_t col = 0; col < this->lx_; col++) {
     for (size_t row = 0; row < ver_bond_limit; row++) {
-      size_t coord_num1 = 4;
-      size_t coord_num2 = 4;
-      if (!is_pbc) {
-        if (col == 0 || col == this->lx_ - 1) {
-          coord_num1 -= 1;
-          coord_num2 -= 1;
-        }
-        if (row == 0) coord_num1 -= 1;
-        if (row == this->ly_ - 2) coord_num2 -= 1;
-      }
-
       const size_t row2 = (row + 1) % this->ly_;
+      const size_t coord_num1 = CoordinationNumber_(row, col);
+      const size_t coord_num2 = CoordinationNumber_(row2, col);
       const Tensor &base_ham = non_uniform_bond_hams_
           ? vertical_nn_input_hams_({row, col}) : ham_two_site_term_;
       vertical_nn_ham_set_({row, col}) = ConstructBondHamiltonian(base_ham,
-- 
2.43.0


From f7e812dce41ad4337535843cb48486d9995cc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 29/31] fix: on-site terms of lower-left triangles in the NNN
 simple update

---
 .../algorithm/simple_update/square_lattice_nnn_simple_update.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index f8f7c46..4122a6e 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -151,8 +151,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
       }
       case LowerLeft: {
         tri_site[0] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), site_b[1]};
-        tri_site[2] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), 
-                       (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
+        tri_site[2] = {site_b[0], (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
         break;
       }
       case LowerRight: {
-- 
2.43.0


From b61fe90cfaecc9ed682efe52c999d8a60e60d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:22 +0000
Subject: [PATCH 30/31] fix: loop update on bonds of dimension one

---
 include/qlpeps/two_dim_tn/peps/arnoldi_solver.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/peps/arnoldi_solver.h b/include/qlpeps/two_dim_tn/peps/arnoldi_solver.h
index 190190a..3e76694 100644
--- a/include/qlpeps/two_dim_tn/peps/arnoldi_solver.h
+++ b/include/qlpeps/two_dim_tn/peps/arnoldi_solver.h
@@ -230,6 +230,16 @@ ArnoldiRes<TenElemT, QNT> ArnoldiSolver(
   if constexpr (QLTensor<TenElemT, QNT>::IsFermionic()) {
     bases_dag[0]->ActFermionPOps();
   }
+  if (mat_eff_dim == 1) {
+    // Every vector of a one-dimensional space is an eigenvector.
+    TenT image = transfer_tens_multiple_vec(*bases[0], sigma, sigma_dag, Upsilon);
+    TenT overlap_ten;
+    Contract(bases_dag[0], {0, 1}, &image, {0, 1}, &overlap_ten);
+    ArnoldiRes<TenElemT, QNT> res{overlap_ten(), *bases[0]};
+    delete bases[0];
+    delete bases_dag[0];
+    return res;
+  }
 //  std::optional<TenElemT> eigenvalue_last;
   RealT max_abs_h_elem(0.0);
   for (size_t k = 1; k < max_iter; k++) {
-- 
2.43.0


From b8f7f59adb668e2f61b5c9e31e91cac0a4d595dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:22 +0000
Subject: [PATCH 31/31] fix: full precision of tau in the loop update metric
 lines

---
 include/qlpeps/algorithm/loop_update/loop_update_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/loop_update/loop_update_impl.h b/include/qlpeps/algorithm/loop_update/loop_update_impl.h
index 1f0bd72..e8b7d11 100644
--- a/include/qlpeps/algorithm/loop_update/loop_update_impl.h
+++ b/include/qlpeps/algorithm/loop_update/loop_update_impl.h
@@ -267,7 +267,7 @@ void LoopUpdateExecutor<TenElemT, QNT>::Execute(void) {
     if (para_.emit_machine_readable_metrics) {
       std::cout << "LU_METRIC"
                 << " step=" << step
-                << " tau=" << para_.tau
+                << " tau=" << std::setprecision(15) << para_.tau
                 << " e0=" << std::setprecision(15) << sweep_result.estimated_e0
                 << " en=" << std::setprecision(15) << sweep_result.estimated_en;
       if (sweep_result.trunc_err.has_value()) {
-- 
2.43.0

