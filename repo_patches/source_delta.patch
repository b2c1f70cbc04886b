From f4eb5d76c51614db0d77d9c83915e2d18f9fd27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:37 +0000
Subject: [PATCH 01/29] fix: builder's default gradient tolerance no longer
 depends on which setter is called first

---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From 8ee7a3b5828cf04bf4523c75bb2f7810d8909d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:02 +0000
Subject: [PATCH 02/29] fix: DumpTen reports failure when buffered data cannot
 be written out

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..6645407 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -104,6 +104,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Buffered data could not be written out
+    }
     return true; // Successfully dumped the tensor
   }
 
@@ -125,6 +128,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Buffered data could not be written out
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
-- 
2.43.0


From 7a2fa58209221eb3998df810a1ac8722f96d1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:07 +0000
Subject: [PATCH 03/29] fix: DuoMatrix::has_alloc returns its answer (was
 declared void, could not be used)

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..13006bc 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -238,7 +238,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) const {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From f4acd98d850b217435109a10192aa5898f29f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:59 +0000
Subject: [PATCH 04/29] fix: CreatePath/EnsureDirectoryExists report whether
 the directory exists, not who created it

Racing creators, a trailing slash and a plain file at the path were reported wrongly.
---
 include/qlpeps/utility/filesystem_utils.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..1f03004 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -40,10 +40,12 @@ inline bool CreatePath(const std::string& path) {
   if (path.empty()) return false;
   
   try {
-    if (std::filesystem::exists(path)) return true;
+    if (std::filesystem::is_directory(path)) return true;
     
     std::cout << "Creating directory: " << path << std::endl;
-    return std::filesystem::create_directories(path);
+    // The return value only tells whether *this* call created it; another process may have been faster.
+    std::filesystem::create_directories(path);
+    return std::filesystem::is_directory(path);
   } catch (const std::exception& e) {
     std::cerr << "Error creating directory " << path << ": " << e.what() << std::endl;
     return false;
@@ -59,7 +61,7 @@ inline bool CreatePath(const std::string& path) {
  * eliminating the common pattern: if(!IsPathExist(path)) CreatePath(path);
  */
 inline bool EnsureDirectoryExists(const std::string& path) {
-  return IsPathExist(path) || CreatePath(path);
+  return CreatePath(path);
 }
 
 } // namespace qlpeps
-- 
2.43.0


From 9e7716f6563ef2b1ecf42b3b6917708f9db331cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 05/29] fix: a repeated S4 energy spike without a state to roll
 back to no longer loops forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..8291050 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,7 +736,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without an earlier state to return to (already rolled back in this step), rolling
+            // back again would re-evaluate the same state forever: accept with warning instead.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
@@ -760,6 +762,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
           attempts = 0;
           continue;
         }
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
       }
 
       // === E: ACCEPT — update EMA trackers (only on accepted steps) ===
-- 
2.43.0


From b4d5b96b0e0ee368599236706530450fcf2f0fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:47 +0000
Subject: [PATCH 06/29] fix: GetSpikeStats reports the last run instead of
 always being empty

---
 include/qlpeps/optimizer/optimizer_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 8291050..b318ab6 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -109,6 +109,8 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
     const std::vector<TenElemT> *energy_samples,
     std::function<std::pair<double, double>(const WaveFunctionT &)> energy_only_evaluator) {
 
+  spike_stats_ = SpikeStatistics{};
+
   OptimizationResult result;
   result.optimized_state = initial_state;
   result.lowest_state = initial_state;
@@ -1862,8 +1864,7 @@ void Optimizer<TenElemT, QNT>::ClearUp() {
     }
   }
 
-  // Clear spike statistics (after CSV has been written above)
-  spike_stats_ = SpikeStatistics{};
+  // spike_stats_ is kept: GetSpikeStats() reports the last run. The next run starts it afresh.
   current_accept_rates_.clear();
 
   // Clear rollback state
-- 
2.43.0


From 24136f5c0fcb98ea348adce18a95d401f54ad7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 07/29] fix: GatherStatisticSingleData returned a NaN error
 when the one-pass variance rounded below zero

---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..12af2f9 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -262,12 +262,8 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     mean = sum / static_cast<RealT>(comm_size);
     
     if (comm_size > 1) {
-      RealT sum_square = 0.0;
-      for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
-      }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
-      standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
+      // Two-pass form: <|x|^2> - |<x>|^2 can round below zero and give a NaN error.
+      standard_err = StandardError(std::vector<ElemT>(gather_data.get(), gather_data.get() + comm_size), mean);
 
       // Check if standard error is infinite and output warning with data
       if (std::isinf(standard_err)) {
-- 
2.43.0


From 2c0b8fc631c6ca1035f86010bef4d11ca9ea8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 08/29] fix: MonteCarloParams(file path) never loaded a dumped
 configuration (object had no shape)

---
 .../algorithm/vmc_update/monte_carlo_peps_params.h     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
index b9581ca..185921b 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
@@ -10,6 +10,7 @@
 #ifndef QLPEPS_ALGORITHM_VMC_UPDATE_VMC_OPTIMIZE_PARA_H
 #define QLPEPS_ALGORITHM_VMC_UPDATE_VMC_OPTIMIZE_PARA_H
 
+#include <fstream>                                  // std::ifstream
 #include <string>                                    // std::string
 #include <stdexcept>                                // std::runtime_error
 #include <variant>                                  // std::variant
@@ -78,7 +79,14 @@ struct MonteCarloParams {
     : total_samples(total_samples), num_warmup_sweeps(warmup_sweeps),
       sweeps_between_samples(sweeps_between), is_warmed_up(warmed_up),
       config_dump_path(config_dump_path) {
-    bool success = initial_config.Load(config_file_path, 0);
+    // Configuration::Load needs an already sized object: take the lattice shape from the dump's side-car file.
+    size_t rows = 0, cols = 0;
+    std::ifstream shape_ifs(config_file_path + "/configuration0.shape");
+    bool success = bool(shape_ifs >> rows >> cols) && rows > 0 && cols > 0;
+    if (success) {
+      initial_config = Configuration(rows, cols);
+      success = initial_config.Load(config_file_path, 0);
+    }
     if (!success) {
       throw std::runtime_error("Failed to load configuration from: " + config_file_path);
     }
-- 
2.43.0


From cf86671b56df7065677ac7764f0ba15f6d011a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 09/29] fix: SplitIndexTPS arithmetic keeps the boundary
 condition of its operands

operator+, -, unary -, scalar * and the element-wise transforms built their
result with the default (open) boundary condition, so a periodic state became
an open one after its first update.
---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 441f560..a9c3565 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -50,7 +50,7 @@ void SplitIndexTPS<TenElemT, QNT>::ForEachValidTensor_(Func&& func) {
 template<typename TenElemT, typename QNT>
 template<typename Func>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const SplitIndexTPS &right, Func&& func) const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
@@ -65,7 +65,7 @@ SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const
 
 template<typename TenElemT, typename QNT>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::CreateInitializedResult_() const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
-- 
2.43.0


From fe78ca1ec237e883a2c2b724cf22fc0c2e8b34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 10/29] fix: bond-dimension queries work on one-row and
 one-column lattices

GetAllInnerBondDimensions reserved rows*cols-rows-cols entries, which wraps
around for 1xN and Nx1; the uniformity queries compared with the (dummy)
boundary leg of site (0,0) on a one-row open lattice.
---
 .../two_dim_tn/tps/split_index_tps_impl.h      | 18 +++++-------------
 include/qlpeps/two_dim_tn/tps/tps_impl.h       | 10 +++++++---
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index a9c3565..85068bd 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -104,7 +104,7 @@ std::pair<size_t, size_t> SplitIndexTPS<TenElemT, QNT>::GetMinMaxBondDimension()
 template<typename TenElemT, typename QNT>
 std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() const {
   std::vector<size_t> bond_dims;
-  bond_dims.reserve(this->rows() * this->cols() - this->rows() - this->cols());
+  bond_dims.reserve(2 * this->rows() * this->cols());
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const Tensor &tensor = (*this)({row, col})[0];
@@ -123,18 +123,10 @@ std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() co
 
 template<typename TenElemT, typename QNT>
 bool SplitIndexTPS<TenElemT, QNT>::IsBondDimensionEven(void) const {
-  size_t d = (*this)({0, 0})[0].GetShape()[1];
-  for (size_t row = 0; row < this->rows(); ++row) {
-    for (size_t col = 0; col < this->cols(); ++col) {
-      const Tensor &tensor = (*this)({row, col})[0];
-      bool has_south = (row < this->rows() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_south && d != tensor.GetShape()[1]) {
-        return false;
-      }
-      bool has_east = (col < this->cols() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_east && d != tensor.GetShape()[2]) {
-        return false;
-      }
+  const auto bond_dims = GetAllInnerBondDimensions();
+  for (const size_t d : bond_dims) {
+    if (d != bond_dims.front()) {
+      return false;
     }
   }
   return true;
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 758a94c..7aac8f7 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -82,16 +82,20 @@ size_t TPS<TenElemT, QNT>::GetMaxBondDimension(void) const {
 ///< OBC
 template<typename TenElemT, typename QNT>
 bool TPS<TenElemT, QNT>::IsBondDimensionUniform(void) const {
-  size_t d = (*this)(0, 0)->GetShape()[1];
+  size_t d = 0; // dimension of the first inner bond met
+  auto differs = [&d](const size_t dim) {
+    if (d == 0) d = dim;
+    return d != dim;
+  };
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const TenT *tensor = (*this)(row, col);
       bool check_vertical = (row != 0) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (check_vertical && d != tensor->GetShape()[3]) {
+      if (check_vertical && differs(tensor->GetShape()[3])) {
         return false;
       }
       bool check_horizontal = (col != 0) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (check_horizontal && d != tensor->GetShape()[0]) {
+      if (check_horizontal && differs(tensor->GetShape()[0])) {
         return false;
       }
     }
-- 
2.43.0


From 244305faf8ca2373bcdad80df1aed59268190e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:25 +0000
Subject: [PATCH 11/29] fix: dumping a TPS reports tensors that could not be
 written

SplitIndexTPS::Dump and TPS::Dump ignored failed tensor (and TPS metadata)
writes, and with release_mem even freed the tensors that were not saved.
---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h |  7 ++++++-
 include/qlpeps/two_dim_tn/tps/tps_impl.h             | 10 +++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 85068bd..63bddde 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -269,6 +269,9 @@ bool SplitIndexTPS<TenElemT, QNT>::DumpTen(const size_t row,
     return false; // Failed to write the tensor to the file
   }
   ofs.close();
+  if (!ofs) {
+    return false; // Buffered data could not be written out
+  }
   return true; // Successfully dumped the tensor
 }
 
@@ -298,7 +301,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
         file = GenSplitIndexTPSTenName(tps_path, row, col, compt);
-        this->DumpTen(row, col, compt, file);
+        if (!this->DumpTen(row, col, compt, file)) {
+          throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+        }
       }
       if (release_mem) {
         this->dealloc(row, col);
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 7aac8f7..fa5b620 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -110,15 +110,19 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
   {
     std::string meta_file = tps_path + "/tps_meta.txt";
     std::ofstream ofs(meta_file);
-    if (ofs) {
-      ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs.close();
+    if (!ofs) {
+      throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
     }
   }
   std::string file;
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       file = GenTPSTenName(tps_path, row, col);
-      this->DumpTen(row, col, file, release_mem);
+      if (!this->DumpTen(row, col, file, release_mem)) {
+        throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+      }
     }
   }
 }
-- 
2.43.0


From 6157dcc705b9bdfb61e7fbae7296e422a5bdaa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:25 +0000
Subject: [PATCH 12/29] fix: SquareLatticePEPS::Dump(path) const writes inside
 the directory

The path separator was missing, so the files went next to the directory (as
<path>gamma_ten_...) and Load(path) could not find them.
---
 .../qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index debc724..538c85c 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -400,7 +400,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   EnsureDirectoryExists(path);
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-      std::string filename = path + "gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!Gamma.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump Gamma tensor
@@ -410,7 +410,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_vert.rows(); ++row) {
     for (size_t col = 0; col < lambda_vert.cols(); ++col) {
-      std::string filename = path + "lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_vert.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_vert tensor
@@ -420,7 +420,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_horiz.rows(); ++row) {
     for (size_t col = 0; col < lambda_horiz.cols(); ++col) {
-      std::string filename = path + "lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_horiz.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_horiz tensor
-- 
2.43.0


From 16940c4fc3058c87471dae63ec32ccf0fd230750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:05 +0000
Subject: [PATCH 13/29] fix: WaveFunctionSum keeps the sign and phase of its
 coefficients

A negative coefficient on a lattice with an even number of sites, any complex
phase, and the sign of the coefficient of a single-state list were dropped, so
e.g. psi1 - psi2 was built as psi1 + psi2.
---
 include/qlpeps/two_dim_tn/tps/tps.h      |  7 +++--
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 40 ++++++++++++++----------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps.h b/include/qlpeps/two_dim_tn/tps/tps.h
index 2821c1b..f9931be 100644
--- a/include/qlpeps/two_dim_tn/tps/tps.h
+++ b/include/qlpeps/two_dim_tn/tps/tps.h
@@ -166,8 +166,9 @@ TPS<TenElemT, QNT> WaveFunctionSum(
  * @brief Wave function sum with coefficients: \f$|\psi\rangle = \alpha|\psi_1\rangle + \beta|\psi_2\rangle\f$
  *
  * Computes a weighted superposition of two tensor product states. Each tensor in
- * tps1 is scaled by \f$\alpha^{1/N}\f$ and each tensor in tps2 is scaled by 
- * \f$\beta^{1/N}\f$, where \f$N\f$ is the total number of sites.
+ * tps1 is scaled by \f$|\alpha|^{1/N}\f$ and each tensor in tps2 is scaled by 
+ * \f$|\beta|^{1/N}\f$, where \f$N\f$ is the total number of sites; the sign or
+ * complex phase of a coefficient is applied at site (0,0).
  *
  * @tparam TenElemT Tensor element type
  * @tparam QNT Quantum number type
@@ -180,7 +181,7 @@ TPS<TenElemT, QNT> WaveFunctionSum(
  * @return TPS representing \f$\alpha|\psi_1\rangle + \beta|\psi_2\rangle\f$
  *
  * @note The scaling is distributed across all sites to maintain numerical stability.
- *       Each site tensor is scaled by \f$\alpha^{1/N}\f$ or \f$\beta^{1/N}\f$ respectively.
+ *       Each site tensor is scaled by \f$|\alpha|^{1/N}\f$ or \f$|\beta|^{1/N}\f$ respectively.
  */
 template<typename TenElemT, typename QNT>
 TPS<TenElemT, QNT> WaveFunctionSum(
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index fa5b620..7cd47e0 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -205,6 +205,22 @@ inline std::vector<size_t> GetExpandIndices_(
   }
   return expand_idx_nums;
 }
+
+/**
+ * @brief Split a coefficient into one factor per site whose product is the coefficient.
+ *
+ * The magnitude is spread evenly (|c|^(1/N) on every site); the sign or complex
+ * phase, which in general has no N-th root in the element type, goes to the first site.
+ */
+template<typename TenElemT>
+std::vector<TenElemT> DistributeCoefficient_(const TenElemT coefficient, const size_t N) {
+  const auto magnitude = std::abs(coefficient);
+  std::vector<TenElemT> factors(N, TenElemT(std::pow(magnitude, 1.0 / N)));
+  if (magnitude > 0) {
+    factors[0] *= coefficient / magnitude;
+  }
+  return factors;
+}
 } // namespace detail
 
 template<typename TenElemT, typename QNT>
@@ -270,26 +286,16 @@ TPS<TenElemT, QNT> WaveFunctionSum(
   const size_t N = rows * cols;
   const BoundaryCondition bc = tps1.GetBoundaryCondition();
   
-  // Compute per-site scaling factors: alpha^(1/N), beta^(1/N)
-  // For complex numbers, use principal root
-  double alpha_scale, beta_scale;
-  if constexpr (std::is_same_v<TenElemT, double>) {
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-    if (alpha < 0 && N % 2 == 1) alpha_scale = -alpha_scale;
-    if (beta < 0 && N % 2 == 1) beta_scale = -beta_scale;
-  } else {
-    // Complex case: use magnitude
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-  }
+  // Per-site scaling factors whose product over all sites is alpha (beta)
+  const auto alpha_scales = detail::DistributeCoefficient_(alpha, N);
+  const auto beta_scales = detail::DistributeCoefficient_(beta, N);
   
   TPS<TenElemT, QNT> result(rows, cols, bc);
   
   for (size_t row = 0; row < rows; ++row) {
     for (size_t col = 0; col < cols; ++col) {
-      TenT ten1_scaled = *tps1(row, col) * TenElemT(alpha_scale);
-      TenT ten2_scaled = *tps2(row, col) * TenElemT(beta_scale);
+      TenT ten1_scaled = *tps1(row, col) * alpha_scales[row * cols + col];
+      TenT ten2_scaled = *tps2(row, col) * beta_scales[row * cols + col];
       
       std::vector<size_t> expand_idx_nums = 
           detail::GetExpandIndices_(row, col, rows, cols, bc);
@@ -323,10 +329,10 @@ TPS<TenElemT, QNT> WaveFunctionSum(
       // Scale by coefficient (distributed across sites)
       TPS<TenElemT, QNT> result = tps_list[0];
       const size_t N = result.rows() * result.cols();
-      double scale = std::pow(std::abs(coefficients[0]), 1.0 / N);
+      const auto scales = detail::DistributeCoefficient_(coefficients[0], N);
       for (size_t row = 0; row < result.rows(); ++row) {
         for (size_t col = 0; col < result.cols(); ++col) {
-          result({row, col}) *= TenElemT(scale);
+          result({row, col}) *= scales[row * result.cols() + col];
         }
       }
       return result;
-- 
2.43.0


From 249578be393ac10a762bdf3bcbf98b9f66180bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:34 +0000
Subject: [PATCH 14/29] fix: TRGContractor::Trace works again after ClearCache

---
 .../two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
index c2b1b34..b824b66 100644
--- a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
+++ b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
@@ -574,6 +574,12 @@ TenElemT TRGContractor<TenElemT, QNT>::Trace(const TensorNetwork2D<TenElemT, QNT
     return ComputeFinalAmplitude_();
   }
 
+  // ClearCache() also drops the topology; rebuild it before reloading the tensors.
+  if (scales_.empty()) {
+    BuildScale0GraphPBCSquare_();
+    BuildTopology_();
+  }
+
   // Full initialization
   const size_t N = rows_ * cols_;
   for (uint32_t i = 0; i < N; ++i) {
-- 
2.43.0


From f1132b7af65c04be2d5ba2240bb16fe65f0882d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 15/29] fix: keep the state order on the Suwa-Todo ring

The update relabelled the states so that the largest weight came first.
When several weights are equal (any symmetric wave function), rounding in
the caller decides which of them is the largest, differently for each
starting state, so the ring depended on the starting state: the balance
condition was lost and whole configurations were never visited. Shift by
the largest weight without relabelling.
---
 .../monte_carlo_tools/suwa_todo_update.h      | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h b/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
index f8d4b74..317becd 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
@@ -24,18 +24,16 @@ namespace qlpeps {
  * Mathematics (ring construction): Let \( S = \sum_{j=0}^{n-1} w_j \),
  * prefix sums \( s_k = \sum_{t=0}^{k} w_t \) with \( s_{-1}=0 \), and target intervals
  * \( I_j = [ s_{j-1}, s_j ) \) on \([0, S)\).
- * Internally, we swap the maximum weight to index 0 (pure relabeling) and take a fixed offset
- * \( C = w_0 \). For current state \( i \), define \( s_{i-1} = (i==0?0:s[i-1]) \) and
+ * We take the fixed offset \( C = \max_j w_j \). For current state \( i \), define \( s_{i-1} = (i==0?0:s[i-1]) \) and
  * source interval \( J_i = [ (s_{i-1}+C)\bmod S,\ (s_{i-1}+C+w_i)\bmod S ) \).
  * Sampling \( x \sim U(J_i) \) and returning the unique \( j \) with \( x \in I_j \)
  * yields the Suwa–Todo transition probabilities, which are equivalent to the classical
  * v-min/max formula but numerically simpler and rejection-free.
  *
  * Implementation notes:
- * - Weights are received by value intentionally to allow internal swapping (no side effects).
  * - Intervals are half-open on the right; we use std::nextafter to avoid sampling the upper bound.
- * - The temporary swap of the maximal weight to index 0 is fully mapped back before return,
- *   so the external state ordering remains unchanged and detailed-balance-free stationarity holds.
+ * - The states keep their order on the ring: only the offset depends on the maximal weight. Which of several
+ *   (nearly) equal maximal weights is the largest, a matter of rounding in the caller, therefore does not matter.
  *
  * Preconditions/assumptions:
  * - weights.size() > 0, init_state < weights.size().
@@ -44,7 +42,7 @@ namespace qlpeps {
  *   Violating this breaks the balance condition and biases the results.
  *
  * @param init_state The state in the last step (index into weights).
- * @param weights Non-normalized, non-negative relative weights of states (by-value for internal swap).
+ * @param weights Non-normalized, non-negative relative weights of states.
  * @param generator Random number generator.
  * @return The updated state index.
  *
@@ -64,20 +62,10 @@ size_t SuwaTodoStateUpdate(size_t init_state,
   }
   assert(weights[init_state] > 0);
 #endif
-  // Swap the first weight with the maximum weight
-  auto max_weight_iter = std::max_element(weights.cbegin(), weights.cend());
-  const size_t max_weight_id = max_weight_iter - weights.cbegin();
+  const long double max_weight = *std::max_element(weights.cbegin(), weights.cend());
 #ifndef NDEBUG
-  assert(weights[max_weight_id] > 0);
+  assert(max_weight > 0);
 #endif
-  if (max_weight_id != 0) {
-    std::swap(weights[0], weights[max_weight_id]);
-  }
-  if (init_state == max_weight_id) {
-    init_state = 0;
-  } else if (init_state == 0) {
-    init_state = max_weight_id;
-  }
 
   std::vector<long double> s(n);
   s[0] = static_cast<long double>(weights[0]);
@@ -91,7 +79,7 @@ size_t SuwaTodoStateUpdate(size_t init_state,
   #endif
 
   const long double s_im1 = (init_state == 0) ? 0.0L : s[init_state - 1];
-  long double start = s_im1 + static_cast<long double>(weights[0]);
+  long double start = s_im1 + max_weight;
   if (start >= S) start -= S; // one wrap is enough
 
   std::uniform_real_distribution<long double> uniform_dist_x(
@@ -101,15 +89,7 @@ size_t SuwaTodoStateUpdate(size_t init_state,
   long double x = uniform_dist_x(generator); // directly sample on [start, start + w_i)
   if (x >= S) x -= S; // modulo S (at most one wrap)
 
-  size_t final_state = static_cast<size_t>(std::upper_bound(s.begin(), s.end(), x) - s.begin());
-  if (max_weight_id != 0) {
-    if (final_state == 0) {
-      final_state = max_weight_id;
-    } else if (final_state == max_weight_id) {
-      final_state = 0;
-    }
-  }
-  return final_state;
+  return static_cast<size_t>(std::upper_bound(s.begin(), s.end(), x) - s.begin());
 }
 
 // Backward compatibility wrapper
-- 
2.43.0


From bb8bc2504b7563a0af3982e7c7fd6df7c6ab4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 16/29] fix: grow the DOWN boundary before measuring the
 structure factor (XXZ)

---
 .../vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
index 2028328..eeb7bb9 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
@@ -239,6 +239,7 @@ class SquareSpinOneHalfXXZModelOBC
     if (this->IsStructureFactorEnabled()) {
       const auto& trunc_para = tps_sample->trun_para;
       tps_sample->contractor.SetTruncateParams(trunc_para);
+      tps_sample->contractor.GrowFullBMPS(tps_sample->tn, DOWN);
       this->MeasureStructureFactor(
           tps_sample->tn,
           split_index_tps,
-- 
2.43.0


From abeccb1b1da793d3e12a7dfa2271469250183ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 17/29] fix: grow the DOWN boundary before measuring the
 structure factor (triangular)

---
 .../model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
index 7f2fa8a..85dcc57 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
@@ -117,6 +117,9 @@ class SpinOneHalfTriHeisenbergSqrPEPS :
     
     // Expensive S+S- Structure Factor (controlled by flag)
     tps_sample->contractor.SetTruncateParams(tps_sample->trun_para);
+    if (this->IsStructureFactorEnabled()) {
+      tps_sample->contractor.GrowFullBMPS(tps_sample->tn, DOWN);
+    }
     this->MeasureStructureFactor(tps_sample->tn, split_index_tps, tps_sample->contractor, tps_sample->config, out);
 
     // Keep legacy public API: this model historically exposed only the interacting diagonal as bond_energy_ur.
-- 
2.43.0


From 39bc591d578a0e63d34de97b9bacb426a390e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 18/29] fix: Jastrow ratio of a hop excludes the pair of the
 two exchanged sites

---
 .../algorithm/vmc_update/model_solvers/square_tJ_model.h  | 8 ++++----
 .../configuration_update_strategies/square_nn_updater.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h b/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
index 89a0dee..6efb78f 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
@@ -399,9 +399,9 @@ TenElemT SquaretJModelMixIn::EvaluateBondEnergy(
       double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
       double jastrow_ratio;
       if (tJSingleSiteState(config1) == tJSingleSiteState::Empty) {
-        jastrow_ratio = std::exp(field_site1 - field_site2);
+        jastrow_ratio = std::exp(field_site1 - field_site2 - jastrow(site1, site2));
       } else {
-        jastrow_ratio = std::exp(field_site2 - field_site1);
+        jastrow_ratio = std::exp(field_site2 - field_site1 - jastrow(site1, site2));
       }
       return (-t_) * ratio * jastrow_ratio;
     } else {
@@ -510,9 +510,9 @@ TenElemT SquaretJModelMixIn::EvaluateNNNEnergy(
   double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
   double jastrow_ratio;
   if (tJSingleSiteState(config1) == tJSingleSiteState::Empty) {
-    jastrow_ratio = std::exp(field_site1 - field_site2);
+    jastrow_ratio = std::exp(field_site1 - field_site2 - jastrow(site1, site2));
   } else {
-    jastrow_ratio = std::exp(field_site2 - field_site1);
+    jastrow_ratio = std::exp(field_site2 - field_site1 - jastrow(site1, site2));
   }
 
   return -t2_ * ratio * jastrow_ratio;
diff --git a/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h b/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
index 57622ea..5e5fe44 100644
--- a/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
+++ b/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
@@ -409,9 +409,9 @@ class MCUpdateSquareNNExchangeJastrowDressedTJ : public MCUpdateSquareNNUpdateBa
       double field_site1 = jastrow.JastrowFieldAtSite(density_config, site1);
       double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
       if (density_config(site1) == 0 && density_config(site2) == 1) {
-        jastrow_ratio = std::exp(field_site1 - field_site2);
+        jastrow_ratio = std::exp(field_site1 - field_site2 - jastrow(site1, site2));
       } else if (density_config(site1) == 1 && density_config(site2) == 0) {
-        jastrow_ratio = std::exp(field_site2 - field_site1);
+        jastrow_ratio = std::exp(field_site2 - field_site1 - jastrow(site1, site2));
       } else {
         std::cerr << "Error: Invalid density configuration for t-J model." << std::endl;
         exit(EXIT_FAILURE);
-- 
2.43.0


From e33d274337cf57c4b764d1fc92396a7d43ed99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 19/29] fix: sigma_x of the transverse-field Ising solvers does
 not depend on h being nonzero

---
 .../model_solvers/transverse_field_ising_square_obc.h      | 7 ++++---
 .../model_solvers/transverse_field_ising_square_pbc.h      | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
index 62e1ef3..e7b9ec1 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
@@ -95,9 +95,10 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
       auto inv_psi = TenElemT(1.0) / psi;
       for (size_t col = 0; col < lx; ++col) {
         const SiteIdx site{row, col};
-        TenElemT ex_term = EvaluateOnSiteOffDiagEnergy(site, config(site), tn, contractor, (*sitps)(site), inv_psi);
-        energy_ex += ex_term;
-        sigma_x_mat(site) = (h_ != 0.0) ? (-ex_term) / static_cast<double>(h_) : TenElemT(0);
+        TenElemT psi_ex = contractor.ReplaceOneSiteTrace(tn, site, (*sitps)(site)[1 - config(site)], HORIZONTAL);
+        TenElemT ratio = ComplexConjugate(psi_ex * inv_psi);
+        energy_ex += (-h_) * ratio;
+        sigma_x_mat(site) = ratio;
         if (col < lx - 1) {
           contractor.ShiftBTenWindow(tn, RIGHT);
         }
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
index 8635e5c..e6c717c 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h
@@ -188,7 +188,7 @@ class TransverseFieldIsingSquarePBC : public ModelEnergySolver<TransverseFieldIs
 
         energy_ex += (-h_) * ratio;
         if (sigma_x_mat.size() != 0) {
-          sigma_x_mat(site) = (h_ != 0.0) ? ratio : TenElemT(0);
+          sigma_x_mat(site) = ratio;
         }
       }
     }
-- 
2.43.0


From 4891dc0b9189f87e96dc0f794e5f35d3032c60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 20/29] fix: observables of the triangular J1-J2 solver: renew
 environments, add the missing sqrt(5) pairs

---
 ..._onehalf_triangle_heisenbergJ1J2_sqrpeps.h | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 79da7cf..23265f5 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -140,8 +140,8 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
 
         // XY channels (SmSp_row, SpSm_row)
         std::vector<TenElemT> diag_corr(lx / 2, TenElemT(0));
-        tn(site1) = (*split_index_tps)(site1)[1 - config(site1)];
-        contractor.TruncateBTen(LEFT, lx / 4 + 1);
+        tn.UpdateSiteTensor(site1, 1 - config(site1), *split_index_tps);
+        contractor.EraseEnvsAfterUpdate(site1);
         contractor.GrowBTenStep(tn, LEFT);
         contractor.GrowFullBTen(tn, RIGHT, row, lx / 4 + 2, false);
         for (size_t i = 1; i <= lx / 2; ++i) {
@@ -154,7 +154,8 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
           }
           contractor.ShiftBTenWindow(tn, RIGHT);
         }
-        tn(site1) = (*split_index_tps)(site1)[config(site1)];
+        tn.UpdateSiteTensor(site1, config(site1), *split_index_tps);
+        contractor.EraseEnvsAfterUpdate(site1);
         std::vector<TenElemT> SmSp_row = diag_corr;
         std::vector<TenElemT> SpSm_row(diag_corr.size(), TenElemT(0));
         if (config(site1) == 0) {
@@ -169,8 +170,6 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
         // Triangular J1 diagonal (↘)
         contractor.InitBTen2(tn, LEFT, row);
         contractor.GrowFullBTen2(tn, RIGHT, row, 2, true);
-        auto psi2 = contractor.Trace(tn, {row, 0}, HORIZONTAL);
-        auto inv_psi2 = TenElemT(1.0) / psi2;
         for (size_t col = 0; col + 1 < lx; ++col) {
           const SiteIdx ld{row + 1, col};
           const SiteIdx ru{row, col + 1};
@@ -181,17 +180,14 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
                                                      (*split_index_tps)(ld)[config(ru)],
                                                      (*split_index_tps)(ru)[config(ld)]);
-            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
           }
           if (e_ur.size() != 0) {
             e_ur(row, col) = eb;
           }
           energy_total += eb;
-          if (col + 2 < lx) contractor.ShiftBTen2Window(tn, RIGHT, row);
-        }
 
-        // J2 contribution on the same row window (left-up to right-down)
-        for (size_t col = 0; col + 1 < lx; ++col) {
+          // J2 contributions on the same window: left-up to right-down, and sqrt(5) separation
           SiteIdx s1{row, col};
           SiteIdx s2{row + 1, col + 1};
           if (config(s1) == config(s2)) {
@@ -200,8 +196,20 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
                                                      (*split_index_tps)(s1)[config(s2)],
                                                      (*split_index_tps)(s2)[config(s1)]);
-            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+          }
+          if (col + 2 < lx) {
+            const SiteIdx far{row, col + 2};
+            if (config(ld) == config(far)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceSqrt5DistTwoSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
+                                                                (*split_index_tps)(ld)[config(far)],
+                                                                (*split_index_tps)(far)[config(ld)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
           }
+          contractor.ShiftBTen2Window(tn, RIGHT, row);
         }
         contractor.ShiftBMPSWindow(tn, DOWN);
       }
-- 
2.43.0


From 0c0d4ced140057448c3255eeb533b01f32802b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 21/29] fix: triangular J1-J2 solver on two-row lattices

---
 .../spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h        | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 23265f5..ed7b8a8 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -243,7 +243,7 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       // J2 vertical window (sqrt(5) separation)
-      if (col + 1 < lx) {
+      if (col + 1 < lx && ly > 2) {
         contractor.InitBTen2(tn, UP, col);
         contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
         for (size_t row = 0; row + 2 < ly; ++row) {
@@ -429,8 +429,10 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
       }
     }
     if (col < tn.cols() - 1) {
-      contractor.InitBTen2(tn, UP, col);
-      contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      if (tn.rows() > 2) {
+        contractor.InitBTen2(tn, UP, col);
+        contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      }
       //Calculate J2 energy contribution
       for (size_t row = 0; row < tn.rows() - 2; row++) {
         const SiteIdx site1 = {row + 2, col};
-- 
2.43.0


From 7173d28e0b423bfb19149e7ecd2bf200911ae214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 22/29] fix: iterating a DuoMatrix that has rows but no columns
 ends at once

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 13006bc..79e6466 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -378,7 +378,7 @@ class DuoMatrix {
 
   // Begin iterator for DuoMatrix
   Iterator begin() {
-    return Iterator(*this);
+    return cols() == 0 ? end() : Iterator(*this); // rows without columns hold nothing
   }
 
   // End iterator for DuoMatrix
@@ -447,7 +447,7 @@ class DuoMatrix {
 
   // Begin const iterator for DuoMatrix
   ConstIterator cbegin() const {
-    return ConstIterator(*this);
+    return cols() == 0 ? cend() : ConstIterator(*this);
   }
 
   // End const iterator for DuoMatrix
-- 
2.43.0


From 6dc9cc400dda08cba6fb2a595c00349c7b70d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 23/29] fix: NNN simple update takes the on-site term of the
 right third site in lower-left triangles

---
 .../algorithm/simple_update/square_lattice_nnn_simple_update.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index 39278ec..1c43194 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -150,8 +150,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
       }
       case LowerLeft: {
         tri_site[0] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), site_b[1]};
-        tri_site[2] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), 
-                       (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
+        tri_site[2] = {site_b[0], (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
         break;
       }
       case LowerRight: {
-- 
2.43.0


From f7fb3ee59ca3b3fe1fc5e6da458bef582afc1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 24/29] fix: on-site weights of the NN simple update on
 single-row and single-column lattices

---
 .../simple_update/square_lattice_nn_simple_update.h  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index b805a2f..7402851 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -223,7 +223,11 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
       size_t coord_num1 = 4;
       size_t coord_num2 = 4;
       if (!is_pbc) {
-        if (row == 0 || row == this->ly_ - 1) {
+        if (row == 0) {
+          coord_num1 -= 1;
+          coord_num2 -= 1;
+        }
+        if (row == this->ly_ - 1) {
           coord_num1 -= 1;
           coord_num2 -= 1;
         }
@@ -254,7 +258,11 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
       size_t coord_num1 = 4;
       size_t coord_num2 = 4;
       if (!is_pbc) {
-        if (col == 0 || col == this->lx_ - 1) {
+        if (col == 0) {
+          coord_num1 -= 1;
+          coord_num2 -= 1;
+        }
+        if (col == this->lx_ - 1) {
           coord_num1 -= 1;
           coord_num2 -= 1;
         }
-- 
2.43.0


From a8cb57f5aad445b654275a0379a1cdfe48cc0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 25/29] fix: per-bond Hamiltonians of the NN simple update
 accept single-row lattices

---
 .../algorithm/simple_update/square_lattice_nn_simple_update.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index 7402851..269fffc 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -95,7 +95,9 @@ class SquareLatticeNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElemT
           + "), got (" + std::to_string(horizontal_nn_hams.rows()) + ", "
           + std::to_string(horizontal_nn_hams.cols()) + ")");
     }
-    if (vertical_nn_hams.rows() != expected_ver_rows || vertical_nn_hams.cols() != this->lx_) {
+    // a matrix without rows (single-row OBC lattice) has no columns to compare
+    if (vertical_nn_hams.rows() != expected_ver_rows
+        || (expected_ver_rows > 0 && vertical_nn_hams.cols() != this->lx_)) {
       throw std::invalid_argument("vertical_nn_hams dimension mismatch: expected ("
           + std::to_string(expected_ver_rows) + ", " + std::to_string(this->lx_)
           + "), got (" + std::to_string(vertical_nn_hams.rows()) + ", "
-- 
2.43.0


From 66ad51acbb4b5b61cdd253acd1116fc85e6f43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:28 +0000
Subject: [PATCH 26/29] fix: MC evaluator reports the gradient norm, not its
 square

---
 include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
index d8ee007..0b696ad 100644
--- a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
+++ b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
@@ -310,7 +310,7 @@ class MCEnergyGradEvaluator {
     }
     double grad_norm = 0.0;
     if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
-      grad_norm = grad.NormSquare();
+      grad_norm = std::sqrt(grad.NormSquare());
     }
 
     Result res;
-- 
2.43.0


From 51467623e2e2e605485b1bb9423d0a59e59bc6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 27/29] fix: replica test runs with fewer than ten samples per
 rank

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 97fb9db..2e0bcd4 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -112,6 +112,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   SynchronizeConfiguration_();
   std::vector<double> overlaps;
   overlaps.reserve(engine_.SamplesPerRank());
+  const size_t print_bar_length = std::max<size_t>(engine_.SamplesPerRank() / 10, 1);
   //  std::cout << "Random number from worker " << rank_ << " : " << u_double_(random_engine) << std::endl;
   std::vector<double> accept_rates_accum;
   for (size_t sweep = 0; sweep < engine_.SamplesPerRank(); sweep++) {
@@ -139,8 +140,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     // calculate overlap
     overlaps.push_back(overlap_func(engine_.WavefuncComp().config, config2));
-    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % (engine_.SamplesPerRank() /
-      10) == 0) {
+    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_bar_length == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
 
       auto accept_rates_avg = accept_rates_accum;
-- 
2.43.0


From 04135295b422d579d06fb983818f7183c32dd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 28/29] fix: measurer gathers observables in the same order on
 every rank

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 2e0bcd4..172f140 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -12,6 +12,7 @@
 #include <fstream>
 #include <iomanip>
 #include <limits>
+#include <map>
 #include <sstream>
 #include <stdexcept>
 
@@ -244,7 +245,10 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   std::cout << "Rank " << engine_.Rank() << ": statistic data finished." << std::endl;
 
   // Aggregate registry-based observables
-  auto local_registry = sample_data_.StatisticRegistry();
+  // Gathering is collective: every rank has to visit the keys in the same order, which a hash map does not promise
+  const auto unordered_registry = sample_data_.StatisticRegistry();
+  const std::map<std::string, std::pair<std::vector<TenElemT>, std::vector<double>>> local_registry(
+      unordered_registry.begin(), unordered_registry.end());
   // Then gather all keys into registry_stats_
   for (const auto &kv : local_registry) {
     const std::string &key = kv.first;
-- 
2.43.0


From 3a5f232203aee48059bfe224274fa847dd892324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:13 +0000
Subject: [PATCH 29/29] fix: CG does not call large Hermitian systems
 indefinite because of rounding

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..90e0a24 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -144,7 +144,8 @@ inline bool pap_is_valid(double pap) {
 }
 
 inline bool pap_is_valid(std::complex<double> pap) {
-  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10;
+  // The imaginary part of a Hermitian form is rounding noise, which grows with the form itself
+  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10 * std::max(1.0, pap.real());
 }
 
 inline double real_part(double x) { return x; }
-- 
2.43.0

