From 2445381e096aff403575a3f00110c4171540d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 01/21] hook: small block sizes for simulation builds
 (MATMUL_SIM_SMALL_BLOCKS)

---
 otherExperiments/multExchanged.cpp     |  9 +++++++++
 otherExperiments/multGPU.cpp           |  7 +++++++
 otherExperiments/multGPUASM.cpp        |  7 +++++++
 otherExperiments/multIntrinLoop.cpp    |  9 +++++++++
 otherExperiments/multRegister.cpp      |  9 +++++++++
 src/reference_kernels/kernel_test.cpp  | 23 +++++++++++++++++++++++
 src/reference_kernels/kernel_tiled.cpp | 21 +++++++++++++++++++++
 src/variants/combined.cpp              | 21 +++++++++++++++++++++
 8 files changed, 106 insertions(+)

diff --git a/otherExperiments/multExchanged.cpp b/otherExperiments/multExchanged.cpp
index e528da4..7af7f29 100644
--- a/otherExperiments/multExchanged.cpp
+++ b/otherExperiments/multExchanged.cpp
@@ -9,6 +9,15 @@
 
 #define KCHUNK 128
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef BLOCKSIZEX
+#define BLOCKSIZEX 8
+#undef BLOCKSIZEY
+#define BLOCKSIZEY 16
+#undef KCHUNK
+#define KCHUNK 8
+#endif
+
 void multExchanged(double *A, double *B, double *C, const uint32_t n) {
 
   omp_set_num_threads(2);
diff --git a/otherExperiments/multGPU.cpp b/otherExperiments/multGPU.cpp
index e97ca78..3dfaf7b 100644
--- a/otherExperiments/multGPU.cpp
+++ b/otherExperiments/multGPU.cpp
@@ -7,6 +7,13 @@
 
 #define KCHUNK 128
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef BLOCKSIZE
+#define BLOCKSIZE 8
+#undef KCHUNK
+#define KCHUNK 8
+#endif
+
 void multGPU(double *A, double *B, double *C, const uint32_t n) {
 
   // omp_set_num_threads(4);
diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..b405913 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -8,6 +8,13 @@
 
 #define KCHUNK 256
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef BLOCKSIZE
+#define BLOCKSIZE 16
+#undef KCHUNK
+#define KCHUNK 8
+#endif
+
 void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
   typedef union avxValue {
diff --git a/otherExperiments/multIntrinLoop.cpp b/otherExperiments/multIntrinLoop.cpp
index efb346e..3a89648 100644
--- a/otherExperiments/multIntrinLoop.cpp
+++ b/otherExperiments/multIntrinLoop.cpp
@@ -10,6 +10,15 @@
 
 #define KCHUNK 128
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef BLOCKSIZEX
+#define BLOCKSIZEX 8
+#undef BLOCKSIZEY
+#define BLOCKSIZEY 16
+#undef KCHUNK
+#define KCHUNK 8
+#endif
+
 void multIntrinLoop(double *A, double *B, double *C, const uint32_t n) {
 
   // omp_set_num_threads(2);
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..bb34770 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -9,6 +9,15 @@
 
 #define KCHUNK 64
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef BLOCKSIZEX
+#define BLOCKSIZEX 16
+#undef BLOCKSIZEY
+#define BLOCKSIZEY 8
+#undef KCHUNK
+#define KCHUNK 8
+#endif
+
 void multRegister(double *A, double *B, double *C, const uint32_t n) {
 
   omp_set_num_threads(2);
diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index a35ab96..a057126 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -16,6 +16,29 @@
 #define X_REG 5
 #define Y_REG 8
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef PADDING
+#define PADDING 8
+#undef L3_X
+#define L3_X 16
+#undef L3_Y
+#define L3_Y 32
+#undef L3_K_STEP
+#define L3_K_STEP 32
+#undef L2_X
+#define L2_X 16
+#undef L2_Y
+#define L2_Y 16
+#undef L2_K_STEP
+#define L2_K_STEP 8
+#undef L1_X
+#define L1_X 8
+#undef L1_Y
+#define L1_Y 8
+#undef L1_K_STEP
+#define L1_K_STEP 4
+#endif
+
 namespace kernel_test {
 
 kernel_test::kernel_test(size_t N, std::vector<double> &A,
diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..03fd63e 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -27,6 +27,27 @@
 #define Y_REG 8 // cannot be changed!
 #define K_REG 1 // cannot be changed!
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef L3_X
+#define L3_X 20
+#undef L3_Y
+#define L3_Y 32
+#undef L3_K_STEP
+#define L3_K_STEP 16
+#undef L2_X
+#define L2_X 10
+#undef L2_Y
+#define L2_Y 16
+#undef L2_K_STEP
+#define L2_K_STEP 8
+#undef L1_X
+#define L1_X 5
+#undef L1_Y
+#define L1_Y 8
+#undef L1_K_STEP
+#define L1_K_STEP 4
+#endif
+
 // 4x12 approach kernel tuning
 // #define L3_X 32 // max 2 L3 par set to 1024 (rest 512)
 // #define L3_Y 24
diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..cbb4bd5 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -24,6 +24,27 @@ using Vc::double_v;
 #define X_REG 5 // cannot be changed!
 #define Y_REG 8 // cannot be changed!
 
+#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
+#undef L3_X
+#define L3_X 20
+#undef L3_Y
+#define L3_Y 32
+#undef L3_K_STEP
+#define L3_K_STEP 16
+#undef L2_X
+#define L2_X 10
+#undef L2_Y
+#define L2_Y 16
+#undef L2_K_STEP
+#define L2_K_STEP 8
+#undef L1_X
+#define L1_X 5
+#undef L1_Y
+#define L1_Y 8
+#undef L1_K_STEP
+#define L1_K_STEP 4
+#endif
+
 // #define L3_X 5 // max all L1 par set to 32
 // #define L3_Y 8
 // #define L3_K_STEP 8
-- 
2.43.0


From b5890de1733527aa1bb7a024a89b776963d53462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 02/21] fix: recursive: do not quarter odd blocks, block_result
 0 disables blocking

Quartering an odd block dropped its last row and column, and block_result 0
recursed down to blocks of size 0 and returned zeros.
---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..beffb95 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // block_result == 0 disables the blocking, an odd size cannot be quartered
+  if (block_result == 0 || blockSize <= block_result || blockSize % 2 != 0) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From da468681501299fd9256b57f0ec4de9d99364d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 03/21] fix: report failed subtasks and wait for started ones
 before failing

hpx::wait_all does not rethrow: a failed work package left zeros in the result.
An exception while packages were being sent out unwound while continuations
still referred to the result.
---
 src/variants/components/recursive.cpp | 35 ++++++++++-----
 src/variants/static_improved.cpp      | 63 +++++++++++++++++----------
 2 files changed, 65 insertions(+), 33 deletions(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index beffb95..3faa092 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -74,21 +74,34 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
     std::vector<double> C(blockSize * blockSize);
 
     std::vector<hpx::future<void>> g;
-    for (size_t i = 0; i < submatrix_count; i++) {
-      hpx::future<std::vector<double>> f =
-          hpx::async<recursive::distribute_recursively_action>(
-              self.get_id(), x + std::get<0>(offsets[i]),
-              y + std::get<1>(offsets[i]), n_new);
-      g.push_back(
-          f.then(hpx::util::unwrapped([=, &C](std::vector<double> submatrix) {
-            this->extract_submatrix(C, std::move(submatrix),
-                                    std::get<0>(offsets[i]),
-                                    std::get<1>(offsets[i]), n_new);
-          })));
+    g.reserve(submatrix_count);
+    try {
+      for (size_t i = 0; i < submatrix_count; i++) {
+        hpx::future<std::vector<double>> f =
+            hpx::async<recursive::distribute_recursively_action>(
+                self.get_id(), x + std::get<0>(offsets[i]),
+                y + std::get<1>(offsets[i]), n_new);
+        g.push_back(
+            f.then(hpx::util::unwrapped([=, &C](std::vector<double> submatrix) {
+              this->extract_submatrix(C, std::move(submatrix),
+                                      std::get<0>(offsets[i]),
+                                      std::get<1>(offsets[i]), n_new);
+            })));
+      }
+    } catch (...) {
+      // the tasks already started refer to C
+      for (hpx::future<void> &f : g) {
+        f.wait();
+      }
+      throw;
     }
 
     // wait for the matrix C to become ready
     hpx::wait_all(g);
+    // report failed subtasks, wait_all does not
+    for (hpx::future<void> &f : g) {
+      f.get();
+    }
 
     return C;
   }
diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..3657e0e 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -243,33 +243,52 @@ std::vector<double> static_improved::matrix_multiply() {
     this->print_schedule(all_work);
   }
 
+  size_t num_packages = 0;
+  for (std::vector<matrix_multiply_work> &locality_work : all_work) {
+    num_packages += locality_work.size();
+  }
+  futures.reserve(num_packages);
+
   for (size_t repeat = 0; repeat < repetitions; repeat++) {
-    for (size_t i = 0; i < all_work.size(); i++) {
-      // transmit the work to the processing locality
-      for (matrix_multiply_work &w : all_work[i]) {
-        hpx::components::client<recursive> recursive =
-            hpx::new_<hpx::components::client<multiply_components::recursive>>(
-                all_ids[i], block_result, verbose);
-
-        uint32_t comp_locality =
-            hpx::naming::get_locality_id_from_id(recursive.get_id());
-        recursive.register_as("/recursive#" + std::to_string(comp_locality),
-                              false);
-
-        hpx::future<std::vector<double>> f =
-            hpx::async<recursive::distribute_recursively_action>(
-                recursive.get_id(), w.x, w.y, w.N);
-        hpx::future<void> g =
-            f.then(hpx::util::unwrapped([=](std::vector<double> submatrix) {
-              this->insert_submatrix(submatrix, w);
-            }));
-
-        futures.push_back(std::move(g));
-        recursives.push_back(std::move(recursive));
+    try {
+      for (size_t i = 0; i < all_work.size(); i++) {
+        // transmit the work to the processing locality
+        for (matrix_multiply_work &w : all_work[i]) {
+          hpx::components::client<recursive> recursive = hpx::new_<
+              hpx::components::client<multiply_components::recursive>>(
+              all_ids[i], block_result, verbose);
+
+          uint32_t comp_locality =
+              hpx::naming::get_locality_id_from_id(recursive.get_id());
+          recursive.register_as("/recursive#" + std::to_string(comp_locality),
+                                false);
+
+          hpx::future<std::vector<double>> f =
+              hpx::async<recursive::distribute_recursively_action>(
+                  recursive.get_id(), w.x, w.y, w.N);
+          hpx::future<void> g =
+              f.then(hpx::util::unwrapped([=](std::vector<double> submatrix) {
+                this->insert_submatrix(submatrix, w);
+              }));
+
+          futures.push_back(std::move(g));
+          recursives.push_back(std::move(recursive));
+        }
       }
+    } catch (...) {
+      // the tasks already started refer to this object
+      for (hpx::future<void> &f : futures) {
+        f.wait();
+      }
+      throw;
     }
 
     hpx::wait_all(futures);
+    // report failed work packages, wait_all does not
+    for (hpx::future<void> &f : futures) {
+      f.get();
+    }
+    futures.clear();
   }
   return C;
 }
-- 
2.43.0


From 8d0ff58c00578a8893f037b37d0c53f70020d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 04/21] fix: static_improved: do not split work packages of odd
 size

The last row and column of the package were lost.
---
 src/variants/static_improved.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 3657e0e..be5e905 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -135,6 +135,10 @@ static_improved::create_schedule(size_t num_localities) {
         if (w.N <= this->min_work_size) {
           continue;
         }
+        // cannot be quartered without losing the last row and column
+        if (w.N % 2 != 0) {
+          continue;
+        }
         // split work package between both locations
         uint64_t split_size = (w.N * w.N) / 2;
         // std::cout << "smallest_work_difference: " << smallest_work_difference
-- 
2.43.0


From 0ad7c99340b1b18ec075dec78bf93ec9e82750a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 05/21] fix: unregister component names when a multiplication
 ends

The names kept the first multiplication's components alive, so a later
multiplication of the session found the operands of the first one.
---
 src/variants/single.cpp          | 6 ++++--
 src/variants/static_improved.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/variants/single.cpp b/src/variants/single.cpp
index a749f37..9b92f3a 100644
--- a/src/variants/single.cpp
+++ b/src/variants/single.cpp
@@ -27,14 +27,16 @@ std::vector<double> single::matrix_multiply() {
   uint32_t comp_locality_multiplier =
       hpx::naming::get_locality_id_from_id(multiplier.get_id());
   multiplier.register_as(
-      "/multiplier#" + std::to_string(comp_locality_multiplier), false);
+      "/multiplier#" + std::to_string(comp_locality_multiplier), true)
+      .get();
   hpx::components::client<multiply_components::recursive> recursive =
       hpx::new_<hpx::components::client<multiply_components::recursive>>(
           hpx::find_here(), block_result, verbose);
   uint32_t comp_locality_recursive =
       hpx::naming::get_locality_id_from_id(recursive.get_id());
   recursive.register_as("/recursive#" + std::to_string(comp_locality_recursive),
-                        false);
+                        true)
+      .get();
   for (size_t repeat = 0; repeat < repetitions; repeat++) {
     auto f = hpx::async<
         multiply_components::recursive::distribute_recursively_action>(
diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index be5e905..6bc0709 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -233,7 +233,8 @@ std::vector<double> static_improved::matrix_multiply() {
     uint32_t comp_locality =
         hpx::naming::get_locality_id_from_id(multiplier.get_id());
     multiplier.register_as("/multiplier#" + std::to_string(comp_locality),
-                           false);
+                           true)
+        .get();
   }
 
   std::vector<hpx::future<void>> futures;
@@ -265,7 +266,8 @@ std::vector<double> static_improved::matrix_multiply() {
           uint32_t comp_locality =
               hpx::naming::get_locality_id_from_id(recursive.get_id());
           recursive.register_as("/recursive#" + std::to_string(comp_locality),
-                                false);
+                                true)
+              .get();
 
           hpx::future<std::vector<double>> f =
               hpx::async<recursive::distribute_recursively_action>(
-- 
2.43.0


From 4e1110759447378cd5edb3373d5e5eabb82c755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 06/21] fix: multiplier: use the blocked kernel only for sizes
 its blocks divide

The blocked kernel read and wrote out of bounds otherwise.
---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..3cbb223 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (the blocked kernel works in blocks of 4 and block_input)
+    if (block_input == 0 || block_result % 4 != 0 || N % block_input != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 0ba8dccd663d3847bdd24d83c8d908f6db6a882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:57 +0000
Subject: [PATCH 07/21] fix: combined: do not accumulate the result over
 repetitions

---
 src/variants/combined.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index cbb4bd5..ec4bf34 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -202,6 +202,9 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     policy.add_blocking({L3_X, L3_Y, L3_K_STEP},
                         {true, true, false}); // LLC blocking
 
+    // repetitions must not accumulate into the result of the previous one
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 165f776d38e4aa8793d09f9ebcf7f9636c377b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:57 +0000
Subject: [PATCH 08/21] fix: combined: remove flag written by all parallel
 tasks without synchronisation

---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index ec4bf34..1fb810d 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -208,10 +208,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -343,10 +341,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 4a2bb96ea62b284267c2170d2cfc5426381eaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 09/21] fix: index_iterator: blocks at the border do not reach
 past the iteration space

---
 src/memory_layout/index_iterator.hpp | 4 ++--
 src/variants/index_iterator.hpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..8cf51f4 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -315,14 +315,14 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &block, &max, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..800896a 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -318,7 +318,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &block, &max, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -326,7 +326,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
-- 
2.43.0


From 63d1e862cd81148312e989c22569c018d7afb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 10/21] fix: looped: cover the border when the blocks do not
 divide N

---
 src/variants/looped.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..f2df510 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -161,7 +161,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +202,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &block, &max, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +219,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
-- 
2.43.0


From 2393280b570aa7d5634de507061da3bbb669fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 11/21] fix: semi: stay inside the matrices when the blocks do
 not divide N

---
 src/variants/semi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..ad472e0 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,8 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // rounded up, because the result is calculated in blocks of 4x2
+  size_t N_fixed = (N + 3) / 4 * 4;
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -75,7 +76,8 @@ std::vector<double> semi::matrix_multiply() {
     double result_component_3_0 = 0.0;
     double result_component_3_1 = 0.0;
 
-    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {
+    const size_t k_inner_end = std::min<size_t>(block_input, N - k);
+    for (size_t k_inner = 0; k_inner < k_inner_end; k_inner++) {
       result_component_0_0 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
                               B_conflict[(y + 0) * N_fixed + k + k_inner];
       result_component_0_1 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
-- 
2.43.0


From ac00770ea1029821f007f34d98d12f76c47ad0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 12/21] fix: algorithms: stay inside the matrices when the
 blocks do not divide N

---
 src/variants/algorithms.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..ac25c62 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -172,6 +172,10 @@ public:
           size_t outer_x = block_x * block_result;
           size_t outer_y = block_y * block_result;
 
+          // blocks at the border are smaller if block_result doesn't divide N
+          size_t x_size = std::min(block_result, N - outer_x);
+          size_t y_size = std::min(block_result, N - outer_y);
+
           // use small intermediate matrices to reduce conflict misses
           std::vector<double> C_inner(block_result * block_result);
           std::fill(C_inner.begin(), C_inner.end(), 0.0);
@@ -187,20 +191,25 @@ public:
           for (size_t k_block = 0; k_block < N; k_block += block_input) {
             // should the matrix be smaller than 128 (all bigger than 128 are
             // also multiples of 128)
-            //                        size_t k_input_end = std::min(k_block +
-            //                        block_input, N);
+            size_t k_size = std::min<size_t>(block_input, N - k_block);
+
+            if (k_size < block_input) {
+              // the remainder of the small matrices does not contribute
+              std::fill(A_small.begin(), A_small.end(), 0.0);
+              std::fill(B_small.begin(), B_small.end(), 0.0);
+            }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t x = 0; x < block_result; x++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t x = 0; x < x_size; x++) {
+              for (size_t k = 0; k < k_size; k++) {
                 A_small[x * block_input + k] =
                     A[(outer_x + x) * N + k_block + k];
               }
             }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t y = 0; y < block_result; y++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t y = 0; y < y_size; y++) {
+              for (size_t k = 0; k < k_size; k++) {
                 B_small[y * block_input + k] =
                     B[(outer_y + y) * N + k_block + k];
               }
@@ -234,8 +243,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < x_size; x++) {
+            for (size_t y = 0; y < y_size; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From ec2089acbfd296709603d1ab55dadea2431211c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 13/21] fix: do not leave tasks behind when starting a subtask
 fails

---
 src/variants/components/recursive.cpp | 14 ++++++++------
 src/variants/static_improved.cpp      |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index 3faa092..c36af8d 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -77,15 +77,17 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
     g.reserve(submatrix_count);
     try {
       for (size_t i = 0; i < submatrix_count; i++) {
+        size_t x_offset = std::get<0>(offsets[i]);
+        size_t y_offset = std::get<1>(offsets[i]);
         hpx::future<std::vector<double>> f =
             hpx::async<recursive::distribute_recursively_action>(
-                self.get_id(), x + std::get<0>(offsets[i]),
-                y + std::get<1>(offsets[i]), n_new);
+                self.get_id(), x + x_offset, y + y_offset, n_new);
+        // captures no containers: copying one can fail after the task started
         g.push_back(
-            f.then(hpx::util::unwrapped([=, &C](std::vector<double> submatrix) {
-              this->extract_submatrix(C, std::move(submatrix),
-                                      std::get<0>(offsets[i]),
-                                      std::get<1>(offsets[i]), n_new);
+            f.then(hpx::util::unwrapped([this, x_offset, y_offset, n_new, &C](
+                std::vector<double> submatrix) {
+              this->extract_submatrix(C, std::move(submatrix), x_offset,
+                                      y_offset, n_new);
             })));
       }
     } catch (...) {
diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 6bc0709..8a65011 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -268,6 +268,8 @@ std::vector<double> static_improved::matrix_multiply() {
           recursive.register_as("/recursive#" + std::to_string(comp_locality),
                                 true)
               .get();
+          // keeps the name registered until all tasks are done
+          recursives.push_back(recursive);
 
           hpx::future<std::vector<double>> f =
               hpx::async<recursive::distribute_recursively_action>(
@@ -278,7 +280,6 @@ std::vector<double> static_improved::matrix_multiply() {
               }));
 
           futures.push_back(std::move(g));
-          recursives.push_back(std::move(recursive));
         }
       }
     } catch (...) {
-- 
2.43.0


From 2e6ae13e60ea82a4759c660d554d61cafbf74678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 14/21] fix: undo_tiling: return the result, handle non-square
 matrices

---
 src/memory_layout/tile_array.hpp | 2 ++
 src/memory_layout/util.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..8ea555e 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From 43af3448a96779e75223de74c04102f021bbeb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 15/21] fix: exceptions: what() must not return a pointer into
 a destroyed string

---
 src/memory_layout/memory_layout_exception.hpp | 4 ++--
 src/util/matrix_multiplication_exception.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..755affe 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,11 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message): message("memory_layout_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..5b8ae4f 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,11 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message): message("matrix_multiplication_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From 344968986b76e9c01dc73eb37d339d626a839962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 16/21] fix: kernel_test: pad the matrices, so that every size
 works

---
 src/reference_kernels/kernel_test.cpp | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index a057126..ca2265b 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -48,31 +48,35 @@ kernel_test::kernel_test(size_t N, std::vector<double> &A,
 
 std::vector<double> kernel_test::matrix_multiply() {
 
+  const size_t N_org = this->N;
+  // calculate with a size that is divided by all blocks, the rest is zero
+  const size_t N = (N_org + L3_K_STEP - 1) / L3_K_STEP * L3_K_STEP;
+
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
       (N + PADDING) * (N + PADDING));
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_padded(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N; i++) {
-    for (size_t j = 0; j < N; j++) {
-      A_padded[i * (N + PADDING) + j] = A[i * N + j];
+  for (size_t i = 0; i < N_org; i++) {
+    for (size_t j = 0; j < N_org; j++) {
+      A_padded[i * (N + PADDING) + j] = A[i * N_org + j];
     }
   }
 
   // is also padded if padding is enabled
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_trans(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N; i++) {
-    for (size_t j = 0; j < N; j++) {
-      A_trans[i * (N + PADDING) + j] = A[j * N + i];
+  for (size_t i = 0; i < N_org; i++) {
+    for (size_t j = 0; j < N_org; j++) {
+      A_trans[i * (N + PADDING) + j] = A[j * N_org + i];
     }
   }
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> B_padded(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N; i++) {
-    for (size_t j = 0; j < N; j++) {
-      B_padded[i * (N + PADDING) + j] = B[i * N + j];
+  for (size_t i = 0; i < N_org; i++) {
+    for (size_t j = 0; j < N_org; j++) {
+      B_padded[i * (N + PADDING) + j] = B[i * N_org + j];
     }
   }
 
@@ -262,12 +266,12 @@ std::vector<double> kernel_test::matrix_multiply() {
     }
   }
 
-  std::vector<double> C(N * N);
+  std::vector<double> C(N_org * N_org);
   std::fill(C.begin(), C.end(), 0.0);
 
-  for (size_t i = 0; i < N; i++) {
-    for (size_t j = 0; j < N; j++) {
-      C[i * N + j] = C_padded[i * (N + PADDING) + j];
+  for (size_t i = 0; i < N_org; i++) {
+    for (size_t j = 0; j < N_org; j++) {
+      C[i * N_org + j] = C_padded[i * (N + PADDING) + j];
     }
   }
 
-- 
2.43.0


From f395448781f1d8e140cb58cf6b79164319cd8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 17/21] fix: multBlocked4: sum over all k, not every fourth

---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From a9d7a4229c834d0deca7fd11481eb538785dd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 18/21] fix: multRegister, multGPUASM: align the arrays used by
 aligned loads and stores

---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index b405913..dcd7134 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -38,14 +38,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index bb34770..5acbe3a 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -27,7 +27,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -47,7 +47,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From a995b3347724706add6f8c81ee33c6cc902b393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 19/21] fix: multRegister: accumulate into the right register
 without FMA

---
 otherExperiments/multRegister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index 5acbe3a..6030f99 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -86,7 +86,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_fmadd_pd(Aregister1, Bregister1, resultReg[iii * JJ_BLOCKSIZE + jjj]);
 #else
 		  __m256d temp = _mm256_mul_pd(Aregister1, Bregister1);
-		  resultReg[jjj * JJ_BLOCKSIZE + iii] = _mm256_add_pd(temp, resultReg[jjj * JJ_BLOCKSIZE + iii]);		  
+		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_add_pd(temp, resultReg[iii * JJ_BLOCKSIZE + jjj]);		  
 #endif
 		}	      
 
-- 
2.43.0


From 0de92c143835ab3a011ccb61687bbeb4ec396b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:52 +0000
Subject: [PATCH 20/21] fix: multGPUASM: multiply on machines without FMA as
 well

---
 otherExperiments/multGPUASM.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index dcd7134..45543c0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -118,6 +118,23 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 	      resultChunk42 = _mm256_fmadd_pd(AAtemp4, BBtemp2, resultChunk42);
 	      resultChunk43 = _mm256_fmadd_pd(AAtemp4, BBtemp3, resultChunk43);
 	      resultChunk44 = _mm256_fmadd_pd(AAtemp4, BBtemp4, resultChunk44);
+	      #else
+	      resultChunk11 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp1), resultChunk11);
+	      resultChunk12 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp2), resultChunk12);
+	      resultChunk13 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp3), resultChunk13);
+	      resultChunk14 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp4), resultChunk14);
+	      resultChunk21 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp1), resultChunk21);
+	      resultChunk22 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp2), resultChunk22);
+	      resultChunk23 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp3), resultChunk23);
+	      resultChunk24 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp4), resultChunk24);
+	      resultChunk31 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp1), resultChunk31);
+	      resultChunk32 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp2), resultChunk32);
+	      resultChunk33 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp3), resultChunk33);
+	      resultChunk34 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp4), resultChunk34);
+	      resultChunk41 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp1), resultChunk41);
+	      resultChunk42 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp2), resultChunk42);
+	      resultChunk43 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp3), resultChunk43);
+	      resultChunk44 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp4), resultChunk44);
 	      #endif
 
 	      // resultChunk21 = _mm256_fmadd_pd(AAtemp2, BBtemp1, resultChunk21);
-- 
2.43.0


From 5bc16b33c600c60bc5699cd62aaca3b4be00d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 21/21] hook: leave kernel_test.cpp as shipped

---
 src/reference_kernels/kernel_test.cpp | 53 +++++++--------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index ca2265b..a35ab96 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -16,29 +16,6 @@
 #define X_REG 5
 #define Y_REG 8
 
-#ifdef MATMUL_SIM_SMALL_BLOCKS // simulation builds: same loops, small blocks
-#undef PADDING
-#define PADDING 8
-#undef L3_X
-#define L3_X 16
-#undef L3_Y
-#define L3_Y 32
-#undef L3_K_STEP
-#define L3_K_STEP 32
-#undef L2_X
-#define L2_X 16
-#undef L2_Y
-#define L2_Y 16
-#undef L2_K_STEP
-#define L2_K_STEP 8
-#undef L1_X
-#define L1_X 8
-#undef L1_Y
-#define L1_Y 8
-#undef L1_K_STEP
-#define L1_K_STEP 4
-#endif
-
 namespace kernel_test {
 
 kernel_test::kernel_test(size_t N, std::vector<double> &A,
@@ -48,35 +25,31 @@ kernel_test::kernel_test(size_t N, std::vector<double> &A,
 
 std::vector<double> kernel_test::matrix_multiply() {
 
-  const size_t N_org = this->N;
-  // calculate with a size that is divided by all blocks, the rest is zero
-  const size_t N = (N_org + L3_K_STEP - 1) / L3_K_STEP * L3_K_STEP;
-
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
       (N + PADDING) * (N + PADDING));
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_padded(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N_org; i++) {
-    for (size_t j = 0; j < N_org; j++) {
-      A_padded[i * (N + PADDING) + j] = A[i * N_org + j];
+  for (size_t i = 0; i < N; i++) {
+    for (size_t j = 0; j < N; j++) {
+      A_padded[i * (N + PADDING) + j] = A[i * N + j];
     }
   }
 
   // is also padded if padding is enabled
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_trans(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N_org; i++) {
-    for (size_t j = 0; j < N_org; j++) {
-      A_trans[i * (N + PADDING) + j] = A[j * N_org + i];
+  for (size_t i = 0; i < N; i++) {
+    for (size_t j = 0; j < N; j++) {
+      A_trans[i * (N + PADDING) + j] = A[j * N + i];
     }
   }
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> B_padded(
       (N + PADDING) * (N + PADDING));
-  for (size_t i = 0; i < N_org; i++) {
-    for (size_t j = 0; j < N_org; j++) {
-      B_padded[i * (N + PADDING) + j] = B[i * N_org + j];
+  for (size_t i = 0; i < N; i++) {
+    for (size_t j = 0; j < N; j++) {
+      B_padded[i * (N + PADDING) + j] = B[i * N + j];
     }
   }
 
@@ -266,12 +239,12 @@ std::vector<double> kernel_test::matrix_multiply() {
     }
   }
 
-  std::vector<double> C(N_org * N_org);
+  std::vector<double> C(N * N);
   std::fill(C.begin(), C.end(), 0.0);
 
-  for (size_t i = 0; i < N_org; i++) {
-    for (size_t j = 0; j < N_org; j++) {
-      C[i * N_org + j] = C_padded[i * (N + PADDING) + j];
+  for (size_t i = 0; i < N; i++) {
+    for (size_t j = 0; j < N; j++) {
+      C[i * N + j] = C_padded[i * (N + PADDING) + j];
     }
   }
 
-- 
2.43.0

