From 8ce36475b0d265f800e83e009bf780607f494a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 01/49] fix: start GARCH and GJR-GARCH fits from the grid point
 with the highest likelihood

---
 src/frds/algorithms/_garch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..9043fe5 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            loglikelihood = self.loglikelihood(resids, sigma2)
+            if loglikelihood > max_likelihood:
+                max_likelihood = loglikelihood
                 initial_params = params
         return initial_params
 
@@ -493,7 +495,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            loglikelihood = self.loglikelihood(resids, sigma2)
+            if loglikelihood > max_likelihood:
+                max_likelihood = loglikelihood
                 initial_params = params
         return initial_params
 
-- 
2.43.0


From 3503cfbbe3c54cfcba058d9ad4f0fe667a5c84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 02/49] fix: repeated GARCH fit returns the estimated
 parameters instead of None

---
 src/frds/algorithms/_garch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9043fe5..8f07a14 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
-- 
2.43.0


From 9896087d68dccc963e77bcdfcaa2c2f1d037b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/49] fix: do not re-estimate an already estimated GJR-GARCH
 model on every fit call

---
 src/frds/algorithms/_garch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8f07a14..6d63f5d 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -361,6 +361,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From c14fcbab16c1b41f71ce8729ab2a62a104a4aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/49] fix: start DCC fits from the grid point with the
 highest likelihood

---
 src/frds/algorithms/_mgarch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From 8a279009ac4f3205c2f2cb3f411681bf9cff6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 05/49] fix: GARCH variance, EWMA and bounds functions honour
 array layout and dtype

---
 src/frds/algorithms/_garch.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 6d63f5d..7ec300c 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -188,6 +188,9 @@ class GARCHModel:
         Returns:
             np.ndarray: conditional variance
         """
+        # The extension reads raw memory, so layout and dtype must be as it assumes
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
@@ -282,6 +285,7 @@ class GARCHModel:
         Returns:
             float: adjusted conditional variance
         """
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.bounds_check(sigma2, var_bounds)
         lower, upper = var_bounds[0], var_bounds[1]
@@ -324,6 +328,8 @@ class GARCHModel:
         Returns:
             np.ndarray: Array containing the conditional variance estimates.
         """
+        # The extension reads raw memory, so layout and dtype must be as it assumes
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.ewma(resids, initial_value, lam)
         T = len(resids)
@@ -429,6 +435,9 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             np.ndarray: conditional variance
         """
+        # The extension reads raw memory, so layout and dtype must be as it assumes
+        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
         if USE_CPP_EXTENSION:
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
@@ -459,6 +468,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        resids = np.asarray(resids, dtype=np.float64)
         sigma2 = np.zeros_like(resids)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
-- 
2.43.0


From 952c3d4c1260e24db449d82105a811373ca0ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 06/49] fix: import blsprice from where it lives in the
 modified Merton model

---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From 2adf639c46608f5f44510e8aff64d2b613ddf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 07/49] fix: Merton objective penalises the negative trial
 values, not their clamped zeros

---
 src/frds/measures/modified_merton/merton_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index fc1d910..3a9ec5e 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,7 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 27f60187e65950409763640641a163ebcb0211d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 08/49] fix: single-cohort objective accepts a scalar state and
 leaves the caller's parameters alone

---
 .../measures/modified_merton/mod_single_cohort_solution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..d931a49 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -1,15 +1,18 @@
+import numpy as np
+
 from frds.measures.modified_merton.mod_single_cohort_computation import (
     mod_single_cohort_computation,
 )
 
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
-    fs = b[0]
+    fs = np.atleast_1d(b[0])
+    param = list(param)
     param[2] = b[1]
 
     # fmt: off
     Lt, Bt, Et, LH, BH, EH, sigEt, mFt, default, mdef, face, FH, Gt, mu, F, sigLt = mod_single_cohort_computation(fs, param, N, Nsim2)
     # fmt: on
-    err = [E - Et, sigE - sigEt]
+    err = np.concatenate((E - Et, sigE - sigEt))
 
     return err
-- 
2.43.0


From 36a5d68efd4dde76fa61d2950ae1f53fb800983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 09/49] fix: isolation trees no longer accumulate the samples
 of earlier trees

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..8b7bd26 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -162,6 +162,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
       static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
-- 
2.43.0


From 8e3f14c352804579a754812c3f8dd68a266f3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 10/49] fix: isolation forest is the same whatever the number
 of worker threads

---
 .../isolation_forest/IsolationForest.cpp      | 20 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      |  4 +---
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 8b7bd26..b05368f 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,9 +145,8 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
+  return std::thread([this, first_tree, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -156,26 +155,26 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = first_tree; i < first_tree + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      std::mt19937_64 randomGen(i + random_offset);
       sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      // no need to lock because the i-th tree is grown in one thread
+      this->trees[i] = std::move(tree);
     }
   });
 };
 
 void IsolationForest::grow() {
   const auto jobs_per_processor = this->forestSize / this->workers;
+  size_t first_tree = 0;
   std::vector<std::thread> ts;
   ts.reserve(this->workers);
 
@@ -185,7 +184,8 @@ void IsolationForest::grow() {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(first_tree, jobs);
+    first_tree += jobs;
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..3b884c1 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,6 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -52,7 +51,6 @@ class IsolationForest {
   const size_t n_num_attrs, n_char_attrs, nObs;
   const unsigned int workers = std::thread::hardware_concurrency();
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -61,7 +59,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t first_tree, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From 05f5ec61d3543b504ebb94a55ba97ce82384d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 11/49] fix: isolation trees route missing values as they were
 grown

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index b05368f..935af88 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,9 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Same rule as in growTree: NAN is "smaller" than any value
+    if (isnan(node->splitValue) ? isnan(val)
+                                : (isnan(val) || val < node->splitValue)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 15131d656a95e76e6769f37cc4ac6950a426dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 12/49] fix: isolation forest does not read past text cells of
 full width

---
 .../isolation_forest/IsolationForest.cpp          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 935af88..fa6c35a 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -57,16 +57,18 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    // A text as long as the array's item size is not NUL-terminated
+    const size_t max_len = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, max_len);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
+      const auto obsVal_len = strnlen(obsVal, max_len);
       if (obsVal_len < val_len) {
         lobs.push_back(i);
       } else if (obsVal_len > val_len) {
         robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      } else if (memcmp(obsVal, val, val_len) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -133,13 +135,14 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
+    const size_t max_len = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, max_len);
+    const auto splitVal_len = strnlen(node->splitChar, max_len);
     if (val_len < splitVal_len) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else if (val_len > splitVal_len) {
       return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    } else if (memcmp(val, node->splitChar, val_len) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 4a0b9e8a11b77654abf5dbe5e5f809219f835463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 13/49] fix: aggregate SRISK of a single firm without systemic
 events

---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..1788e91 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.clip(srisk, 0.0, None))
-- 
2.43.0


From c194ae78ffcedf61f257bf61c4522d2f0dd6e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 14/49] fix: distress insurance premium has a slot for a total
 loss

---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..6055f87 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # The slots are 0, 1, ..., N*100, the last one being a total loss
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -83,7 +84,7 @@ class DistressInsurancePremium:
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From 52ebf910f8ecaaf816c47d338b7ece37040b4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 15/49] fix: distress insurance premium uses the threshold
 given, not one percent less

---
 src/frds/measures/_distress_insurance_premium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 6055f87..541d0f9 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,7 +78,8 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        # Rounding first, because for example 0.29 * 100 is 28.999999999999996
+        pct_threshold = int(round(default_threshold * 100, 9))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-- 
2.43.0


From 3f87f6e7238d0acd9dca4ff6a8b23f0db8ec1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 16/49] fix: distress insurance premium is zero, not nan,
 without large losses

---
 .../measures/_distress_insurance_premium.py   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 541d0f9..3fc844f 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -81,12 +81,13 @@ class DistressInsurancePremium:
         # Rounding first, because for example 0.29 * 100 is 28.999999999999996
         pct_threshold = int(round(default_threshold * 100, 9))
 
-        # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
-        prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-
-        exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
-            prob_losses[pct_threshold * n_banks :],
-        ) / (100 * prob_great_losses)
-
-        return exp_losses * prob_great_losses
+        # The expected losses when they are great than 0.15 the total liabilities i.e. > 0.15*N,
+        # times the probability of such losses. As this is the sum of losses weighted by their
+        # unconditional probabilities, it is zero if there are no such losses
+        return (
+            np.dot(
+                np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
+                prob_losses[pct_threshold * n_banks :],
+            )
+            / 100
+        )
-- 
2.43.0


From ea1ed9724a598f51ccd7a9c5dbd6612b0136a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 17/49] fix: spreads and price impact use trade directions that
 are not numpy arrays

---
 src/frds/measures/price_impact.py | 3 ++-
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..af8b5f9 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +37,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 76fc140893ff0ba0dfa8d5e4418d3cec179d72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 18/49] fix: price impact refuses prices of another shape

---
 src/frds/measures/price_impact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index af8b5f9..9fe63e0 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,10 +25,11 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
+    price = np.asarray(price)
     midpoint_later = np.asarray(midpoint_later)
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
-    assert midpoint_later.shape == midpoint.shape == volume.shape
+    assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
         if pct_spread:
-- 
2.43.0


From 7e5aee72de04aa73760031058317a58c1734c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 19/49] fix: order book slopes refuse prices of another shape

---
 src/frds/measures/lob_slope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 4793149..dbc57a3 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -55,6 +55,7 @@ def DGGW_ask_slope(
     n, k = ask_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert ask_price_highest_level.shape == mid_point.shape
 
     slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)
     return np.nanmean(slope)
@@ -94,6 +95,7 @@ def DGGW_bid_slope(
     n, k = bid_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert bid_price_highest_level.shape == mid_point.shape
 
     slope = np.sum(bid_size, axis=1) / np.abs((bid_price_highest_level - mid_point))
     return np.nanmean(slope)
@@ -114,6 +116,7 @@ def DGGW_bid_side_slope_difference(
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
+    assert bid_size.shape == bid_price.shape
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
-- 
2.43.0


From f72e253eb9f36cd3462839506144998514235b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 20/49] fix: absorption ratio is real when there are more
 assets than days

---
 src/frds/measures/_absorption_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..6b101e4 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -48,4 +48,4 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From 5ccf08335655ea82e0fb6f3a6c87cf87a47983b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 21/49] fix: PIN estimation reports success of the latest
 estimation only

---
 src/frds/measures/_probability_of_informed_trading.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..89b473d 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -72,6 +72,7 @@ class PIN:
         ]
 
         # Reset params
+        self.estimation_success = False
         self.parameters = type(self).Parameters()
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
-- 
2.43.0


From 8afedbb0c1cc5ae16aa2a7b12588eae54ba56370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 22/49] fix: sample dataset is not exposed to changes by its
 users

---
 src/frds/datasets/_stocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index 2a210ff..a60998d 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,7 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us
+        return self._stocks_us.copy()
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From 12860b45872a86886458973019f3dda4cc2f42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 23/49] fix: compiled DCC reverts to the correlation matrix, as
 documented and as the fallback does

---
 src/frds/algorithms/utils/mgarch.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..8d08a7e 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -26,16 +26,19 @@ std::vector<double> conditional_correlations(double a, double b,
   }
 
   // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
-  double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
+  double mean1 = 0.0, mean2 = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    mean1 += z1[t] / T;
+    mean2 += z2[t] / T;
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  double s11 = 0.0, s12 = 0.0, s22 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    s11 += (z1[t] - mean1) * (z1[t] - mean1);
+    s12 += (z1[t] - mean1) * (z2[t] - mean2);
+    s22 += (z2[t] - mean2) * (z2[t] - mean2);
+  }
+  double q_11_bar = 1.0, q_22_bar = 1.0;
+  double q_12_bar = s12 / std::sqrt(s11 * s22);
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 40453df482fe8711d9d9c880a6fa043636d0c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 24/49] fix: bivariate GARCH models refuse return series of
 different lengths

---
 src/frds/algorithms/_mgarch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index f38fdf3..c1e5ccf 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -49,6 +49,7 @@ class GARCHModel_CCC:
         """
         self.returns1 = np.asarray(returns1, dtype=np.float64)
         self.returns2 = np.asarray(returns2, dtype=np.float64)
+        assert self.returns1.shape == self.returns2.shape
         self.model1 = GARCHModel(self.returns1)
         self.model2 = GARCHModel(self.returns2)
         self.estimation_success = False
@@ -243,6 +244,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
         if isinstance(returns2, GARCHModel):
             self.model2 = returns2
             self.returns2 = self.model2.returns
+        assert self.returns1.shape == self.returns2.shape
         self.estimation_success = False
         self.parameters = type(self).Parameters()
 
@@ -462,6 +464,7 @@ class GJRGARCHModel_DCC(GARCHModel_DCC):
         if isinstance(returns2, GJRGARCHModel):
             self.model2 = returns2
             self.returns2 = self.model2.returns
+        assert self.returns1.shape == self.returns2.shape
         self.estimation_success = False
         self.parameters = type(self).Parameters()
 
-- 
2.43.0


From c622a13af57d35459a787e66dba579050ce72b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 25/49] fix: conditional variances left by a GARCH fit are
 those of the reported parameters

---
 src/frds/algorithms/_garch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 7ec300c..6c5369b 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -98,6 +98,8 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation was a finite-difference step away from the optimum
+                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
 
         return self.parameters
 
@@ -414,6 +416,8 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation was a finite-difference step away from the optimum
+                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
 
         return self.parameters
 
-- 
2.43.0


From 782e1167a2f8e7dfe19c9337907722ff22f3e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 26/49] fix: contingent claim analysis starts its solver from a
 feasible asset value whatever the scale

---
 src/frds/measures/_contingent_claim_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_contingent_claim_analysis.py b/src/frds/measures/_contingent_claim_analysis.py
index f2d955b..9b080a8 100644
--- a/src/frds/measures/_contingent_claim_analysis.py
+++ b/src/frds/measures/_contingent_claim_analysis.py
@@ -46,10 +46,14 @@ class ContingentClaimAnalysis:
             return eqty, sigm
 
         # We need to solve a system of non-linear equations for asset price and asset volatility
-        # x = [equity, volatility]
+        # x = [sqrt(asset price), sqrt(asset volatility)]
         x = fsolve(
             cca_func,
-            (equity, volatility),  # initial values set to equity and its volatility
+            # initial values: the asset is worth equity plus debt, and bears the equity risk
+            (
+                sqrt(equity + default_barrier),
+                sqrt(volatility * equity / (equity + default_barrier)),
+            ),
             args=(
                 equity,
                 volatility,
-- 
2.43.0


From d86e7adebc46af51f446c64d4abdce9a9aadc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 27/49] fix: spreads and price impact compute in floating point
 whatever integer type holds prices and volumes

---
 src/frds/measures/price_impact.py | 10 +++++-----
 src/frds/measures/spread.py       | 22 +++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 9fe63e0..ba17563 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,10 +25,10 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
-    price = np.asarray(price)
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=np.float64)
+    midpoint_later = np.asarray(midpoint_later, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -38,7 +38,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=np.float64)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index ab90809..4ce3bfd 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -13,8 +13,8 @@ def quoted_spread(bid: np.ndarray, ask: np.ndarray, pct_spread=True) -> float:
     Returns:
         float: quoted spread
     """
-    bid = np.asarray(bid)
-    ask = np.asarray(ask)
+    bid = np.asarray(bid, dtype=np.float64)
+    ask = np.asarray(ask, dtype=np.float64)
     assert bid.shape == ask.shape
     if pct_spread:
         midpt = (bid + ask) / 2
@@ -46,9 +46,9 @@ def effective_spread(
     Returns:
         float: effective spread
     """
-    price = np.asarray(price)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert price.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -58,7 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=np.float64)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -94,10 +94,10 @@ def realized_spread(
     Returns:
         float: realized spread
     """
-    price = np.asarray(price)
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=np.float64)
+    midpoint_later = np.asarray(midpoint_later, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -107,7 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=np.float64)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 4563d590e380edfdb1db2e3cf36eb8e55d596f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 28/49] fix: order-book measures compute in floating point
 whatever integer type holds sizes and prices

---
 src/frds/measures/lob_slope.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index dbc57a3..78bd964 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -51,6 +51,9 @@ def DGGW_ask_slope(
         >>> DGGW_ask_slope(ask_size, ask_price_highest_level, mid_point)
         1136.8718207500128
     """
+    ask_size = np.asarray(ask_size, dtype=np.float64)
+    ask_price_highest_level = np.asarray(ask_price_highest_level, dtype=np.float64)
+    mid_point = np.asarray(mid_point, dtype=np.float64)
     assert len(ask_size.shape) > 1
     n, k = ask_size.shape
     assert k > 1  # at least two levels
@@ -91,6 +94,9 @@ def DGGW_bid_slope(
         >>> DGGW_bid_slope(bid_size, bid_price_highest_level, mid_point)
         5316.539811566988
     """
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    bid_price_highest_level = np.asarray(bid_price_highest_level, dtype=np.float64)
+    mid_point = np.asarray(mid_point, dtype=np.float64)
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
@@ -113,6 +119,8 @@ def DGGW_bid_side_slope_difference(
     Returns:
         float: bid-side slope difference
     """
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    bid_price = np.asarray(bid_price, dtype=np.float64)
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
@@ -167,6 +175,8 @@ def DGGW_scaled_depth_difference(bid_size: np.ndarray, ask_size: np.ndarray) ->
         >>> DGGW_scaled_depth_difference(bid_size, ask_size)
         >>> 0.2697934067000831
     """
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    ask_size = np.asarray(ask_size, dtype=np.float64)
     assert bid_size.shape == ask_size.shape
     bid_depth = np.sum(bid_size, axis=1)
     ask_depth = np.sum(ask_size, axis=1)
-- 
2.43.0


From cdea789976c19bc317e01a66944cd8e5a3c0b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 29/49] fix: PIN likelihoods compute in double precision
 whatever type holds the counts

---
 src/frds/measures/_probability_of_informed_trading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 89b473d..0de36d3 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -40,8 +40,9 @@ class PIN:
         assert isinstance(B, np.ndarray)
         assert isinstance(S, np.ndarray)
         assert B.shape == S.shape
-        self.B = B
-        self.S = S
+        # Unsigned counts would wrap around when negated in the likelihood
+        self.B = np.asarray(B, dtype=np.float64)
+        self.S = np.asarray(S, dtype=np.float64)
         self.T = len(B)
         self.estimation_success = False
         self.parameters = type(self).Parameters()
-- 
2.43.0


From 77f94240fede634a4d84b67a2abf08627da49aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 30/49] fix: distress thresholds are not rounded to the storage
 type of the default probabilities

---
 src/frds/measures/_distress_insurance_premium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 3fc844f..cffb6e6 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -42,7 +42,7 @@ class DistressInsurancePremium:
         norm = NormalDist()
         default_thresholds = np.fromiter(
             (norm.inv_cdf(i) for i in self.default_prob),
-            self.default_prob.dtype,
+            np.float64,
             count=n_banks,
         )
         R = np.linalg.cholesky(self.correlations).T
-- 
2.43.0


From abc9c8e73fde900ced7fd1ffefea815d0c364c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 31/49] fix: SRISK of integer equity and debt does not overflow

---
 src/frds/measures/_srisk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index 1788e91..d6ad4f2 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -45,6 +45,9 @@ class SRISK:
             assert isinstance(D, np.ndarray) and isinstance(W, np.ndarray)
             assert D.shape == W.shape
             assert D.shape == np.zeros((n_firms,)).shape
+            # Sums of equity and debt may overflow integer types
+            W = np.asarray(W, dtype=np.float64)
+            D = np.asarray(D, dtype=np.float64)
 
         self.firm_returns = firm_returns
         self.market_returns = market_returns
-- 
2.43.0


From 9f470fb3a21911024c2239a67af44fc233b1ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 32/49] fix: compiled variance functions refuse parameters,
 bounds and series that are too short

---
 src/frds/algorithms/utils/utils_module.cpp | 72 +++++++++++++++++-----
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..f0c9603 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,6 +13,45 @@
 
 #include "numpy/arrayobject.h"
 
+// Extract the parameters. Returns false with an exception set on failure.
+static bool get_params(PyObject *params_obj, size_t n_params,
+                       std::vector<double> &params) {
+  PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return false;
+  }
+  PyObject *item;
+  while ((item = PyIter_Next(iter))) {
+    params.push_back(PyFloat_AsDouble(item));
+    Py_DECREF(item);
+    if (PyErr_Occurred()) {
+      break;
+    }
+  }
+  Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return false;
+  }
+  if (params.size() != n_params) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return false;
+  }
+  return true;
+}
+
+// Check that there are residuals and a pair of bounds for each of them.
+// Returns false with an exception set otherwise.
+static bool check_dimensions(PyArrayObject *resids, PyArrayObject *var_bounds) {
+  if (PyArray_NDIM(resids) != 1 || PyArray_NDIM(var_bounds) != 2 ||
+      PyArray_DIM(resids, 0) < 1 ||
+      PyArray_DIM(var_bounds, 0) < PyArray_DIM(resids, 0) ||
+      PyArray_DIM(var_bounds, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return false;
+  }
+  return true;
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   PyArrayObject *resids_in;
@@ -24,6 +63,12 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // Check dimensions
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_DIM(resids_in, 0) < 1) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
@@ -50,6 +95,11 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  if (PyArray_SIZE(var_bounds_in) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
   // Extract lower and upper bounds
   double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
   double lower = bounds_ptr[0];
@@ -76,20 +126,15 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  if (!check_dimensions(resids_in, var_bounds_in)) {
     return NULL;
   }
 
   // Extract parameters
   std::vector<double> params;
-  PyObject *iter = PyObject_GetIter(params_obj);
-  PyObject *item;
-  while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
-    Py_DECREF(item);
+  if (!get_params(params_obj, 3, params)) {
+    return NULL;
   }
-  Py_DECREF(iter);
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
@@ -123,20 +168,15 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  if (!check_dimensions(resids_in, var_bounds_in)) {
     return NULL;
   }
 
   // Extract parameters
   std::vector<double> params;
-  PyObject *iter = PyObject_GetIter(params_obj);
-  PyObject *item;
-  while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
-    Py_DECREF(item);
+  if (!get_params(params_obj, 4, params)) {
+    return NULL;
   }
-  Py_DECREF(iter);
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
-- 
2.43.0


From cd3ade008cede721504dc28516012c0626403530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 33/49] fix: isolation forest refuses forest and tree sizes
 that are not positive

---
 src/frds/algorithms/isolation_forest/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index 17e3d9b..69b2c91 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -27,6 +27,8 @@ def anomaly_scores(
     Returns:
         pd.DataFrame: indexed DataFrame of the anomaly scores.
     """
+    if forest_size < 1 or tree_size < 1:
+        raise ValueError("forest_size and tree_size must be positive")
     exclude_cols = [] if exclude_cols is None else exclude_cols
     data = data.drop(columns=exclude_cols)
     obs = data.index
-- 
2.43.0


From 620209a5a737111b4362791b1029213bdd055b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 34/49] fix: GARCH functions hand aligned arrays to the
 compiled extension

---
 src/frds/algorithms/_garch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 6c5369b..19ee5fd 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -38,7 +38,7 @@ class GARCHModel:
 
         .. note:: ``returns`` is best to be percentage returns for optimization
         """
-        self.returns = np.asarray(returns, dtype=np.float64)
+        self.returns = np.require(returns, np.float64, ["A"])
         self.estimation_success = False
         self.loglikelihood_final = np.nan
         self.parameters = type(self).Parameters()
@@ -191,8 +191,8 @@ class GARCHModel:
             np.ndarray: conditional variance
         """
         # The extension reads raw memory, so layout and dtype must be as it assumes
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        resids = np.require(resids, np.float64, ["C", "A"])
+        var_bounds = np.require(var_bounds, np.float64, ["C", "A"])
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
@@ -287,7 +287,7 @@ class GARCHModel:
         Returns:
             float: adjusted conditional variance
         """
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        var_bounds = np.require(var_bounds, np.float64, ["C", "A"])
         if USE_CPP_EXTENSION:
             return ext.bounds_check(sigma2, var_bounds)
         lower, upper = var_bounds[0], var_bounds[1]
@@ -331,7 +331,7 @@ class GARCHModel:
             np.ndarray: Array containing the conditional variance estimates.
         """
         # The extension reads raw memory, so layout and dtype must be as it assumes
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
+        resids = np.require(resids, np.float64, ["C", "A"])
         if USE_CPP_EXTENSION:
             return ext.ewma(resids, initial_value, lam)
         T = len(resids)
@@ -440,8 +440,8 @@ class GJRGARCHModel(GARCHModel):
             np.ndarray: conditional variance
         """
         # The extension reads raw memory, so layout and dtype must be as it assumes
-        resids = np.ascontiguousarray(resids, dtype=np.float64)
-        var_bounds = np.ascontiguousarray(var_bounds, dtype=np.float64)
+        resids = np.require(resids, np.float64, ["C", "A"])
+        var_bounds = np.require(var_bounds, np.float64, ["C", "A"])
         if USE_CPP_EXTENSION:
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
-- 
2.43.0


From 98cba7a45d801817cba0a69d48d8f1c97cf49091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 35/49] fix: isolation forest refuses data without numeric or
 text columns

---
 src/frds/algorithms/isolation_forest/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index 69b2c91..fff56b0 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -36,6 +36,8 @@ def anomaly_scores(
     char_data = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_).T
     # convert input dataset from an indexed `pd.DataFrame` to a `np.ndarray`
     num_data = data.select_dtypes(include=[np.number]).to_numpy(dtype=np.double).T
+    if len(num_data) + len(char_data) == 0:
+        raise ValueError("data must have at least one numeric or text column")
     _, n_obs = num_data.shape
     # make an empty array to store calculated anomaly scores
     a_scores = np.empty(n_obs, dtype=np.double)
-- 
2.43.0


From 0657610dca03fb95a28293c2ea50d5f8526646e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 36/49] fix: isolation forest works when the number of
 processors is unknown

---
 src/frds/algorithms/isolation_forest/IsolationForest.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 3b884c1..f7bd869 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,6 +2,7 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <algorithm>
 #include <memory>
 #include <random>
 #include <thread>
@@ -49,7 +50,9 @@ class IsolationForest {
   std::uniform_int_distribution<size_t> uniformDist;
   const size_t treeSize, forestSize, randomSeed, maxTreeHeight;
   const size_t n_num_attrs, n_char_attrs, nObs;
-  const unsigned int workers = std::thread::hardware_concurrency();
+  // The number of processors is 0 when it is not known
+  const unsigned int workers =
+      std::max(1u, std::thread::hardware_concurrency());
   std::vector<std::unique_ptr<IsolationTree>> trees;
 
   /* methods */
-- 
2.43.0


From c21f62217e41ee9ca067dcd469aa28794de704e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 37/49] fix: the variance bounds of the pure-Python GARCH code
 keep a missing variance missing

---
 src/frds/algorithms/_garch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 19ee5fd..1252b1a 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -291,7 +291,8 @@ class GARCHModel:
         if USE_CPP_EXTENSION:
             return ext.bounds_check(sigma2, var_bounds)
         lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
+        if lower > sigma2:  # unlike max(), this keeps a missing sigma2 missing
+            sigma2 = lower
         if sigma2 > upper:
             if not np.isinf(sigma2):
                 sigma2 = upper + np.log(sigma2 / upper)
-- 
2.43.0


From decf338d9febb0c4bc130e09e053adffee726146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 38/49] fix: the modified Merton simulation leaves the warning
 filters of its caller alone

---
 .../measures/modified_merton/mod_merton_simulation.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 1cc1622..ce0edf8 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -119,13 +119,15 @@ def simulate(Nsim=10000, direc=None):
     fs1 = []
     bookF1 = []
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-
     # Merton model fit to equity value and volatility from our model
     for k in range(K):
         initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
 
-        bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore", category=RuntimeWarning)
+            bout = fsolve(
+                lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb
+            )
 
         A = bout[0]
         s = max(bout[1], 0.0001)
@@ -140,8 +142,6 @@ def simulate(Nsim=10000, direc=None):
         mertA[k] = A
         merts[k] = s
 
-    warnings.filterwarnings("default")
-
     mktCR = Et / (Et + Bt)
     sp = (1 / H) * np.log((D * np.exp(-r * H)) / Bt)
 
-- 
2.43.0


From b5757993b1148f8b6a096d8f3dd67c1c45b9392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 39/49] fix: figure 3 of the modified Merton simulation shows
 bank equity, not asset value

---
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index ce0edf8..17c34b7 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -338,7 +338,7 @@ def simulate(Nsim=10000, direc=None):
     # Figure 3 Panel (a)
     plt.figure()
     plt.scatter(mFt, Et)
-    plt.ylabel("Bank asset value", fontsize=12)
+    plt.ylabel("Bank equity value", fontsize=12)
     plt.xlabel("Aggregate borrower asset value", fontsize=12)
     # Save the figure as a PDF
     plt.savefig(os.path.join(direc, "figure3_mVe.pdf"), bbox_inches="tight")
-- 
2.43.0


From 01e98dad3580451003bf98e34fe3402cc6ada79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 40/49] fix: modifying the index or columns of a returned
 sample frame shows in no later frame

---
 src/frds/datasets/_stocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index a60998d..2cbe2db 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,11 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us.copy()
+        df = self._stocks_us.copy()
+        # DataFrame.copy() shares the data of the index and of the columns
+        df.index = df.index.copy(deep=True)
+        df.columns = df.columns.copy(deep=True)
+        return df
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From 46a0e0c36bf5ac14118cf84ea8068466650b6733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:23 +0000
Subject: [PATCH 41/49] fix: isolation forest tells integers beyond double
 precision apart

---
 src/frds/algorithms/isolation_forest/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index fff56b0..dd3fb07 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -35,7 +35,13 @@ def anomaly_scores(
     # We need to differentiate numeric columns and character ones
     char_data = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_).T
     # convert input dataset from an indexed `pd.DataFrame` to a `np.ndarray`
-    num_data = data.select_dtypes(include=[np.number]).to_numpy(dtype=np.double).T
+    num_cols = data.select_dtypes(include=[np.number])
+    for i, dtype in enumerate(num_cols.dtypes):
+        col = num_cols.iloc[:, i]
+        # only the order of values matters: ranks stand for integers beyond double precision
+        if dtype.kind in "iu" and ((col > 2**53) | (col < -(2**53))).any():
+            num_cols.isetitem(i, col.rank(method="dense"))
+    num_data = num_cols.to_numpy(dtype=np.double).T
     if len(num_data) + len(char_data) == 0:
         raise ValueError("data must have at least one numeric or text column")
     _, n_obs = num_data.shape
-- 
2.43.0


From 25422728ac57c5541b5d87e8e08b51e5121f7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 42/49] fix: isolation forest accepts text beyond ASCII

---
 src/frds/algorithms/isolation_forest/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index dd3fb07..8cbfc7f 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -33,7 +33,10 @@ def anomaly_scores(
     data = data.drop(columns=exclude_cols)
     obs = data.index
     # We need to differentiate numeric columns and character ones
-    char_data = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_).T
+    char_data = data.select_dtypes(include=[object]).to_numpy(dtype=object)
+    # text beyond ASCII is not converted to bytes implicitly
+    encode = np.frompyfunc(lambda v: v.encode() if isinstance(v, str) else v, 1, 1)
+    char_data = encode(char_data).astype(np.string_).T
     # convert input dataset from an indexed `pd.DataFrame` to a `np.ndarray`
     num_cols = data.select_dtypes(include=[np.number])
     for i, dtype in enumerate(num_cols.dtypes):
-- 
2.43.0


From a3d7ccc80e8c84cd128c510d720a8bac905f173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 43/49] fix: isolation forest uses text held in pandas string
 columns

---
 src/frds/algorithms/isolation_forest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index 8cbfc7f..787ca5b 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -33,7 +33,7 @@ def anomaly_scores(
     data = data.drop(columns=exclude_cols)
     obs = data.index
     # We need to differentiate numeric columns and character ones
-    char_data = data.select_dtypes(include=[object]).to_numpy(dtype=object)
+    char_data = data.select_dtypes(include=[object, "string"]).to_numpy(dtype=object)
     # text beyond ASCII is not converted to bytes implicitly
     encode = np.frompyfunc(lambda v: v.encode() if isinstance(v, str) else v, 1, 1)
     char_data = encode(char_data).astype(np.string_).T
-- 
2.43.0


From 49908ac750af8799e3572c8c50a01f1f99d2c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 44/49] fix: contingent claim analysis starts its solver from
 discounted debt, so that it converges for negative rates

---
 src/frds/measures/_contingent_claim_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/_contingent_claim_analysis.py b/src/frds/measures/_contingent_claim_analysis.py
index 9b080a8..a174904 100644
--- a/src/frds/measures/_contingent_claim_analysis.py
+++ b/src/frds/measures/_contingent_claim_analysis.py
@@ -47,12 +47,16 @@ class ContingentClaimAnalysis:
 
         # We need to solve a system of non-linear equations for asset price and asset volatility
         # x = [sqrt(asset price), sqrt(asset volatility)]
+        initial_asset = equity + default_barrier * exp(
+            -risk_free_rate * time_to_maturity
+        )
         x = fsolve(
             cca_func,
-            # initial values: the asset is worth equity plus debt, and bears the equity risk
+            # initial values: the asset is worth equity plus the discounted debt, and bears
+            # the equity risk
             (
-                sqrt(equity + default_barrier),
-                sqrt(volatility * equity / (equity + default_barrier)),
+                sqrt(initial_asset),
+                sqrt(volatility * equity / initial_asset),
             ),
             args=(
                 equity,
-- 
2.43.0


From 40290471577fa88b774bf8eb2362c99d5f64edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:51 +0000
Subject: [PATCH 45/49] fix: contingent claim simulations round the horizon in
 steps before requiring it to be whole

---
 src/frds/measures/modified_merton/mod_merton_computation.py     | 2 ++
 .../measures/modified_merton/mod_single_cohort_computation.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/frds/measures/modified_merton/mod_merton_computation.py b/src/frds/measures/modified_merton/mod_merton_computation.py
index 5cd95d8..106fc1b 100644
--- a/src/frds/measures/modified_merton/mod_merton_computation.py
+++ b/src/frds/measures/modified_merton/mod_merton_computation.py
@@ -45,6 +45,8 @@ def mod_merton_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     # This problem also presents in Nagel's original Matlab code
     HN = H * (N / T)  # maturity in N time
     if isinstance(HN, float):
+        # Rounding first, because for example 0.28 * (25 / 1) is 7.000000000000001
+        HN = round(HN, 9)
         assert HN.is_integer()
         HN = int(HN)
     szfs = fs.shape[0]
diff --git a/src/frds/measures/modified_merton/mod_single_cohort_computation.py b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
index 247bd09..e8e1b5e 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_computation.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
@@ -46,6 +46,8 @@ def mod_single_cohort_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     # This problem also presents in Nagel's original Matlab code
     HN = H * (N / T) # maturity in N time
     if isinstance(HN, float):
+        # Rounding first, because for example 0.28 * (25 / 1) is 7.000000000000001
+        HN = round(HN, 9)
         assert HN.is_integer()
         HN = int(HN)
     szfs = fs.shape[0]
-- 
2.43.0


From bc0466af52482dbc92153d4b9f9f287df9d36f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:51 +0000
Subject: [PATCH 46/49] fix: PIN keeps the order intensities off zero, so that
 sparse flow does not abort the optimiser

---
 src/frds/measures/_probability_of_informed_trading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 0de36d3..6457122 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -67,8 +67,9 @@ class PIN:
         bounds = [
             (0.0, 1.0),  # Bounds for alpha
             (0.0, 1.0),  # Boudns for delta
-            (0.0, np.inf),  # Lower bound for eB
-            (0.0, np.inf),  # Lower bound for eS
+            # Off zero, where the likelihood of a day without such orders is undefined
+            (1e-6, np.inf),  # Lower bound for eB
+            (1e-6, np.inf),  # Lower bound for eS
             (0.0, np.inf),  # Lower bound for mu
         ]
 
-- 
2.43.0


From b3461974af0f42e6b0d88e41d3abdf142d2fcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:51 +0000
Subject: [PATCH 47/49] fix: long run MES of a firm that moves one for one with
 the market is a number

---
 src/frds/measures/_long_run_mes.py | 7 ++++---
 src/frds/measures/lrmes.hpp        | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/_long_run_mes.py b/src/frds/measures/_long_run_mes.py
index 3690679..3505ca2 100644
--- a/src/frds/measures/_long_run_mes.py
+++ b/src/frds/measures/_long_run_mes.py
@@ -66,8 +66,8 @@ class LongRunMarginalExpectedShortfall:
         # Standarized residuals
         z_m = market_resids / np.sqrt(market_variances)
         z_i = firm_resids / np.sqrt(firm_variances)
-        # Firm shock orthogonal to market
-        xi_i = (z_i - rho * z_m) / np.sqrt(1 - rho**2)
+        # Firm shock orthogonal to market, nil if the firm moves one for one with it
+        xi_i = (z_i - rho * z_m) / np.sqrt(np.maximum(1 - rho**2, 1e-16))
         sample = np.array([xi_i, z_m])
 
         # Sample with replacement S*h innovations
@@ -218,7 +218,8 @@ class LongRunMarginalExpectedShortfall:
             # epsilon_i = Beta * epsilon_m
 
             epsilon_i = np.sqrt(firm_var_t) * (
-                rho_h * mkt_innov + np.sqrt(1 - rho_h**2) * firm_innov
+                rho_h * mkt_innov
+                + np.sqrt(np.maximum(1 - rho_h**2, 0)) * firm_innov
             )
 
             mkt_return[h] = mu_m + epsilon_m
diff --git a/src/frds/measures/lrmes.hpp b/src/frds/measures/lrmes.hpp
index 251b859..2e066c6 100644
--- a/src/frds/measures/lrmes.hpp
+++ b/src/frds/measures/lrmes.hpp
@@ -1,6 +1,7 @@
 #ifndef FRDS_MEASURES_LRMES
 #define FRDS_MEASURES_LRMES
 
+#include <algorithm>
 #include <cmath>
 #include <numpy/arrayobject.h>
 #include <tuple>
@@ -65,7 +66,8 @@ simulation(PyArrayObject *innovation, double C, double firm_var, double mkt_var,
     epsilon_m = std::sqrt(mkt_var_t) * mkt_innov;
     epsilon_i =
         std::sqrt(firm_var_t) *
-        (rho_h * mkt_innov + std::sqrt(1 - std::pow(rho_h, 2)) * firm_innov);
+        (rho_h * mkt_innov +
+         std::sqrt(std::max(1 - std::pow(rho_h, 2), 0.0)) * firm_innov);
 
     mkt_return[h] = mu_m + epsilon_m;
     firm_return[h] = mu_i + epsilon_i;
-- 
2.43.0


From de357732b8e94c5b9b8d034ebcc84e7645f0e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:32 +0000
Subject: [PATCH 48/49] fix: anomaly scores are written without leaking a float
 each

---
 src/frds/algorithms/isolation_forest/iforest_module.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..df5254b 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -24,7 +24,10 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   if (num_arr == NULL) return NULL;
   char_arr = (PyArrayObject *)PyArray_FROM_OTF(char_data, NPY_STRING,
                                                NPY_ARRAY_IN_ARRAY);
-  if (char_arr == NULL) return NULL;
+  if (char_arr == NULL) {
+    Py_DECREF(num_arr);
+    return NULL;
+  }
 
 #if NPY_API_VERSION >= 0x0000000c
   outArr = (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE,
@@ -51,8 +54,7 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
 
   // write the ascores to the output array
   for (npy_intp i = 0; i < nObs; i++) {
-    PyArray_SETITEM(outArr, (char *)PyArray_GETPTR1(outArr, i),
-                    PyFloat_FromDouble(iforest.anomalyScores[i]));
+    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
   }
 
   Py_DECREF(num_arr);
-- 
2.43.0


From e9f495bdd1343e3e922eb1b9e80ca1463a9f38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:47 +0000
Subject: [PATCH 49/49] fix: a fit broken off halfway is not taken for a
 finished one

---
 src/frds/algorithms/_garch.py  | 6 ++++--
 src/frds/algorithms/_mgarch.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 1252b1a..1d428ef 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -92,7 +92,6 @@ class GARCHModel:
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
                 else:
@@ -100,6 +99,8 @@ class GARCHModel:
                 self.resids = self.returns - self.parameters.mu
                 # The last evaluation was a finite-difference step away from the optimum
                 self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
+                # Last, as a fit broken off halfway has to be made again
+                self.estimation_success = True
 
         return self.parameters
 
@@ -407,7 +408,6 @@ class GJRGARCHModel(GARCHModel):
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(
                         0.0, *list(opt.x), loglikelihood=-opt.fun
@@ -419,6 +419,8 @@ class GJRGARCHModel(GARCHModel):
                 self.resids = self.returns - self.parameters.mu
                 # The last evaluation was a finite-difference step away from the optimum
                 self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
+                # Last, as a fit broken off halfway has to be made again
+                self.estimation_success = True
 
         return self.parameters
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c1e5ccf..6c2fc7d 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -117,8 +117,8 @@ class GARCHModel_CCC:
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 self.parameters = type(self).Parameters(*list(opt.x, ), loglikelihood=-opt.fun)
+                self.estimation_success = True
         return self.parameters
 
     def loglikelihood_model(
@@ -293,11 +293,11 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 a, b = list(opt.x)
                 self.parameters.a = a
                 self.parameters.b = b
                 self.parameters.loglikelihood=-opt.fun
+                self.estimation_success = True
         return self.parameters
 
     def starting_values(self) -> Tuple[float, float]:
-- 
2.43.0

