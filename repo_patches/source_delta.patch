From 31fd7fd262f6e4ac4d118c797412cb7102f68eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 01/36] fix: LUCB picks its leader and challenger from disjoint
 sets of arms

---
 causal_effect_bandits/bandits.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..07079a6 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -399,13 +399,20 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
 
     best_arm_mask = [v == lowest_var for v in var_ests]
 
+    if all(best_arm_mask):  # all estimates are equal: there is no challenger
+      return list(np.random.choice(self._arms, size=2, replace=False))
+
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = [
+        u == high_ucb and best for u, best in zip(ucbs, best_arm_mask)
+    ]
 
     # Also select the arm with the lowest lcb of the remaining arms
     low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb_mask = [
+        l == low_lcb and not best for l, best in zip(lcbs, best_arm_mask)
+    ]
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From 1db5b9248b5d7a2f0f3f0dbd921819eb2563f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 02/36] fix: sample_limit=None means no limit, as documented

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 07079a6..5f39762 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # a fixed confidence problem
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From 479606f10dca8ce3859f82a84cea98a95645a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 03/36] fix: error_tol relaxes the fixed-confidence end
 condition

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5f39762..5b0f04c 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -169,7 +169,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From 09fe84648fb27d9ce9e11dbee5ff075a8ea9b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 04/36] fix: successive elimination never eliminates its best
 arm

---
 causal_effect_bandits/bandits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5b0f04c..bf1bb79 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -537,8 +537,10 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
 
       # We now eliminate all arms with lcbs that are larger than lowest_ucb.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for i, arm in enumerate(candidate_arms):
+        # The arm that lowest_ucb comes from stays, even if its ci is a point.
+        is_best = low_var_mask[i] and ucb_by_arm[arm][-1] == lowest_ucb
+        if lcb_by_arm[arm][-1] < lowest_ucb or is_best:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From ca493bbf6653636e567b5e6ebb0bc52983f544c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 05/36] fix: successive elimination answers with arms that are
 still candidates

---
 causal_effect_bandits/bandits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index bf1bb79..5b26810 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -496,10 +496,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Select the candidates with the lowest var estimates.
+        var_ests = [var_est_by_arm[arm][-1] for arm in candidate_arms]
+        candidate_arms = [
+            arm for arm, v in zip(candidate_arms, var_ests)
+            if v == min(var_ests)
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 37ea1bfa9b1883ec5e70fd293d1f852806051741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 06/36] fix: every arm reads the dataset from its own offset

---
 causal_effect_bandits/bandits.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5b26810..8161829 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -232,15 +232,14 @@ class UniformAlgorithm(BAIBanditAlgorithm):
     total_samples = 0
 
     while True:
-      if stable_order:
-        # All remaining arms have been pulled the same number of times.
-        n_start = self._arms[0].get_num_units()
-        new_samples = all_data[n_start:n_start + self.units_per_round]
-      else:
+      if not stable_order:
         new_samples = self._prob_model.generate(self.units_per_round)
 
       # We need to calculate the necessary delta:
       for arm in self._arms:
+        if stable_order:
+          n_start = arm.get_num_units()
+          new_samples = all_data[n_start:n_start + self.units_per_round]
         arm.update(new_samples, self.error_prob / len(self._arms))
         lcb_by_arm[arm].append(arm.cost * arm.ci[0])
         ucb_by_arm[arm].append(arm.cost * arm.ci[1])
@@ -318,9 +317,7 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     """
     stable_order = all_data is not None
 
-    if stable_order:
-      new_samples = all_data[:self.units_per_round]
-    else:
+    if not stable_order:
       new_samples = self._prob_model.generate(self.units_per_round)
 
     # Allocate variables for tracking the history
@@ -333,6 +330,9 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     # Update all arms once
     total_samples = self._num_arms * self.units_per_round
     for arm in self._arms:
+      if stable_order:
+        n_start = arm.get_num_units()
+        new_samples = all_data[n_start:n_start + self.units_per_round]
       arm.update(new_samples, self.error_prob / len(self._arms))
       lcb_by_arm[arm].append(arm.cost * arm.ci[0])
       ucb_by_arm[arm].append(arm.cost * arm.ci[1])
-- 
2.43.0


From 7efd712205f5d78e1b9c6a2001a11d82ddc244b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 07/36] fix: a reset arm has the interval of a new arm

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..bcdd489 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From e9d988227d297afc71e2d16d6e3ce6354f4ceb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 08/36] fix: resetting LinearRegressionParameter drops its fit

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..ccaa459 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -875,6 +875,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From a9fb05ecdf2aa9f21aa41b56586dcc74781d1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 09/36] fix: LinearParameterBinaryTreatment waits for both
 treatment groups

---
 causal_effect_bandits/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index ccaa459..fa2426f 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From 19f2516e302965e1c56c388e53ea468e059e2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 10/36] fix: re-splitting arms keep the units they already hold

---
 causal_effect_bandits/arms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bcdd489..97232da 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        all_data = self._data_transformer(new_data)[:]
+        for i in range(2):
+          all_data.append(self._split_data[i])
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +343,10 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        all_data = self._data_transformer(new_data)[:]
+        for i in range(self.n_splits):
+          all_data.append(self._split_data[i])
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From ab168adbbdc0eac12b72e4f9419b991b743e7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 11/36] fix: a failed update leaves an arm with all or none of
 the batch

---
 causal_effect_bandits/arms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 97232da..77643e9 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -210,8 +210,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
     else:
       if self._stable_splits:
         new_split = self._data_transformer(new_data).k_fold(2)
+        split_data = [fold[:] for fold in self._split_data]
         for i in range(2):
-          self._split_data[i].append(new_split[i])
+          split_data[i].append(new_split[i])
+        self._split_data = split_data
       else:
         all_data = self._data_transformer(new_data)[:]
         for i in range(2):
@@ -340,8 +342,10 @@ class BootstrapArm(VarianceEstimatorArm):
     else:
       if self._stable_splits:
         new_split = self._data_transformer(new_data).k_fold(self.n_splits)
+        split_data = [fold[:] for fold in self._split_data]
         for i in range(self.n_splits):
-          self._split_data[i].append(new_split[i])
+          split_data[i].append(new_split[i])
+        self._split_data = split_data
       else:
         all_data = self._data_transformer(new_data)[:]
         for i in range(self.n_splits):
-- 
2.43.0


From 2ff1893abcd3c2520379db930be7d168e140daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 12/36] fix: BootstrapArm reports how many units it holds

---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 77643e9..76abde8 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -383,3 +383,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From fdae3cf8402482145574f7686282351b3add5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 13/36] fix: BootstrapArm estimates with eta fitted to the
 whole first split

---
 causal_effect_bandits/arms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 76abde8..250cc60 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -355,6 +355,12 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # Use the second split to learn the ATE and variance. This comes before the
+    # bootstrap, which refits eta to parts of the first split.
+    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
+
+    self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
@@ -377,11 +383,6 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
 
-    # Use the second split to learn the ATE and variance
-    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
-
-    self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
-
     return self._ci
 
   def get_num_units(self) -> int:
-- 
2.43.0


From efd86d7eb04acfca32b91392629948212785e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 14/36] fix: BootstrapArm reports a vacuous interval without
 enough units

---
 causal_effect_bandits/arms.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 250cc60..0e30599 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -355,6 +355,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # As in SampleSplittingArm: without enough units, return [0, np.inf).
+    if not self._eta.has_enough_samples():
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     # Use the second split to learn the ATE and variance. This comes before the
     # bootstrap, which refits eta to parts of the first split.
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
@@ -372,11 +379,18 @@ class BootstrapArm(VarianceEstimatorArm):
       # Compute the data with the bth fold missing
       (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)
 
+      if not len(out_data):
+        continue
+
       # Calculate tau on this fold
       self._eta.fit(in_data)
       b_samples.append(np.var(self._eta.calculate_score(out_data)))
 
     # Next, we need to calculate the percentiles of the bootstrap samples
+    n_bootstraps = len(b_samples)
+    if n_bootstraps == 0:
+      self._ci = (0, np.inf)
+      return self._ci
     b_samples = np.array(b_samples)
     b_samples.sort()
     ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
-- 
2.43.0


From 3d0776e4f3dcc46beae746ba9edd26289ad2291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 15/36] fix: arms report a vacuous interval with fewer than two
 units to score

---
 causal_effect_bandits/arms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 0e30599..6260a28 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -225,7 +225,7 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     # We need to check that all folds and all control, treatment groups
     # Have at least one unit. Otherwise, return [0, np.inf) for the confidence.
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or len(self._split_data[1]) < 2:
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
@@ -356,7 +356,7 @@ class BootstrapArm(VarianceEstimatorArm):
     self._eta.fit(self._split_data[0])
 
     # As in SampleSplittingArm: without enough units, return [0, np.inf).
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or len(self._split_data[1]) < 2:
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
-- 
2.43.0


From 337cee26ccf2dabb0e0eb67c1de7ab380c0b7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 16/36] fix: re-splitting arms never score units with a fit of
 an earlier split

---
 causal_effect_bandits/arms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6260a28..644de0d 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -219,6 +219,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           all_data.append(self._split_data[i])
         self._split_data = all_data.k_fold(2)
+        # A previous fit may have used units that now are in the second fold.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -351,6 +353,8 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           all_data.append(self._split_data[i])
         self._split_data = all_data.k_fold(self.n_splits)
+        # A previous fit may have used units that now are in the second fold.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 94c3db467c55606aa2fdcd06154670bb95258e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 17/36] fix: refitting TabularCPD forgets the support of
 earlier data

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..a8f5c40 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -346,6 +346,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From c30d06508a716c5d1f4df3fcc2d0ea6140a97e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 18/36] fix: nuisance confidence widths stay real for collinear
 covariates

---
 causal_effect_bandits/parameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fa2426f..82b8dac 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -390,7 +390,9 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)
+    if min(w) <= 0:  # some direction of the covariates has not been seen
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     eta_radius = mu_radius
@@ -656,7 +658,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)
+    if min(w) <= 0:  # some direction of the covariates has not been seen
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     def uniform_boundary(n, delta):
-- 
2.43.0


From 7166cd1e9606daaefc20e61d2d7d2bc373cb1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 19/36] fix: the front-door score sums over supports of any
 dimension

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 82b8dac..5e1bdd1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -754,8 +754,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 30f7174d74b2ed33551ca1f3209fb4db3d79ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 20/36] fix: the front-door score averages the outcome over
 P(Z|X)

---
 causal_effect_bandits/parameters.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 5e1bdd1..9719ff5 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -693,7 +693,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -702,7 +702,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -757,10 +757,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([1]), [z]) -
           self.cov_given_exp.predict(np.array([0]), [z]))
 
-      f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+      f_3 += self.cov_given_exp.predict(d.exp, np.tile(z, (len(d), 1))) * (
+          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
+          self.y_response.predict([np.insert(z, 0, 0)]) * (1 - self.exp_prob))
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -789,7 +788,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -798,7 +797,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From d82346eccf0b499dca6fb3ea3f187347531fcfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 21/36] fix: front-door estimates accept exposures of any
 numeric type

---
 causal_effect_bandits/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 9719ff5..fdffd9a 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -625,7 +625,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
         np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
-    self.cov_given_exp.fit(d.exp, d.cov)
+    # TabularCPD needs matching d-types.
+    self.cov_given_exp.fit(np.asarray(d.exp, dtype=int), d.cov)
 
     self._has_been_fit = True
 
@@ -731,7 +732,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
     p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
     p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
-    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)
+    exposures = np.asarray(d.exp, dtype=int)
+    p_z_x = self.cov_given_exp.predict(exposures, d.cov)
 
     p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
     p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
@@ -757,7 +759,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([1]), [z]) -
           self.cov_given_exp.predict(np.array([0]), [z]))
 
-      f_3 += self.cov_given_exp.predict(d.exp, np.tile(z, (len(d), 1))) * (
+      f_3 += self.cov_given_exp.predict(exposures, np.tile(
+          z, (len(d), 1))) * (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
           self.y_response.predict([np.insert(z, 0, 0)]) * (1 - self.exp_prob))
 
-- 
2.43.0


From daf5f163c9b5954f2b5b90cc57e9c9a8735da8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 22/36] fix: sums over narrow integer data do not overflow

---
 causal_effect_bandits/parameters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fdffd9a..e8d3a32 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -352,7 +352,7 @@ class AIPW(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
+    if np.sum(d.exp) < self._min_units or np.sum(d.exp) > n_units - self._min_units:
       message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
                  " enough units in control or treatment to fit eta.")
       logging.warning(message)
@@ -378,7 +378,7 @@ class AIPW(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = self.recent_data.cov
+    x = np.asarray(self.recent_data.cov, dtype=float)
     d = self._cov_dim
     v = x.transpose().dot(x)
 
@@ -617,7 +617,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
+    if np.sum(d.exp) < self._min_units or np.sum(d.exp) > d.n_units - self._min_units:
       print(
           f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
           "is not enough units in control or treatment to fit eta.")
@@ -646,7 +646,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov])
+    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov], dtype=float)
     d = self._cov_dim + 1
     v = x.transpose().dot(x)
 
@@ -898,7 +898,7 @@ class LinearRegressionParameter(NuisanceParameter):
     """
     if d.n_units < 1:  # not enough data to fit
       return
-    data_matrix = np.array(np.c_[d.exp, d.cov])
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
 
     self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                 self.l_reg *
-- 
2.43.0


From caa577c706097b5efd2b415e9e42af7afd4e1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 23/36] fix: a failed append leaves the dataset unchanged

---
 causal_effect_bandits/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index a8f5c40..aa40828 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,16 +68,18 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
-    self.cov = np.r_[self.cov, new_data.cov]
+    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
     if self.exp is not None:
       if new_data.exp is None:
         raise ValueError("new_data.exp is missing but expected")
-      self.exp = np.r_[self.exp, new_data.exp]
+      exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
       if new_data.rsp is None:
         raise ValueError("new_data.rsp is missing but expected")
-      self.rsp = np.r_[self.rsp, new_data.rsp]
+      rsp = np.r_[self.rsp, new_data.rsp]
 
+    # Nothing can fail from here on.
+    self.cov, self.exp, self.rsp = cov, exp, rsp
     self.n_units = self.cov.shape[0]
 
   def k_fold(self, k: int):
-- 
2.43.0


From 93388bad2bcd5e2da3672ecb5b09434b72c18429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 24/36] fix: the linear generator uses the noise draw that it
 checked

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index aa40828..e543ac3 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -282,7 +282,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From 4cb620a2e96a84284d9ac05593011e06d213e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 25/36] fix: computing a treatment effect works and leaves the
 SCM alone

---
 causal_effect_bandits/scm.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..4f61f2e 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -22,6 +22,7 @@
 Also includes many common distributions and conditional
 probability distributions (CPDs) as building blocks.
 """
+import copy
 from typing import List
 from causal_effect_bandits import data
 import numpy as np
@@ -113,16 +114,16 @@ class SCM(data.DataGenerator):
     Returns:
       An estimate of the ATE of the SCM.
     """
-    old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
+    # Intervene on a copy, so that self always has its own cpds.
+    scm = copy.copy(self)
+    treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+    scm.cpds = {**self.cpds, self.treatment_variable: treatment_cpd}
+    treatment_sample = scm.generate(n_samples)
 
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
+    control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+    scm.cpds = {**self.cpds, self.treatment_variable: control_cpd}
+    control_sample = scm.generate(n_samples)
 
-    self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From 09fbd2f0739132b8f34ef6063d5c5690b3d0f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 26/36] fix: categorical_conditioning leaves its caller's list
 alone

---
 causal_effect_bandits/scm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 4f61f2e..1d7c6ab 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -151,7 +151,7 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
         "Treatment_idx is greater than the number of distributions.")
   # Remove treatment_idx from parents
   distribution_indices = parents[conditioning_on_idx]
-  del parents[conditioning_on_idx]
+  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]
 
   samples = []
   for i, d in enumerate(distribution_indices):
-- 
2.43.0


From 897eb426c9797c1e82cd7e12b8ffa5dbe0adcbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 27/36] fix: experiment arms observe the covariates they are
 named after

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..632a9c1 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,13 +481,16 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
     cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
     parents['X'].append('V' + str(i))
 
+  # The columns of all Z_i come first; z_idx and v_idx below rely on it.
+  for i in range(1, num_back_door_paths + 1):
+    cov_variables.append('V' + str(i))
+
   var_names.extend(['X', 'Z0', 'Y'])
 
   scm_gen = scm.SCM(
-- 
2.43.0


From 733d0fd034cdeeb4d54f188b6fa84f15b98769fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 28/36] fix: section 5.2 instances depend on nothing but their
 seed

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 632a9c1..5353f1e 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=rng.integers(10000),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From d781566c4768eb6305c60137d2d609ba0640e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 29/36] fix: an interrupted reset keeps the dimension of the
 covariates

---
 causal_effect_bandits/parameters.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index e8d3a32..4d54d6b 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -574,8 +574,6 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       min_ratio_to_uniform: float = 10,
   ):
     super().__init__()
-    self._cov_dim = 0
-    self._nus_dim = 0  # The dimension of the nuisance parameter maps to
     self._data = None
     self._has_been_fit = False
     self.recent_data = None
@@ -870,8 +868,6 @@ class LinearRegressionParameter(NuisanceParameter):
   def __init__(self, n_features, l_reg=0.1):
     super().__init__()
     self._model = None  # The model used
-    self._cov_dim = 0
-    self._nus_dim = 0  # The dimension of the nuisance parameter maps to
     self._data = None
     self._has_been_fit = False
     self.recent_data = None
-- 
2.43.0


From be000724cf7e16dd228967e1b21f021b2d7142ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 30/36] fix: LinearRegressionParameter scores overflowed on
 narrow integer types

---
 causal_effect_bandits/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 4d54d6b..7254ec9 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -916,7 +916,8 @@ class LinearRegressionParameter(NuisanceParameter):
     Returns:
       np.array of shape (d.n_units, )
     """
-    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
+    xz = np.array(np.c_[d.exp, d.cov], dtype=float)  # integers may overflow
+    xzy = xz.transpose().dot(np.diag(d.rsp))
     return eta.dot(xzy)[0, :]
 
   def calculate_score(self, d: data.ExpData) -> np.ndarray:
-- 
2.43.0


From 6a6cfbf36a5899a01703fecd667e797e8d3cd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 31/36] fix: set_to_truth takes effect on a parameter that was
 not fitted

---
 causal_effect_bandits/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 7254ec9..0b73c46 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -273,6 +273,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
@@ -474,9 +475,12 @@ class AIPW(NuisanceParameter):
     if not isinstance(data_gen, data.LinearDataGenerator):
       raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                         "not identifiable in this model"))
+    self.response.intercept_ = 0
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
+    self.propensity.classes_ = np.array([0, 1])
+    self.propensity.intercept_ = np.zeros(1)
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
-    self.propensity.intercept_ = 0
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From d361f9c2b9f9c465eb6c79e399d5a4d9113ccb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 32/36] fix: TabularCPD kept views of the caller's observations
 as its support

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index e543ac3..d0ae0ff 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -354,7 +354,7 @@ class TabularCPD:
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
       self.x_values[xi.tobytes()] = xi
-      self.z_values[zi.tobytes()] = zi
+      self.z_values[zi.tobytes()] = zi.copy()  # z belongs to the caller
 
     # adjust min_ratio_to_uniform based on the perceived support size
     # Note: we use a naive missing mass estimatior, but
-- 
2.43.0


From bbc099e2330daefd95d50edbfa0aa833ff68cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 33/36] fix: predicting an unseen value added it to the table,
 which then failed to print

---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index d0ae0ff..ea3038b 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -410,7 +410,8 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # Unseen values must not become rows of the table.
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 4bb52805fdaa426ca44c599a679ec3f63179fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 34/36] fix: linear distributions failed when the first parent
 and its weights are integers

---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 1d7c6ab..2c1d0e4 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -180,7 +180,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -235,7 +235,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -303,7 +303,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 21afbe264da7f681e8b994eb3359c53616897daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 35/36] fix: smoothing a TabularCPD gave rows with zero or
 negative probabilities or a sum other than one

---
 causal_effect_bandits/data.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index ea3038b..5e434a9 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -369,22 +369,19 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
+      excess = 0  # the probability mass above the minimum
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
-          total_violations += self.min_prob - x_table[z_key]
-          x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+        excess += max(x_table[z_key] - self.min_prob, 0)
+      if min(x_table[z_key] for z_key in self.z_values) >= self.min_prob:
+        continue
+      # Raise the violating z to the minimum and shrink the excess of the other
+      # z in proportion, so that P(Z|x = x_key) sums to 1.
+      free_mass = 1 - support_size_estimate * self.min_prob
+      scale = free_mass / excess if excess > 0 else 0
+      for z_key in self.z_values:
+        x_table[z_key] = self.min_prob + scale * max(
+            x_table[z_key] - self.min_prob, 0)
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From e08eed67d5b856ea0724a955541da72e93f18886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 36/36] fix: the example models reported a response variance
 without its covariance terms

---
 causal_effect_bandits/example_scm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..01c0219 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,8 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  cov_xz = alpha * var_z
+  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * cov_xz
 
   # populate the CPDs
   def y_cpd(_, parents):
@@ -121,8 +122,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0

