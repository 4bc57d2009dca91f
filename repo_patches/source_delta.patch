From 97bfd08478353cfb74f7906c1b8dad483194d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 01/36] fix: compare the log of the uniform draw with the log
 acceptance ratio

---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From 178cb964503162b395183b63acfa49ac9e18b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 02/36] fix: use the leaf prior variance throughout the
 marginal likelihood ratio

---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From 49fc6ae0271886baa12c800accbc16eaf4c43ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 03/36] fix: draw leaf values with their posterior variance

---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From 33eac877bf4e1d6607886f49a92434f96d46b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 04/36] fix: do not ignore the first row when looking for
 distinct values

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9daa97e 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From f8f707a92b1cbfaef06f0a8f20c94fc2f314e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 05/36] fix: size in sample tree predictions by the training
 rows, not by one node's rows

---
 bartpy/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..395fd27 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,7 +85,7 @@ class Tree:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
+                self._prediction = np.zeros(len(self.nodes[0].data.mask))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
         return self._prediction
-- 
2.43.0


From d0954c7ee557f3463122d0d5048c972a6c12adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 06/36] fix: link copied tree nodes to each other instead of to
 the live tree

---
 bartpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 395fd27..0362118 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -171,4 +171,9 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = {node: deep_copy_node(node) for node in tree.nodes}
+    for node, copied_node in copies.items():
+        if type(node) == DecisionNode:
+            copied_node._left_child = copies[node.left_child]
+            copied_node._right_child = copies[node.right_child]
+    return Tree(list(copies.values()))
-- 
2.43.0


From 9677028fe93320715330efeb384e4eb717a63437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 07/36] fix: keep the prior settings when copying a model

---
 bartpy/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..86808ed 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -87,5 +87,10 @@ class Model:
 
 
 def deep_copy_model(model: Model) -> Model:
-    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees])
+    copied_model = Model(None,
+                         deepcopy(model.sigma),
+                         [deep_copy_tree(tree) for tree in model.trees],
+                         alpha=model.alpha,
+                         beta=model.beta,
+                         k=model.k)
     return copied_model
-- 
2.43.0


From 146405b23237af7622d183b2ca7ca62442369f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 08/36] fix: start every tree on its share of the target
 instead of None

---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index 86808ed..19eefa7 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From e7f63a8fe51b2989694fc165ae1f3a9ec97465aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 09/36] fix: from_extract puts the samples into the new model,
 not the original

---
 bartpy/sklearnmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..f567b0c 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -360,7 +360,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From 494e82ea160139f715563f13b0929d29addda02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 10/36] fix: training residuals use the data the samples were
 drawn for

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index f567b0c..de27be9 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -247,7 +247,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             Error for each observation
         """
         if y is None:
-            return self.model.data.y.unnormalized_y - self.predict(X)
+            return self.data.y.unnormalized_y - self.predict(X)
         else:
             return y - self.predict(X)
 
-- 
2.43.0


From 7ae446e5faddbabe0737ee4398a350c76946550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 11/36] fix: prediction_samples property called itself

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index de27be9..c2815f5 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -338,7 +338,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From a4fd5b7de4db8bdf1896512c399860ba3ae2f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 12/36] fix: score permuted models on the held out rows

---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From add2ffee899e1668ff31e510fe15639cfa818adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 13/36] fix: percentiles are given between 0 and 1 but numpy
 expects 0 to 100

---
 bartpy/diagnostics/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..e6a032c 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -126,7 +126,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.percentile(null_distributions[feature], percentile * 100) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -157,7 +157,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     df = pd.DataFrame(null_distributions)
     for row in df.iter_rows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.percentile(q_s, percentile * 100)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From 1af9e098220d1c2d147e92f01d439c1b642497f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:46 +0000
Subject: [PATCH 14/36] fix: global_thresholds used a method data frames do not
 have

---
 bartpy/diagnostics/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index e6a032c..e7d2be9 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -155,7 +155,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for row in df.itertuples(index=False):
         q_s.append(np.max(row))
     threshold = np.percentile(q_s, percentile * 100)
     return {feature: threshold for feature in null_distributions}
-- 
2.43.0


From e59bba44e6ef0246691a5d4b9176e89c0a1d9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 15/36] fix: do not count root nodes as splits in split
 proportions

---
 bartpy/diagnostics/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index e7d2be9..ac45342 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,7 +20,8 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
         columns = sorted(list([x for x in counter.keys() if x is not None]))
-- 
2.43.0


From adbfc77138d727cb9373c82413e702eb58357431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:53 +0000
Subject: [PATCH 16/36] fix: feature selection decides every column, not only
 the used ones

---
 bartpy/features/featureselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..8392f76 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 33d2c4e9f83c7b2c111ff50dc485cb286dfb0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 17/36] fix: unknown selection method error referred to an
 unset attribute

---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 8392f76..2311769 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -46,7 +46,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         elif method == "global":
             self.method = global_thresholds
         else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
         self.model = deepcopy(model)
         if n_trees is not None:
             self.model.n_trees = n_trees
-- 
2.43.0


From 25a4a839ee60fa2d035a7bdc9f703cc1dfa0d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 18/36] fix: ResidualBART fitted the caller's estimator instead
 of a clone

---
 bartpy/extensions/baseestimator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..1327c00 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -11,14 +11,13 @@ class ResidualBART(SklearnModel):
                  base_estimator: RegressorMixin = None,
                  **kwargs):
 
-        if base_estimator is not None:
-            self.base_estimator = clone(base_estimator)
-        else:
+        if base_estimator is None:
             base_estimator = LinearRegression()
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
+        self.base_estimator = clone(self.base_estimator)
         self.base_estimator.fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
-- 
2.43.0


From 5c4a1d4896c6ad97a8f156396fe010b8e47dd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:05 +0000
Subject: [PATCH 19/36] fix: residual extensions predict for the training
 covariates themselves

---
 bartpy/extensions/baseestimator.py | 2 +-
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 1327c00..a92ca88 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -24,7 +24,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From 84205c019b2efecb7edce725efc2d69b3d502354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:09 +0000
Subject: [PATCH 20/36] fix: residual plots used a missing attribute of Data

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From 25ee3a565897af6ca86dca87c3da5354f7e17dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 21/36] fix: tree initializer used missing attributes of the
 node data

---
 bartpy/initializers/sklearntreeinitializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..03d455a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From 1158cc8a6b48c4f72f6e63f541baa8d47bb783ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 22/36] fix: default loss of the tree initializer is not
 accepted by sklearn

---
 bartpy/initializers/sklearntreeinitializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 03d455a..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
-- 
2.43.0


From d69231886af69953f1a9cf6efaa02da5b8b15d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 23/36] fix: import sklearn classes from their public modules

---
 bartpy/extensions/baseestimator.py  | 2 +-
 bartpy/features/featureselection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index a92ca88..0f351a3 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 2311769..f023a3b 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
-- 
2.43.0


From f4b0734dec0a27891587b30e085df5fe13c664c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 24/36] fix: training residuals of the residual extensions
 ignored the base model's share of the target

---
 bartpy/extensions/baseestimator.py | 5 +++++
 bartpy/extensions/ols.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 0f351a3..52e0900 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -28,3 +28,8 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.base_estimator.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..a508c93 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -25,3 +25,8 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.stat_model_fit.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
-- 
2.43.0


From 461e7371209d31605c8f87025f181f07eb3d1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 25/36] fix: choice of the leaf to grow is not part of the tree
 prior

---
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..03be3d5 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -108,7 +108,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
-- 
2.43.0


From f2dc04bf324ce5cca63ad98f8ef570446d8cd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 26/36] fix: count growable leaves and prunable nodes as they
 are after the proposed change

---
 .../unconstrainedtree/likihoodratio.py         | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 03be3d5..d62967a 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -78,7 +78,8 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        n_prunable_after_growth = n_prunable_decision_nodes(tree) + 1 - n_prunable_parents(tree, mutation.existing_node)
+        prob_prune_selected = - np.log(n_prunable_after_growth)
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
@@ -87,10 +88,9 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        children = [mutation.existing_node.left_child, mutation.existing_node.right_child]
+        n_splittable_after_prune = n_splittable_leaf_nodes(tree) - len([x for x in children if x.is_splittable()]) + 1
+        prob_grow_node_selected = - np.log(n_splittable_after_prune)
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
@@ -134,6 +134,14 @@ def n_prunable_decision_nodes(tree: Tree) -> int:
     return len(tree.prunable_decision_nodes)
 
 
+def n_prunable_parents(tree: Tree, node: TreeNode) -> int:
+    """
+    The number of prunable decision nodes that have the node as a child
+    i.e. how many decision nodes stop being prunable when the node is grown
+    """
+    return len([x for x in tree.prunable_decision_nodes if x.left_child is node or x.right_child is node])
+
+
 def n_splittable_leaf_nodes(tree: Tree) -> int:
     """
     The number of splittable leaf nodes
-- 
2.43.0


From dff958d22f395829673d716d82922266d5f85c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:02 +0000
Subject: [PATCH 27/36] fix: set_params(tree_sampler=...) had no effect on
 sampling

---
 bartpy/sklearnmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c2815f5..ffb69a5 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -121,6 +121,11 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        self.schedule.tree_sampler = self.tree_sampler
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From a88faa1cc2fa4a284a2196ea4ebf737f06eef744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 28/36] fix: copies of scalar samplers replayed the original's
 prefetched draws

---
 bartpy/samplers/scalar.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..f2d6e36 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -15,6 +15,10 @@ class NormalScalarSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # Prefetched draws stay with this object, copies make their own
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.normal(size=self._cache_size))
 
@@ -31,6 +35,10 @@ class UniformScalarSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # Prefetched draws stay with this object, copies make their own
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.uniform(size=self._cache_size))
 
@@ -53,5 +61,9 @@ class DiscreteSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # Prefetched draws stay with this object, copies make their own
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
-- 
2.43.0


From b2a9a0b61fc28e19694bc0f1bdc2369fdf72bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 29/36] fix: oblivious proposals grew leaves that cannot be
 split

---
 bartpy/samplers/oblivioustrees/proposer.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..793e9ef 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,7 +13,7 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    return [GrowMutation(x, sample_split_node(x)) for x in tree.splittable_leaf_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
@@ -61,11 +61,5 @@ def sample_split_node(node: LeafNode) -> DecisionNode:
     Split a leaf node into a decision node with two leaf children
     The variable and value to split on is determined by sampling from their respective distributions
     """
-    if node.is_splittable():
-        conditions = sample_split_condition(node)
-        return split_node(node, conditions)
-    else:
-        return DecisionNode(node.split,
-                            LeafNode(node.split, depth=node.depth + 1),
-                            LeafNode(node.split, depth=node.depth + 1),
-                            depth=node.depth)
\ No newline at end of file
+    conditions = sample_split_condition(node)
+    return split_node(node, conditions)
-- 
2.43.0


From 08e60ec8e15d19fe8b53957579bbf2987373240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 30/36] fix: raise NoSplittableVariableException when a leaf
 without usable column is split (default sampler)

---
 bartpy/samplers/unconstrainedtree/proposer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..9b385e2 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -83,7 +83,7 @@ def sample_split_condition(node: LeafNode) -> Optional[Tuple[SplitCondition, Spl
 
     Returns None if there isn't a possible non-degenerate split
     """
-    split_variable = np.random.choice(list(node.split.data.X.splittable_variables()))
+    split_variable = node.data.X.random_splittable_variable()
     split_value = node.data.X.random_splittable_value(split_variable)
     if split_value is None:
         return None
-- 
2.43.0


From c0779b72ceb79258602c90abf275e4ce7c0fcfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:12 +0000
Subject: [PATCH 31/36] fix: feature_importance failed on data frames

---
 bartpy/features/featureimportance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index f3bcee8..02a5967 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -6,6 +6,7 @@ import pandas as pd
 from matplotlib import pyplot as plt
 from sklearn.model_selection import KFold
 
+from bartpy.data import ensure_numpy_array
 from bartpy.runner import run_models
 from bartpy.sklearnmodel import SklearnModel
 
@@ -30,6 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From df3e72b0dff379fcbb19364886a17e6036282578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 32/36] fix: predict() averaged nothing when in sample
 predictions had not been stored

---
 bartpy/sklearnmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index ffb69a5..d1b15de 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -227,9 +227,10 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             predictions for the X covariates
         """
-        if X is None and self.store_in_sample_predictions:
+        in_sample_stored = self.store_in_sample_predictions and self._prediction_samples is not None and len(self._prediction_samples) > 0
+        if X is None and in_sample_stored:
             return self.data.y.unnormalize_y(np.mean(self._prediction_samples, axis=0))
-        elif X is None and not self.store_in_sample_predictions:
+        elif X is None:
             raise ValueError(
                 "In sample predictions only possible if model.store_in_sample_predictions is `True`.  Either set the parameter to True or pass a non-None X parameter")
         else:
-- 
2.43.0


From 7990ed133f0aff3656a30edc61a92aa486881a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:02 +0000
Subject: [PATCH 33/36] fix: homoskedasity diagnostics passed covariates
 seaborn only takes by name

---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From f22f8d419a04ac64eeb91aa81457688377d51142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 34/36] fix: keep the requested share of samples for any
 thinning fraction

---
 bartpy/samplers/modelsampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..37645ae 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -48,9 +48,12 @@ class ModelSampler(Sampler):
 
         thin_inverse = 1. / thin
 
+        def n_kept(n_steps: int) -> int:
+            return int(np.ceil(round(n_steps / thin_inverse, 9)))
+
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if n_kept(ss + 1) > n_kept(ss):
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From b71b809db3070be10c50aa9970d9af03d21355f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 35/36] fix: leave a tree alone that can neither be grown nor
 pruned instead of retrying forever

---
 bartpy/samplers/unconstrainedtree/proposer.py     | 8 ++++----
 bartpy/samplers/unconstrainedtree/treemutation.py | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index 9b385e2..058a122 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -40,13 +40,13 @@ class UniformMutationProposer(TreeMutationProposer):
                                               list(self.prob_method_lookup.values()),
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
+    def propose(self, tree: Tree) -> Optional[TreeMutation]:
         method = self.method_sampler.sample()
         try:
             return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
+        except (NoSplittableVariableException, NoPrunableNodeException):
+            if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+                return None  # Nothing can be changed about the tree
             return self.propose(tree)
 
 
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..1dfc6de 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
+        if proposal is None:
+            return None
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From c6d014fbdbacaf03378f96ee989d97a1f2fe3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 36/36] fix: split proportion plot was drawn on the current
 axes instead of the given ones

---
 bartpy/diagnostics/features.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index ac45342..878a3fc 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,12 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos)
+    ax.set_yticklabels(props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0

