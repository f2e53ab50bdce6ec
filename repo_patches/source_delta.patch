From 95a2ba5901b4528b478238dcb7e97abea93ee9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 01/55] fix: ALE local effects use the edges and width of each
 instance's own bin

The width of the first bin was used for every bin, the right-most edge was
shifted (in place) by 1e-8, so the model was queried outside the axis limits
and edge instances were lost for large feature values.
---
 effector/utils.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f087dbe 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -7,6 +7,29 @@ BIG_M = helpers.BIG_M
 EPS = helpers.EPS
 
 
+def find_bin_indices(xs: np.ndarray, limits: np.ndarray) -> np.ndarray:
+    """Find the (1-based) index of the bin each point belongs to.
+
+    Notes:
+        Bins are closed on the left and open on the right, except for the last one that is closed on both sides.
+
+    Examples:
+        >>> xs = np.array([0., 0.5, 1., 2.])
+        >>> limits = np.array([0., 1., 2.])
+        >>> find_bin_indices(xs, limits)
+        array([1, 1, 2, 2])
+
+    Args:
+        xs: The points, (N)
+        limits: The bin limits, (K+1)
+
+    Returns:
+        ind: The bin-index of each point, (N)
+    """
+    ind = np.digitize(xs, limits)
+    return np.where(xs == limits[-1], len(limits) - 1, ind)
+
+
 def compute_local_effects(
     data: np.ndarray, model: typing.Callable, limits: np.ndarray, feature: int
 ) -> np.ndarray:
@@ -50,16 +73,15 @@ def compute_local_effects(
     assert limits[-1] >= np.max(data[:, feature])
 
     # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
-    ind = np.digitize(data[:, feature], limits)
-    assert np.alltrue(ind > 0)
+    ind = find_bin_indices(data[:, feature], limits)
+    assert np.all(ind > 0)
 
     # compute effect
     right_lim = copy.deepcopy(data)
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From 9d490ab3b27055c1c797ef56ccf6fd10b2a1db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 02/55] fix: bin effect and variance keep instances on the
 right-most edge at any scale

The absolute 1e-8 enlargement of the last edge vanishes for large feature values
and covers whole bins for small ones.
---
 effector/utils.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index f087dbe..cb29bec 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -4,7 +4,6 @@ import copy
 from effector import helpers
 
 BIG_M = helpers.BIG_M
-EPS = helpers.EPS
 
 
 def find_bin_indices(xs: np.ndarray, limits: np.ndarray) -> np.ndarray:
@@ -162,10 +161,7 @@ def compute_bin_effect(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
-    ind = np.digitize(xs, limits_enh)
-    # assert np.alltrue(ind > 0)
+    ind = find_bin_indices(xs, limits)
 
     # bin effect is the mean of all points that lie in the bin
     nof_bins = limits.shape[0] - 1
@@ -234,11 +230,7 @@ def compute_bin_variance(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    eps = 1e-8
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
-    ind = np.digitize(xs, limits_enh)
-    # assert np.alltrue(ind > 0)
+    ind = find_bin_indices(xs, limits)
 
     # variance of the effect in each bin
     variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2
-- 
2.43.0


From c21b67ca1a367c4fbed0aadefb8687b021ce06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 03/55] fix: accumulated effect is flat beyond the last limit
 for any feature scale

The sentinel 1e8 was treated as a bin edge, so curves were wrong for features
with larger values.
---
 effector/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index cb29bec..38a1372 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -3,8 +3,6 @@ import numpy as np
 import copy
 from effector import helpers
 
-BIG_M = helpers.BIG_M
-
 
 def find_bin_indices(xs: np.ndarray, limits: np.ndarray) -> np.ndarray:
     """Find the (1-based) index of the bin each point belongs to.
@@ -357,6 +355,9 @@ def compute_accumulated_effect(
 
 
     """
+    # positions beyond the right-most limit take the value at that limit
+    x = np.minimum(x, limits[-1])
+
     # find where each point belongs to
     ind = np.digitize(x, limits)
 
@@ -366,7 +367,7 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-- 
2.43.0


From b1bf5026765b958c4d639b5ba0a0e6cc194a4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 04/55] fix: pdp_nd_non_vectorized iterates over (position,
 feature) pairs

---
 effector/global_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..5447542 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -616,7 +616,7 @@ def pdp_nd_non_vectorized(
         x_new = copy.deepcopy(data)
 
         # set the features of all datapoints to the values of the k-th position
-        for j, feat in features:
+        for j, feat in enumerate(features):
             x_new[:, feat] = x[k, j]
 
         # compute the prediction or the Jacobian wrt the input
-- 
2.43.0


From 6d968f1bee29c540fb794abe691ed457b44bf5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 05/55] fix: RHALE.fit accepts the documented binning method
 "dp"

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..759c538 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -547,7 +547,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From d6a9e42c64e0761a1ea88e7d895b272928d05c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 06/55] fix: fixed binning refuses a constant feature instead
 of failing later

---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From 5e7d2b4dcaaeb8ee6ae3aca6af50308f96035eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 07/55] fix: binning works with min_points=None, as its
 signature documents

---
 effector/bin_splitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..94521fc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -49,7 +49,7 @@ class BinBase:
         )
 
         # compute cost
-        if data_effect.size < min_points:
+        if min_points is not None and data_effect.size < min_points:
             cost = self.big_M
         else:
             discount_for_more_points = 1 - discount * (data_effect.size / nof_points)
@@ -82,7 +82,8 @@ class BinBase:
         cond_1 = len(np.unique(self.data[:, self.feature])) == 1
 
         # if there are less than min_points, then it is impossible to create any binning
-        cond_2 = self.data[:, self.feature].size < self.method_args["min_points"]
+        min_points = self.method_args["min_points"]
+        cond_2 = min_points is not None and self.data[:, self.feature].size < min_points
 
         # if either is true, then it is impossible to create any binning
         return cond_1 or cond_2
@@ -99,7 +100,7 @@ class BinBase:
 
         # if xs is not categorical, then one bin is possible if there are enough points only in one bin
         dy_dxs = self.data_effect[:, self.feature]
-        enough_for_one_bin = min_points <= dy_dxs.size < 2 * min_points
+        enough_for_one_bin = min_points is not None and min_points <= dy_dxs.size < 2 * min_points
         return is_categorical or enough_for_one_bin
 
     def _is_categorical(self, cat_limit):
-- 
2.43.0


From 6804878e9d026e2409847024d6588c795caa59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 08/55] fix: small feature ranges far from zero are not
 collapsed into a single bin

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 94521fc..f3f25e1 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -96,7 +96,7 @@ class BinBase:
         """
         min_points = self.method_args["min_points"]
         # if xs is categorical, then only one bin is possible
-        is_categorical = np.allclose(self.xs_min, self.xs_max)
+        is_categorical = self.xs_min == self.xs_max
 
         # if xs is not categorical, then one bin is possible if there are enough points only in one bin
         dy_dxs = self.data_effect[:, self.feature]
-- 
2.43.0


From 9123c7132d5da0def96972618d8b6ae28611f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 09/55] fix: an instance on a bin edge is counted in one bin
 when checking min points and costs

Bins were closed on both sides while searching but half-open when computing the
effect, so the bins found could hold fewer instances than requested.
---
 effector/bin_splitting.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f3f25e1..de462ba 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -1,7 +1,6 @@
 import typing
 
 import numpy as np
-import effector.utils as utils
 import effector.helpers as helpers
 import matplotlib.pyplot as plt
 
@@ -39,14 +38,16 @@ class BinBase:
         # limits: None if not set, False if no binning is possible, np.ndarray (N, 2) if binning is possible
         self.limits: typing.Union[None, False, np.ndarray] = None
 
+    def _points_in_bin(self, start, stop):
+        """Mask of the points in the bin [start, stop). Only the right-most bin includes its right limit."""
+        xs = self.data[:, self.feature]
+        before_stop = xs <= stop if stop >= self.xs_max else xs < stop
+        return np.logical_and(start <= xs, before_stop)
+
     def _bin_cost(self, start, stop, discount):
         min_points = self.method_args["min_points"]
         nof_points = self.data.shape[0]
-        data = self.data[:, self.feature]
-        data_effect = self.data_effect[:, self.feature]
-        data, data_effect = utils.filter_points_in_bin(
-            data, data_effect, np.array([start, stop])
-        )
+        data_effect = self.data_effect[self._points_in_bin(start, stop), self.feature]
 
         # compute cost
         if min_points is not None and data_effect.size < min_points:
@@ -66,11 +67,7 @@ class BinBase:
         if min_points is None:
             return True
 
-        xs = self.data[:, self.feature]
-        # dy_dxs = self.data_effect[:, self.feature]
-        filtered_points, _ = utils.filter_points_in_bin(xs, None, np.array([start, stop]))
-        valid = filtered_points.size >= min_points
-        return valid
+        return np.sum(self._points_in_bin(start, stop)) >= min_points
         
     def _none_valid_binning(self):
         """Check if it is impossible to create any binning
-- 
2.43.0


From da58bf80b67392bb6a9dc732c359d639dafb85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 10/55] fix: dynamic programming never prefers an invalid or
 empty bin

Costs above 1e8 exceeded the penalty of invalid bins and the cost of an empty
bin was NaN, which won every comparison.
---
 effector/bin_splitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index de462ba..3e2c781 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -1,12 +1,11 @@
 import typing
 
 import numpy as np
-import effector.helpers as helpers
 import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    big_M = np.inf
 
     def __init__(self,
                  feature: int,
@@ -267,7 +266,9 @@ class DP(BinBase):
             cost = 0
         else:
             start, stop = self._index_to_position(index_before, index_next, K)
-            cost = self._bin_cost(start, stop, discount)
+            # a bin without points has no cost and can not be part of the solution
+            is_empty = not np.any(self._points_in_bin(start, stop))
+            cost = big_M if is_empty else self._bin_cost(start, stop, discount)
         return cost
 
     def _argmatrix_to_limits(self, K):
-- 
2.43.0


From 934affdb344aca7a909821d4c16e999a4234adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 11/55] fix: dynamic programming bins end exactly at the axis
 limits

Accumulated rounding could leave the right-most instance outside the last bin.
---
 effector/bin_splitting.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 3e2c781..c0fc8c9 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -247,10 +247,8 @@ class DP(BinBase):
         super(DP, self).__init__(feature, data, data_effect, axis_limits)
 
     def _index_to_position(self, index_start, index_stop, K):
-        dx = (self.xs_max - self.xs_min) / K
-        start = self.xs_min + index_start * dx
-        stop = self.xs_min + index_stop * dx
-        return start, stop
+        positions = np.linspace(self.xs_min, self.xs_max, K + 1)
+        return positions[index_start], positions[index_stop]
 
     def _cost_of_move(self, index_before, index_next, K, discount):
         """Compute the cost of move.
@@ -274,7 +272,6 @@ class DP(BinBase):
     def _argmatrix_to_limits(self, K):
         assert "argmatrix" in self.method_outputs, "argmatrix not found in method_outputs"
         argmatrix = self.method_outputs["argmatrix"]
-        dx = (self.xs_max - self.xs_min) / K
 
         lim_indices = [int(argmatrix[-1, -1])]
         for j in range(K - 2, 0, -1):
@@ -292,7 +289,7 @@ class DP(BinBase):
                 lim_indices_1.append(lim)
                 before = lim
 
-        limits = self.xs_min + np.array(lim_indices_1) * dx
+        limits = np.linspace(self.xs_min, self.xs_max, K + 1)[lim_indices_1]
         dx_list = np.array(
             [limits[i + 1] - limits[i] for i in range(limits.shape[0] - 1)]
         )
-- 
2.43.0


From e46666367a678406ba95514dbf5203399b67d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 12/55] fix: refitting for another centering keeps the user's
 binning and centering options

---
 effector/global_effect.py      | 5 +++++
 effector/global_effect_ale.py  | 3 ++-
 effector/global_effect_pdp.py  | 3 ++-
 effector/global_effect_shap.py | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..b56042e 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -119,6 +119,11 @@ class GlobalEffectBase(ABC):
                     return True
         return False
 
+    def previous_fit_args(self, feature) -> dict:
+        """The arguments (except for centering) of the last fit of the feature, to be reused when refitting."""
+        args = self.method_args.get("feature_" + str(feature), {})
+        return {k: v for k, v in args.items() if k != "centering"}
+
     @abstractmethod
     def eval(
         self,
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 759c538..ad338d1 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,7 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self.previous_fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 5447542..9ab83ba 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -163,7 +163,8 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            fit_args = {"use_vectorized": use_vectorized, **self.previous_fit_args(feature)}
+            self.fit(features=feature, centering=centering, **fit_args)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..5e8ba24 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -230,7 +230,7 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self.previous_fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From c1e0be8574af337784c87e0c0ab4d2b57c9dd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 13/55] fix: axis limits of one feature do not drop instances
 of the others in PDP and SHAP-DP

---
 effector/global_effect_pdp.py  | 11 +++++------
 effector/global_effect_shap.py |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 9ab83ba..fbe4c8f 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,7 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -170,7 +168,8 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 5e8ba24..5ee188a 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,9 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +296,9 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        _, ind = helpers.prep_nof_instances(
+            nof_shap_values, self.feature_effect["feature_" + str(feature)]["xx"].shape[0]
+        )
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From 68430957dd4545000b6a60dc250595a0660e5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 14/55] fix: SHAP-DP is centered over the feature's axis, as
 the other methods

---
 effector/global_effect_shap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 5ee188a..53bd83e 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -126,11 +126,12 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            start, stop = self.axis_limits[:, feature]
+            x_norm = np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
+            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
         elif centering == "zero_start":
-            norm_const = spline_mean(xx[0])
+            norm_const = spline_mean(self.axis_limits[0, feature])
         else:
             norm_const = helpers.EMPTY_SYMBOL
 
-- 
2.43.0


From c483a9a0bf6560f449f3b6eea3e1a2dcdd4100d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 15/55] fix: points_for_centering="all" works, as documented

---
 effector/global_effect_pdp.py  | 17 ++++++++++-------
 effector/global_effect_shap.py | 10 ++++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index fbe4c8f..008cb1a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -50,7 +50,7 @@ class PDPBase(GlobalEffectBase):
         self,
         feature: int,
         centering: Union[bool, str] = False,
-        points_for_centering: int = 100,
+        points_for_centering: Union[int, str] = 100,
         use_vectorized: bool = True,
     ) -> dict:
 
@@ -58,11 +58,14 @@ class PDPBase(GlobalEffectBase):
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
-            xx = np.linspace(
-                self.axis_limits[0, feature],
-                self.axis_limits[1, feature],
-                points_for_centering,
-            )
+            if points_for_centering == "all":
+                xx = data[:, feature]
+            else:
+                xx = np.linspace(
+                    self.axis_limits[0, feature],
+                    self.axis_limits[1, feature],
+                    points_for_centering,
+                )
             y = self._predict(data, xx, feature, use_vectorized)
             norm_const = np.mean(y, axis=0)
             fe = {"norm_const": norm_const}
@@ -78,7 +81,7 @@ class PDPBase(GlobalEffectBase):
         self,
         features: Union[int, str, list] = "all",
         centering: Union[bool, str] = True,
-        points_for_centering: int = 100,
+        points_for_centering: Union[int, str] = 100,
         use_vectorized: bool = True,
     ):
         """
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 53bd83e..4305f9d 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -98,7 +98,7 @@ class ShapDP(GlobalEffectBase):
         self,
         feature: int,
         centering: typing.Union[bool, str] = False,
-        points_for_centering: int = 100,
+        points_for_centering: Union[int, str] = 100,
     ) -> typing.Dict:
 
         # drop points outside of limits
@@ -126,10 +126,12 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            start, stop = self.axis_limits[:, feature]
-            x_norm = np.linspace(start, stop, points_for_centering)
+            if points_for_centering == "all":
+                x_norm = xx
+            else:
+                x_norm = np.linspace(*self.axis_limits[:, feature], points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
+            norm_const = np.trapz(y_norm, x_norm) / (x_norm[-1] - x_norm[0])
         elif centering == "zero_start":
             norm_const = spline_mean(self.axis_limits[0, feature])
         else:
-- 
2.43.0


From f6d4a45ab04b32c2d42a5407a7c7e4d09dc17910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 16/55] fix: integer design matrices are not explained with
 truncated feature values

---
 effector/global_effect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index b56042e..d084e07 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -61,6 +61,8 @@ class GlobalEffectBase(ABC):
             nof_instances, data.shape[0]
         )
         data = data[self.indices, :]
+        if not np.issubdtype(data.dtype, np.floating):
+            data = data.astype(float)
 
         self.data: np.ndarray = data
         self.dim = self.data.shape[1]
-- 
2.43.0


From b8fcf31a90a22eb3d38fa2bb5afb034be5384a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 17/55] fix: nodes at depth two and below keep their own
 instance effects

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From fbdc5e12aea8185019ddbb011c34f3d80d9b807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 18/55] fix: instances on a split position belong to the region
 whose name contains them

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..cbe3de5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From a7af27ff24bf350e5668b53b453ca486eee7a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 19/55] fix: a node's effect uses all the instances of the node

---
 effector/regional_effect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..b0aedd1 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -162,11 +162,11 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From a1971c31ba488de4d7ad22a58c94cf65a78b0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 20/55] fix: evaluating a region uses the binning method the
 regional effect was fitted with

---
 effector/regional_effect.py     | 5 +++++
 effector/regional_effect_ale.py | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index b0aedd1..a155c86 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -170,6 +170,10 @@ class RegionalEffectBase:
         else:
             raise NotImplementedError
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        """Fit the global effect of a node; by default, it is fitted when evaluated."""
+        pass
+
     def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):
         """
         Evaluate the regional effect for a given feature and node.
@@ -197,6 +201,7 @@ class RegionalEffectBase:
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
         fe_method = self._create_fe_object(data, data_effect, None)
+        self._fit_fe_object(fe_method, feature, centering)
         return fe_method.eval(feature, xs, heterogeneity, centering)
 
     def fit(self, *args, **kwargs):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..68060d0 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -144,6 +144,10 @@ class RegionalRHALE(RegionalEffectBase):
                 "binning_method": binning_method,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
@@ -292,6 +296,10 @@ class RegionalALE(RegionalEffectBase):
                 "centering": centering,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
-- 
2.43.0


From 423a6a1862cfc3995a8525e60cf660d1e8978495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 21/55] fix: plotting a region uses the same method and
 instances as evaluating it

---
 effector/regional_effect_ale.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 68060d0..4956588 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -171,11 +171,10 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        fe_method = self._create_fe_object(data, data_effect, feature_names)
+        self._fit_fe_object(fe_method, feature, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        fe_method.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 class RegionalALE(RegionalEffectBase):
@@ -323,11 +322,10 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        fe_method = self._create_fe_object(data, data_effect, feature_names)
+        self._fit_fe_object(fe_method, feature, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        fe_method.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From 644c1d534fa2ab6435bdedfa0e02bfbcba4132fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 22/55] fix: plotting with scaled axes does not change what
 get_node_info returns later

---
 effector/regional_effect.py     | 14 ++++----------
 effector/regional_effect_ale.py | 12 ++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index a155c86..6152448 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -82,8 +82,6 @@ class RegionalEffectBase:
         self.partitioners: typing.Dict[str, Regions] = {}
         self.tree_full: typing.Dict[str, Tree] = {}
         self.tree_pruned: typing.Dict[str, Tree] = {}
-        self.tree_full_scaled: typing.Dict[str, Tree] = {}
-        self.tree_pruned_scaled: typing.Dict[str, Tree] = {}
 
     def _fit_feature(
         self,
@@ -135,12 +133,12 @@ class RegionalEffectBase:
         if not self.is_fitted[feature]:
             self.fit(feature)
 
-    def get_node_info(self, feature, node_idx):
+    def get_node_info(self, feature, node_idx, scale_x_list=None):
         assert self.is_fitted[feature], "Feature {} has not been fitted yet".format(feature)
         assert self.tree_pruned["feature_{}".format(feature)] is not None, "Feature {} has no splits".format(feature)
 
-        if self.tree_pruned_scaled is not None and "feature_{}".format(feature) in self.tree_pruned_scaled.keys():
-            tree = self.tree_pruned_scaled["feature_{}".format(feature)]
+        if scale_x_list is not None:
+            tree = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
         else:
             tree = self.tree_pruned["feature_{}".format(feature)]
 
@@ -218,11 +216,7 @@ class RegionalEffectBase:
 
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
         fe_method = self._create_fe_object(data, data_effect, feature_names)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 4956588..518de7f 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -161,11 +161,7 @@ class RegionalRHALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
@@ -312,11 +308,7 @@ class RegionalALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
-- 
2.43.0


From b6131be461f665277ff276a3b905e05c172881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 23/55] fix: regional PDP measures the heterogeneity of the
 centered ICE curves when asked to center

---
 effector/regional_effect_pdp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..515a231 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -55,7 +55,9 @@ class RegionalPDPBase(RegionalEffectBase):
 
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
-                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
+                _, z = pdp.eval(
+                    feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized
+                )
             except:
                 return BIG_M
             return np.mean(z)
-- 
2.43.0


From 19491f79ba475ab5b1842e005dcd4556cb35968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 24/55] fix: categorical features may have more values than
 cat_limit

---
 effector/partitioning.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cbe3de5..8e19a6f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,20 +149,10 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
-
         data = self.data
 
         big_M = -BIG_M
 
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -171,6 +161,15 @@ class Regions:
             else self.find_positions_cont(data, foc_i, nof_splits)
             for i, foc_i in enumerate(foc)
         ]
+        max_nof_positions = max([len(positions) for positions in candidate_split_positions])
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j
+        weighted_heter_drop = np.ones([len(foc), max_nof_positions]) * big_M
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j
+        weighted_heter = np.ones([len(foc), max_nof_positions]) * big_M
 
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
-- 
2.43.0


From 380dffbb93f8ecd9f6a8c494392e8d1ce956f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 25/55] fix: level statistics of perfectly homogeneous trees
 can be printed

---
 effector/partitioning.py    | 4 +++-
 effector/regional_effect.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 8e19a6f..e241bfb 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -572,7 +572,9 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                heter_drop = prev_heter - level_stats['heterogeneity']
+                heter_drop_pcg = 100 * heter_drop / prev_heter if prev_heter != 0 else 0.
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], heter_drop, heter_drop_pcg))
             prev_heter = level_stats['heterogeneity']
 
 
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 6152448..09ed66a 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -309,7 +309,8 @@ class RegionalEffectBase:
                 print("  - Heterogeneity after split: {:.2f}".format(weight_heter))
                 weight_heter_drop = weight_heter_before - weight_heter
                 print("  - Heterogeneity drop: {:.2f} ({:.2f} %)".format(
-                    weight_heter_drop, weight_heter_drop / weight_heter_before * 100)
+                    weight_heter_drop,
+                    weight_heter_drop / weight_heter_before * 100 if weight_heter_before != 0 else 0.)
                 )
 
                 nof_instances_before = [nod.data["nof_instances"] for nod in previous_level_nodes]
-- 
2.43.0


From b4604f70aefc809035aee56fd3afe4d1fac210b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 26/55] fix: regions on which SHAP-DP cannot be fitted count as
 maximally heterogeneous

---
 effector/regional_effect_shap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 0349659..a072ad8 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -85,8 +85,11 @@ class RegionalShapDP(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-            shap.fit(foi, centering, points_for_centering)
-            _, z = shap.eval(foi, xx, heterogeneity=True)
+            try:
+                shap.fit(foi, centering, points_for_centering)
+                _, z = shap.eval(foi, xx, heterogeneity=True)
+            except:
+                return self.big_m
             return np.mean(z)
 
         return heterogeneity_function
-- 
2.43.0


From d7ad856a00e60068436e9e2e7023324c3558bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 27/55] fix: numerical jacobian of integer data

---
 effector/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/utils.py b/effector/utils.py
index 38a1372..83138c3 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -486,6 +486,8 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
     jacobian = np.zeros_like(data)
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
-- 
2.43.0


From a474e6594efb27430f5d9bde7b4336ca38c8347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 28/55] fix: ALE plots can scale either axis alone

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..116eb54 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1.0 if scale_x is None else scale_x["std"]
+    std_y = 1.0 if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From c1d41dec6e6067fb20aef3a3a9c454289926f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 29/55] fix: SHAP-DP plots without scattered values can be
 scaled

---
 effector/visualization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 116eb54..ba6d83a 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,14 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    if xx is not None and scale_x is not None:
+        xx = trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        yy = trans_affine(yy, scale_y["mean"], scale_y["std"]) if yy is not None else None
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From 495fd8a3c421032c9584be8a35bbaabf6cbd9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 30/55] fix: the std_err band of PDP plots is the standard
 error of the mean

---
 effector/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index ba6d83a..d9bd42c 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -159,7 +159,7 @@ def plot_pdp_ice(
 
     y_ice_outputs = yy
     std = np.std(y_ice_outputs, axis=1)
-    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))
+    std_err = std / np.sqrt(y_ice_outputs.shape[1])
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-- 
2.43.0


From fed4c45d41b2f25a30d9744ad33afa8af730d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 31/55] fix: d-PDP plots are drawn, labelled and scaled as
 derivatives

---
 effector/global_effect_pdp.py |  1 +
 effector/visualization.py     | 17 +++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 008cb1a..e228e65 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -261,6 +261,7 @@ class PDPBase(GlobalEffectBase):
             target_name=self.target_name,
             nof_ice=nof_ice,
             y_limits=y_limits,
+            is_derivative=self.method_name != "pdp",
         )
 
 
diff --git a/effector/visualization.py b/effector/visualization.py
index d9bd42c..4c18cdb 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -165,15 +165,16 @@ def plot_pdp_ice(
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
-    if scale_y is not None:
-        std = trans_scale(std, scale_y["std"], square=False)
+    if is_derivative:
+        std_x = 1.0 if scale_x is None else scale_x["std"]
+        std_y = 1.0 if scale_y is None else scale_y["std"]
+        std_err = trans_bin(std_err, std_x, std_y)
+        y_pdp_output = trans_bin(y_pdp_output, std_x, std_y)
+        y_ice_outputs = trans_bin(y_ice_outputs, std_x, std_y)
+    elif scale_y is not None:
         std_err = trans_scale(std_err, scale_y["std"], square=False)
-        if is_derivative:
-            y_pdp_output = trans_scale(y_pdp_output, scale_y["std"], square=False)
-            y_ice_outputs = trans_scale(y_ice_outputs, scale_y["std"], square=False)
-        elif not is_derivative:
-            y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
-            y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
+        y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
+        y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
 
     # if avg_output is not None and scale_y is not None:
     #     if not is_derivative:
-- 
2.43.0


From 6e6410d7f9c856aef9dd7e013089677d6c224f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 32/55] fix: default axis labels are the documented feature
 names

---
 effector/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4c18cdb..a19e779 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -98,7 +98,7 @@ def ale_plot(
 
     ax1.set_ylim(y_limits[0], y_limits[1]) if y_limits is not None else None
 
-    x_name = "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+    x_name = "x_%d" % feature if feature_names is None else feature_names[feature]
     ax2.set_xlabel(x_name)
     ax2.set_ylabel("dy/dx")
 
@@ -213,7 +213,7 @@ def plot_pdp_ice(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     if is_derivative:
@@ -280,7 +280,7 @@ def plot_shap(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     ax.set_ylabel("y") if target_name is None else ax.set_ylabel(target_name)
-- 
2.43.0


From 18e6216468de45658e45fb68a7f7f137c61f485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 33/55] fix: H-index passes the arguments the PDP functions
 take

---
 effector/interaction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..24755e4 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -115,14 +115,14 @@ class HIndex:
 
     def _pdp_1d(self, feature, x):
         # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
     def _pdp_2d(self, feature1, feature2, x1, x2):
         features = [feature1, feature2]
         x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -131,7 +131,7 @@ class HIndex:
         features = [i for i in range(self.nof_features) if i != feature]
         assert len(features) == x.shape[1]
 
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
-- 
2.43.0


From 7b664164900e922c8ebbc38c1b2cbdaf4f014251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 34/55] fix: REPID uses what PDP.eval takes and returns

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 24755e4..ccd6fc7 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -208,7 +208,7 @@ class REPID:
         stop = axis_limits[:, feat][1]
         x = np.linspace(start, stop, 21)
         x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
         interaction = np.mean(std)
 
         # store the interaction index
-- 
2.43.0


From 9e7bbb80d24f8daccaa2f8e16e4ee0857bd650e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 35/55] fix: REPID uses all the instances it was asked to use

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index ccd6fc7..a968419 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -200,7 +200,7 @@ class REPID:
             return self.one_vs_all_matrix[feat]
 
         axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
         pdp.fit(feat)
 
         # find the interaction index
-- 
2.43.0


From eca5880fa141c9f49f11f50861aa3f18dae8c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 36/55] fix: plotting the H-index matrix does not change it

---
 effector/interaction.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index a968419..600eb04 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -140,17 +140,16 @@ class HIndex:
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
         # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
-        for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+        matrix = self.interaction_matrix.copy()
+        np.fill_diagonal(matrix, np.mean(self.interaction_matrix))
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From f72ca5ddfefe157e6b3f3b86ae470460550b9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 37/55] fix: the H-index of a feature with itself is zero
 before fitting, too

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index 600eb04..fa82012 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -31,6 +31,7 @@ class HIndex:
 
         # init
         self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        np.fill_diagonal(self.interaction_matrix, 0)
         self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
 
         # flags
-- 
2.43.0


From 5f192f714ded866d6efed89c0764ecd4114da24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 38/55] fix: REPID.plot computes the scores that a partial fit
 left out

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index fa82012..42062a2 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -193,7 +193,7 @@ class REPID:
         for i, feat in enumerate(features):
             print("Feature: ", feat)
             self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
+        self.fitted_one_vs_all_matrix = self.empty_symbol not in self.one_vs_all_matrix
 
     def eval_one_vs_all(self, feat):
         if self.one_vs_all_matrix[feat] != self.empty_symbol:
-- 
2.43.0


From 97f2720b7b9a3fb4b39996eb307dca8e3c4baad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 39/55] fix: the one-versus-rest H-index centers the model
 output, as its definition

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index 42062a2..55d6b7a 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -107,6 +107,7 @@ class HIndex:
         pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
 
         yy = self.model(self.data)
+        yy = yy - np.mean(yy)
         nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
         denom = np.mean(np.square(yy))
         interaction = nom / denom
-- 
2.43.0


From 13c0c67ad23ff15f67e29de6470ab626355e8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 40/55] fix: the data transformer does not depend on the order
 of the splits dictionary

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index e241bfb..03beeec 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -585,7 +585,8 @@ class DataTransformer:
     def transform(self, X):
         # feat_mapping <- to how many features each feature is mapped
         feat_mapping = []
-        for split in self.splits.values():
+        for feat in range(X.shape[1]):
+            split = self.splits["feat_{}".format(feat)]
             if len(split) == 0:
                 feat_mapping.append(1)
             else:
-- 
2.43.0


From 6ec078ab528c6c035ea01b078c185ce3a91da748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 41/55] fix: numerical derivatives are right for models that
 return a view of their input

---
 effector/global_effect_pdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index e228e65..eaa62bd 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -471,6 +471,7 @@ def pdp_1d_non_vectorized(
             x_new = copy.deepcopy(data)
             x_new[:, feature] = x[k] + 1e-6
             y_1 = model(x_new)
+            x_new = copy.deepcopy(data)
             x_new[:, feature] = x[k] - 1e-6
             y_2 = model(x_new)
             y = (y_1 - y_2) / (2 * 1e-6)
-- 
2.43.0


From e0b45b78534a1b108a3b61aee780b59ae1cef0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 42/55] fix: regional effects of integer data name and compute
 regions as for floats

---
 effector/regional_effect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 09ed66a..853eaea 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -43,6 +43,8 @@ class RegionalEffectBase:
             nof_instances, data.shape[0]
         )
         self.data = data[self.indices, :]
+        if not np.issubdtype(self.data.dtype, np.floating):
+            self.data = self.data.astype(float)
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
-- 
2.43.0


From 71ce9bffa7a9f0bebe8211b4b044bc1225864e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 43/55] fix: refuse feature selections that are not features of
 the data

---
 effector/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/helpers.py b/effector/helpers.py
index 872c684..35cf98d 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -9,10 +9,12 @@ EMPTY_SYMBOL = 1e8
 
 def prep_features(feat: typing.Union[str, list], D) -> list:
     assert type(feat) in [list, str, int]
-    if feat == "all":
+    if type(feat) is str:
+        assert feat == "all"
         feat = [i for i in range(D)]
     elif type(feat) == int:
         feat = [feat]
+    assert all(0 <= f < D for f in feat)
     return feat
 
 
-- 
2.43.0


From 1fc70ab061f35deb2d8b69ca145f9bd2feec05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 44/55] fix: regional effects refuse an unknown centering
 instead of ignoring it

---
 effector/regional_effect_ale.py  | 2 ++
 effector/regional_effect_pdp.py  | 1 +
 effector/regional_effect_shap.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 518de7f..2bf167a 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -116,6 +116,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
@@ -262,6 +263,7 @@ class RegionalALE(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 515a231..6142011 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -95,6 +95,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(feat, min_points_per_subregion, centering, nof_instances, points_for_centering, use_vectorized)
 
diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index a072ad8..07a0be0 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -126,6 +126,7 @@ class RegionalShapDP(RegionalEffectBase):
         """
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, min_points_per_subregion, centering, points_for_centering
-- 
2.43.0


From cd6869028069af07377abd2e5d47dcb12f3a4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 45/55] fix: regional ALE refuses binning methods that ALE
 cannot use

---
 effector/regional_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 2bf167a..6336657 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -214,7 +214,7 @@ class RegionalALE(RegionalEffectBase):
 
     def _create_heterogeneity_function(self, foi, binning_method, min_points, centering):
         binning_method = prep_binning_method(binning_method)
-        isinstance(binning_method, binning_methods.Fixed)
+        assert isinstance(binning_method, binning_methods.Fixed), "ALE can work only with the fixed binning method!"
         
         def heter(data, instance_effects=None) -> float:
             if data.shape[0] < min_points:
-- 
2.43.0


From 113333367e07caa695866dea8df8632e8787a635 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 46/55] fix: changing axis limits, names or types passed to a
 constructor changes later answers

---
 effector/global_effect.py   | 5 +++--
 effector/regional_effect.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index d084e07..5e4f387 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from typing import Callable, List, Optional, Union, Tuple
 from effector import helpers
@@ -74,11 +75,11 @@ class GlobalEffectBase(ABC):
         )
 
         axis_limits = (
-            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
+            helpers.axis_limits_from_data(data) if axis_limits is None else np.array(axis_limits)
         )
         self.axis_limits: np.ndarray = axis_limits
 
-        self.feature_names: Union[None, list] = feature_names
+        self.feature_names: Union[None, list] = copy.copy(feature_names)
         self.target_name: Union[None, str] = target_name
 
         # state variable
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 853eaea..e224401 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -50,7 +50,7 @@ class RegionalEffectBase:
 
         # set axis_limits
         axis_limits = (
-            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
+            helpers.axis_limits_from_data(data) if axis_limits is None else np.array(axis_limits)
         )
         self.axis_limits: np.ndarray = axis_limits
 
@@ -59,7 +59,7 @@ class RegionalEffectBase:
         feature_types = (
             utils.get_feature_types(data, cat_limit)
             if feature_types is None
-            else feature_types
+            else copy.copy(feature_types)
         )
         self.feature_types: list = feature_types
 
@@ -67,7 +67,7 @@ class RegionalEffectBase:
         feature_names: list[str] = (
             helpers.get_feature_names(axis_limits.shape[1])
             if feature_names is None
-            else feature_names
+            else copy.copy(feature_names)
         )
         self.feature_names: list = feature_names
 
-- 
2.43.0


From d8c9e42e5ca2a38b705563f6dd39209677444a81 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 47/55] fix: changing the splits passed to DataTransformer
 changes later transformations

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 03beeec..3be2f35 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -1,3 +1,4 @@
+import copy
 import typing
 import numpy as np
 import itertools
@@ -580,7 +581,7 @@ class Tree:
 
 class DataTransformer:
     def __init__(self, splits: typing.Dict):
-        self.splits = splits
+        self.splits = copy.deepcopy(splits)
 
     def transform(self, X):
         # feat_mapping <- to how many features each feature is mapped
-- 
2.43.0


From 51a7e0f58e9e131be94eaff18d9b5c515de2b939 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 48/55] fix: changing a binning method object after fitting
 changes later evaluations

---
 effector/global_effect_ale.py   | 3 ++-
 effector/regional_effect_ale.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index ad338d1..fe16ae8 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -1,3 +1,4 @@
+import copy
 import typing
 from typing import Callable, List, Optional, Union, Tuple
 import effector.utils as utils
@@ -85,7 +86,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
-                "binning_method": binning_method,
+                "binning_method": copy.deepcopy(binning_method),
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 6336657..19eef5f 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -142,7 +142,7 @@ class RegionalRHALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": copy.deepcopy(binning_method),
             }
 
     def _fit_fe_object(self, fe_method, feature, centering):
@@ -289,7 +289,7 @@ class RegionalALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": copy.deepcopy(binning_method),
                 "centering": centering,
             }
 
-- 
2.43.0


From 84dff159c222cfd96dcd21b83a8376debd126df2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 49/55] fix: changing the arrays of get_node_info changes later
 evaluations of the node

---
 effector/regional_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index e224401..a1418ac 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -151,8 +151,8 @@ class RegionalEffectBase:
         node = [node for node in tree.nodes if node.idx == node_idx][0]
 
         # get data
-        data = node.data["data"]
-        data_effect = node.data["data_effect"]
+        data = np.array(node.data["data"])
+        data_effect = copy.deepcopy(node.data["data_effect"])
         name = node.name
         return data, data_effect, name
 
-- 
2.43.0


From 95f2b7d4c5f4fde25b2268b8458cc75155956aa7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 50/55] fix: regional effects swallow failures of the model and
 interrupts, and return wrong trees

---
 effector/helpers.py              | 20 ++++++++++++++++++++
 effector/regional_effect_ale.py  | 14 ++++++++++----
 effector/regional_effect_pdp.py  | 13 +++++++++----
 effector/regional_effect_shap.py |  7 +++++--
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/effector/helpers.py b/effector/helpers.py
index 35cf98d..8f42139 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -7,6 +7,26 @@ EPS = 1e-8
 EMPTY_SYMBOL = 1e8
 
 
+class FailureGuard:
+    """Tells failures of the watched functions (the model, its Jacobian) from all other errors."""
+
+    def __init__(self):
+        self.failed = False
+
+    def watch(self, func):
+        if func is None:
+            return None
+
+        def watched(*args):
+            try:
+                return func(*args)
+            except BaseException:
+                self.failed = True
+                raise
+
+        return watched
+
+
 def prep_features(feat: typing.Union[str, list], D) -> list:
     assert type(feat) in [list, str, int]
     if type(feat) is str:
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 19eef5f..43259c1 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -68,10 +68,13 @@ class RegionalRHALE(RegionalEffectBase):
             if data.shape[0] < min_points:
                 return BIG_M
 
-            rhale = RHALE(data, self.model, self.model_jac, "all", None, instance_effects)
+            guard = helpers.FailureGuard()
+            rhale = RHALE(data, guard.watch(self.model), guard.watch(self.model_jac), "all", None, instance_effects)
             try:
                 rhale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except Exception:
+                if guard.failed:
+                    raise
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
@@ -220,10 +223,13 @@ class RegionalALE(RegionalEffectBase):
             if data.shape[0] < min_points:
                 return BIG_M
 
-            ale = ALE(data, self.model, "all", None, instance_effects)
+            guard = helpers.FailureGuard()
+            ale = ALE(data, guard.watch(self.model), "all", None, instance_effects)
             try:
                 ale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except Exception:
+                if guard.failed:
+                    raise
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 6142011..0dbe72a 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -40,14 +40,17 @@ class RegionalPDPBase(RegionalEffectBase):
             if data.shape[0] < min_points:
                 return BIG_M
 
+            guard = helpers.FailureGuard()
             if self.method_name == "pdp":
-                pdp = PDP(data, self.model, self.axis_limits, nof_instances=nof_instances)
+                pdp = PDP(data, guard.watch(self.model), self.axis_limits, nof_instances=nof_instances)
             else:
-                pdp = DerPDP(data, self.model, self.model_jac, self.axis_limits, nof_instances=nof_instances)
+                pdp = DerPDP(data, guard.watch(self.model), guard.watch(self.model_jac), self.axis_limits, nof_instances=nof_instances)
 
             try:
                 pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
-            except:
+            except Exception:
+                if guard.failed:
+                    raise
                 return BIG_M
 
             # heterogeneity is the mean heterogeneity over the curve
@@ -58,7 +61,9 @@ class RegionalPDPBase(RegionalEffectBase):
                 _, z = pdp.eval(
                     feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized
                 )
-            except:
+            except Exception:
+                if guard.failed:
+                    raise
                 return BIG_M
             return np.mean(z)
 
diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 07a0be0..c2ca957 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -84,11 +84,14 @@ class RegionalShapDP(RegionalEffectBase):
             axis_limits = helpers.axis_limits_from_data(data)
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
-            shap = ShapDP(data, self.model, None, self.nof_instances)
+            guard = helpers.FailureGuard()
+            shap = ShapDP(data, guard.watch(self.model), None, self.nof_instances)
             try:
                 shap.fit(foi, centering, points_for_centering)
                 _, z = shap.eval(foi, xx, heterogeneity=True)
-            except:
+            except Exception:
+                if guard.failed:
+                    raise
                 return self.big_m
             return np.mean(z)
 
-- 
2.43.0


From bc6cface9ce95ac2820d6ccf959d1c2f9a388950 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:17:36 +0000
Subject: [PATCH 51/55] fix: fitting the H-index installs a handler on the root
 logger of the caller's process

---
 effector/interaction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 55d6b7a..3625a97 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -40,22 +40,22 @@ class HIndex:
 
     def fit(self, pairwise_matrix=True, one_vs_all=True):
         if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
+            logging.getLogger(__name__).info("\nH-Index interaction matrix: Start fitting")
             for i in range(self.nof_features):
                 print("Feature: ", i)
                 self.interaction_matrix[i, i] = 0
                 for j in range(i + 1, self.nof_features):
                     self.eval_pairwise(i, j)
             self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
+            logging.getLogger(__name__).info("H-Index interaction matrix: Fitting done")
 
         if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            logging.getLogger(__name__).info("\nH-Index one-vs-all matrix: Start fitting")
             for i in range(self.nof_features):
                 print("Feature: ", i)
                 self.eval_one_vs_all(i)
             self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
+            logging.getLogger(__name__).info("H-Index one-vs-all matrix: Fitting done")
 
     def plot(self, interaction_matrix=True, one_vs_all=True):
         # if not fitted, fit
-- 
2.43.0


From cb409742bb9246a140566617664c6758cc496be8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 52/55] fix: the padding of the table of candidate splits is
 never chosen

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 3be2f35..0818cf2 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -152,7 +152,7 @@ class Regions:
         heter_func = self.heter_func
         data = self.data
 
-        big_M = -BIG_M
+        big_M = -np.inf
 
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
-- 
2.43.0


From 4ac1b1a5a8e7f14dd188dbcdf564498bbcfee8b0 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 53/55] fix: models with outputs beyond 1e8 get the same
 regions as their rescaled versions

---
 effector/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/helpers.py b/effector/helpers.py
index 8f42139..6d5f9b2 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -2,7 +2,7 @@ import typing
 import numpy as np
 
 
-BIG_M = 1e8
+BIG_M = 1e30
 EPS = 1e-8
 EMPTY_SYMBOL = 1e8
 
-- 
2.43.0


From a5f5997005f784c39d6986b2b3f94669541be43f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:16:27 +0000
Subject: [PATCH 54/55] fix: compute_local_effects cuts the bin limits of
 integer data down to integers

---
 effector/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effector/utils.py b/effector/utils.py
index 83138c3..5292e41 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -69,6 +69,10 @@ def compute_local_effects(
     assert limits[0] <= np.min(data[:, feature])
     assert limits[-1] >= np.max(data[:, feature])
 
+    # the limits are not necessarily integers
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
+
     # for each point, find the bin-index it belongs to
     ind = find_bin_indices(data[:, feature], limits)
     assert np.all(ind > 0)
-- 
2.43.0


From 5a75a1cb980f2ecbdbc0546ae103d4426573eb64 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 55/55] fix: partial dependence on integer data cuts the
 positions down to integers

---
 effector/global_effect_pdp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index eaa62bd..c4f3900 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -463,6 +463,8 @@ def pdp_1d_non_vectorized(
         The PDP values `y` that correspond to `x`, if heterogeneity is False, `(y, std, stderr)` otherwise
 
     """
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
     nof_instances = x.shape[0]
 
     y_list = []
@@ -542,6 +544,8 @@ def pdp_1d_vectorized(
 
     """
 
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
     nof_instances = data.shape[0]
     x_new = copy.deepcopy(data)
     x_new = np.expand_dims(x_new, axis=0)
@@ -610,6 +614,9 @@ def pdp_nd_non_vectorized(
     """
     assert len(features) == x.shape[1]
 
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
+
     # nof positions to evaluate the PDP
     K = x.shape[0]
 
@@ -685,6 +692,8 @@ def pdp_nd_vectorized(
     """
 
     assert len(features) == x.shape[1]
+    if not np.issubdtype(data.dtype, np.floating):
+        data = data.astype(float)
     nof_instances = data.shape[0]
     x_new = copy.deepcopy(data)
     x_new = np.expand_dims(x_new, axis=0)
-- 
2.43.0

