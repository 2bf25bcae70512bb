From cf17e9d72d274c333d03014ea356e6aed110abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 01/39] fix: keep walk-forward window boundaries on the time
 axis

Snapping the boundaries to existing groups made training and test windows share a group (leak), test windows
overlap, or indexing fail whenever groups were missing; zero-length windows looped or trained on the test set.
---
 quantfinlib/train_test_split/walk_forward.py | 47 ++++++++++----------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..0d7160b 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -112,19 +112,28 @@ class WalkForward(BaseCV):
         groups = groups if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
-        # Calculate the boundaries of the training set
+        if min(self.train_window, self.test_window) < time_unit:
+            raise ValueError("train_window and test_window must be at least 1.")
+
+        # The boundaries are kept on the time axis, the end of a window is exclusive. Snapping them to the groups that
+        # happen to be present would make the training and test windows overlap when groups are missing.
         train_start_group = groups[0]
-        train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
-        ]
-        # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
-        while train_end_group < groups[-1]:
-            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
-            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
+        test_start_group = train_start_group + self.train_window
+        if test_start_group > groups[-1]:
+            raise ValueError("The training window leaves no data for testing.")
+        while test_start_group <= groups[-1]:
+            test_end_group = test_start_group + self.test_window
+            train_index = indices[(groups >= train_start_group) & (groups < test_start_group)]
+            test_index = indices[(groups >= test_start_group) & (groups < test_end_group)]
+            # update the boundaries of the training and test sets
+            if self.split_type == "rolling":
+                train_start_group = train_start_group + self.test_window
+            test_start_group = test_end_group
+            # a test window that lies entirely in a gap between groups has nothing to test
+            if len(test_index) == 0:
+                continue
+            if len(train_index) == 0:
+                raise ValueError("The training window contains no data.")
             if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
                 isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
             ):
@@ -137,18 +146,8 @@ class WalkForward(BaseCV):
                 )
             yield train_index, test_index
             self.n_splits += 1
-            # if the current end group of the test set is the last group, then we have reached the end of the data
-            if test_end_group >= groups[-1]:
-                self._finalized_splits = True
-                break
-            # update the boundaries of the training and test sets
-            if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
-            test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
-            ]
+        # all test windows up to the last group are done
+        self._finalized_splits = True
 
 
 def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-- 
2.43.0


From d6644fb171c44d751765c4fa672c3a519e925892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 02/39] fix: count walk-forward splits per pass

The counter was never reset, so a second or an abandoned pass on the same splitter made get_n_splits report the
sum over all passes.
---
 quantfinlib/train_test_split/walk_forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 0d7160b..5c6ad37 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -117,6 +117,7 @@ class WalkForward(BaseCV):
 
         # The boundaries are kept on the time axis, the end of a window is exclusive. Snapping them to the groups that
         # happen to be present would make the training and test windows overlap when groups are missing.
+        n_splits = 0
         train_start_group = groups[0]
         test_start_group = train_start_group + self.train_window
         if test_start_group > groups[-1]:
@@ -145,8 +146,9 @@ class WalkForward(BaseCV):
                     n_embargo=self.n_embargo,
                 )
             yield train_index, test_index
-            self.n_splits += 1
+            n_splits += 1
         # all test windows up to the last group are done
+        self.n_splits = n_splits
         self._finalized_splits = True
 
 
-- 
2.43.0


From 9568852d170edec24cda1cf4ceb0a77798241d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:15 +0000
Subject: [PATCH 03/39] fix: accept Series groups and integer groups of any
 width in the splitters

Series groups were indexed by label and failed; embargo and purge offsets of unsigned or narrow integer groups
wrapped around, so nothing was embargoed or purged and unsorted unsigned groups passed validation.
---
 quantfinlib/train_test_split/_base.py        | 14 +++++++++++++-
 quantfinlib/train_test_split/kfoldpe.py      |  3 ++-
 quantfinlib/train_test_split/walk_forward.py |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..e62bd95 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -131,6 +131,18 @@ def _embargo(
     return train_index
 
 
+def _positional_groups(groups: GroupType) -> GroupType:
+    """Return the groups as positionally indexable values whose offsets by embargo or purge cannot overflow.
+
+    A Series is indexed by label, and the difference of narrow or unsigned integers wraps around.
+    """
+    if isinstance(groups, pd.Series):
+        groups = pd.DatetimeIndex(groups) if pd.api.types.is_datetime64_any_dtype(groups) else groups.to_numpy()
+    if isinstance(groups, np.ndarray) and np.issubdtype(groups.dtype, np.integer):
+        groups = groups.astype(np.int64)
+    return groups
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
@@ -171,7 +183,7 @@ class BaseCV(ABC):
             raise TypeError("y must be a numpy array or a Series")
         if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
             raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+        if isinstance(groups, np.ndarray) and not np.all(groups[1:] >= groups[:-1]):
             raise ValueError("groups must be sorted in ascending order")
         if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
             raise ValueError("groups must be sorted in ascending order")
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..a0c24f5 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -138,6 +138,7 @@ class TimeAwareKFold(BaseCV):
             n_purge = self.n_purge
         if groups is None:
             groups = np.arange(X.shape[0])
+        groups = _positional_groups(groups)
         indices = np.arange(X.shape[0])
         assert len(groups) == len(indices), "Groups and indices must have the same length."
         test_indices_per_fold = np.array_split(indices, self.n_folds)
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 5c6ad37..648c1b3 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -109,7 +109,7 @@ class WalkForward(BaseCV):
         super().split(X, y, groups)
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
-        groups = groups if groups is not None else np.arange(n_samples)
+        groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
         if min(self.train_window, self.test_window) < time_unit:
-- 
2.43.0


From c3cc33bf70230f4c00c1a0e28567e6eb56e42c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:21 +0000
Subject: [PATCH 04/39] fix: reject k-fold settings in which a group swallows a
 whole fold

With date groups such a fold was yielded with an empty test set and an unpurged training set; with integer groups
it failed inside numpy after the first folds had been yielded.
---
 quantfinlib/train_test_split/kfoldpe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index a0c24f5..df1ae47 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -145,6 +145,8 @@ class TimeAwareKFold(BaseCV):
         # fix the bounds of the folds so that there is no overlap between their groups
         bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
         bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
+        if np.any(bound_per_fold[:, 0] > bound_per_fold[:, 1]):
+            raise ValueError("A group spans an entire fold. Use fewer folds.")
         test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
         if self.look_forward:
             test_indices_per_fold = test_indices_per_fold[1:]
-- 
2.43.0


From e1043cb6e991ce3c4cdfcbd74d86603c2d922cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 05/39] fix: derive dt from label_freq when sampling, as
 documented

path_sample ignored label_freq when dt was omitted, e.g. monthly labels came with daily steps.
---
 quantfinlib/sim/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..55cbb08 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -222,7 +222,9 @@ class SimBase(ABC):
 
         x0 = x0.reshape(1, -1)
 
-        # if dt not t is provided then align dt with the fitting()
+        # if dt not t is provided then align dt with the labels, and else with the fitting()
+        if (dt is None) and (label_freq is not None):
+            dt = time_series_freq_to_duration(label_freq)
         if dt is None:
             if is_fitted:
                 dt = self.fit_dt_
-- 
2.43.0


From bacced990c644246ef494f07987028b6f007e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 06/39] fix: know the duration of anchored frequency codes

pandas infers 'W-SUN', 'QE-DEC' or 'YS-JAN' for weekly, quarterly and yearly data, so fitting such data without dt
failed.
---
 quantfinlib/_datatypes/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..b2e0ea3 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -196,4 +196,5 @@ def time_series_freq_to_duration(freq: str) -> Optional[float]:
 
     #  secs = pd.to_timedelta(pd.tseries.frequencies.to_offset("H")).total_seconds()
 
-    return _time_series_freq_to_duration_map.get(freq, None)
+    # pandas anchors weekly, quarterly and yearly codes, e.g. 'W-SUN' or 'QE-DEC', the anchor doesn't affect the duration
+    return _time_series_freq_to_duration_map.get(str(freq).split("-")[0], None)
-- 
2.43.0


From 7ad0a903f0bb030bf3c516e7507e6c3ce6bb033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:20 +0000
Subject: [PATCH 07/39] fix: format sampled paths without date index and Series
 without start row

Column names or a fit on pandas data without a DatetimeIndex raised UnboundLocalError, and include_x0=False raised
IndexingError for a Series.
---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 55cbb08..cdd0f38 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -292,6 +292,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
@@ -314,7 +315,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From 6463ab0f04bc4066d4cd342acd1f499d5491f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 08/39] fix: fit and sample every series of a multi-variate
 Ornstein-Uhlenbeck model

The fit kept only the last column's regression, as scalars that path_sample could not use, and sampling several
paths of several variates failed to broadcast the mean reversion factor.
---
 quantfinlib/sim/_ou.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..a552f0e 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,9 +246,11 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        slopes = slopes.reshape(1, -1)
+        intercepts = intercepts.reshape(1, -1)
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
@@ -280,7 +282,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(np.broadcast_to(mrr_factor, (1, num_variates)), num_paths).reshape(-1)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From 6c8471789a6cce0a00f033a93a4ada084ef1c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 09/39] fix: make geometric Brownian fit and likelihood
 consistent with its paths

Sampling moves the log price by (drift - vol^2/2) dt; the fit omitted vol^2/2 and the likelihood omitted dt.
---
 quantfinlib/sim/_gbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From 2ce1d77928381dc5ac4587c39c2423bf87461f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 10/39] fix: do not keep references to caller arrays in
 simulation models

Parameters, correlations and fitted start values were views of the caller's arrays, so changing those later changed
the model.
---
 quantfinlib/sim/_base.py | 5 +++--
 quantfinlib/sim/_bm.py   | 2 +-
 quantfinlib/sim/_gbm.py  | 2 +-
 quantfinlib/sim/_ou.py   | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index cdd0f38..5c78176 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -23,10 +23,11 @@ _SimFitDataType = Union[int, float, list, np.ndarray, pd.DataFrame, pd.Series]
 
 
 def _to_numpy(x: _SimFitDataType) -> np.ndarray:
+    # always a copy, what we keep in a model may not change when the caller changes its data
     if isinstance(x, np.ndarray):
-        return x
+        return x.copy()
     if isinstance(x, (pd.DataFrame, pd.Series)):
-        return x.to_numpy()
+        return x.to_numpy(copy=True)
     elif isinstance(x, list):
         return np.array(x).reshape(1, -1)
     elif isinstance(x, int):
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..6f963ea 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -151,7 +151,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.drift) + len(self.vol)
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..e0a3081 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -159,7 +159,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.drift) + len(self.vol)
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index a552f0e..ad4ed9c 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -181,7 +181,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-- 
2.43.0


From f4a9ad07521907448a73ea7bd8c03ba658faaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 11/39] fix: evaluate likelihoods without overwriting what fit
 recorded

nll, aic and bic replaced the fitted start value, step size, index and columns, so evaluating another path changed
what path_sample returned afterwards.
---
 quantfinlib/sim/_base.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 5c78176..314ad5b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -134,6 +134,26 @@ class _DateTimeIndexInfo:
             self.freq_ = pd.infer_freq(x.index)
 
 
+def _values_and_dt(
+    x: Union[list, np.ndarray, pd.DataFrame, pd.Series], dt: Optional[Union[float, int]]
+) -> Tuple[np.ndarray, float]:
+    values = _to_numpy(x)
+    if values.ndim == 1:
+        values = values.reshape(-1, 1)
+
+    # if dt is not provided then we need to infer it
+    if dt is None:
+        freq = _DateTimeIndexInfo(x).freq_
+        if freq is not None:
+            dt = time_series_freq_to_duration(freq)
+            if dt is None:
+                raise ValueError("Unable to determine dt based on freq", freq)
+        else:
+            dt = 1 / 252  # Defualt
+
+    return values, dt
+
+
 class SimBase(ABC):
     def __init__(self, *args, **kwargs):
         # Info about the data used for fitting
@@ -162,22 +182,11 @@ class SimBase(ABC):
         self.fit_column_names_ = _get_column_names(x)
         self.fit_index_ = _DateTimeIndexInfo(x)
 
-        values = _to_numpy(x)
-        if values.ndim == 1:
-            values = values.reshape(-1, 1)
+        values, dt = _values_and_dt(x, dt)
         self.fit_num_cols_ = values.shape[1]
         self.fit_x0_ = values[0, :].reshape(1, -1)
         self.fit_xn_ = values[-1, :].reshape(1, -1)
         self.fit_num_rows_ = values.shape[0]
-
-        # if dt is not provided then we need to infer it
-        if dt is None:
-            if self.fit_index_.freq_ is not None:
-                dt = time_series_freq_to_duration(self.fit_index_.freq_)
-                if dt is None:
-                    raise ValueError("Unable to determine dt based on freq", self.fit_index_.freq_)
-            else:
-                dt = 1 / 252  # Defualt
         self.fit_dt_ = dt
 
         return values, dt
@@ -439,7 +448,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -458,7 +467,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -477,6 +486,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From 71fabad9034b2796e463ccbd3d611ee3793d07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 12/39] fix: compute information criteria from the likelihood
 and the true number of parameters

---
 quantfinlib/sim/_base.py | 11 ++++++++---
 quantfinlib/sim/_bm.py   |  6 +++---
 quantfinlib/sim/_gbm.py  |  6 +++---
 quantfinlib/sim/_ou.py   |  6 +++---
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 314ad5b..418a3b2 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -329,6 +329,12 @@ class SimBase(ABC):
             else:
                 return ans[1:, :]
 
+    def _set_num_parameters(self, *params: np.ndarray):
+        self.num_parameters_ = sum(np.size(p) for p in params)
+        if self.cor is not None:
+            num_variates = self.cor.shape[0]
+            self.num_parameters_ += num_variates * (num_variates - 1) // 2
+
     @staticmethod
     def set_x0(ans: np.ndarray, x0: np.ndarray):
         x0 = np.asarray(x0).reshape(1, -1)
@@ -468,8 +474,7 @@ class SimNllMixin:
 
         """
         values, dt = _values_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -488,4 +493,4 @@ class SimNllMixin:
         """
         values, dt = _values_and_dt(x, dt)
         num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index 6f963ea..d5303bd 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -154,9 +154,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self._set_num_parameters(self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +184,8 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._set_num_parameters(self.drift, self.vol)
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index e0a3081..af30633 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -162,9 +162,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self._set_num_parameters(self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -194,6 +192,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._set_num_parameters(self.drift, self.vol)
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index ad4ed9c..91c4902 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -184,9 +184,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+        self._set_num_parameters(self.mean, self.mrr, self.vol)
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -252,6 +250,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self._set_num_parameters(self.mean, self.mrr, self.vol)
+
         return self
 
     def _path_sample_np(
-- 
2.43.0


From 8099f57f7842d657cc6ece0a156790cfd686c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 13/39] fix: do not share the default base model between
 quasi-random models and start where it starts

---
 quantfinlib/sim/_quasi_random.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index aa59b03..1fa8797 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -40,7 +40,7 @@ class QuasiRandom(SimBase):
         self,
         tech_ind_func: Callable[[np.ndarray], np.ndarray],
         f_signal_vol: Union[float, np.ndarray] = 0.1,
-        base_model: BaseModel = BrownianMotion(),
+        base_model: Optional[BaseModel] = None,
     ):
         r"""Initializes the QuasiBrownianMotion instance for simulating a semi-random process.
         First a random path is generated using Brownian motion, then the technical indicator is
@@ -54,10 +54,13 @@ class QuasiRandom(SimBase):
         f_signal_vol : float or array, optional
             The factor by which to scale the signal volatility compared to the Brownian motion
             volatility (default is 0.1).
-        base_model : BaseModel
-            The base simulation model to use (default is BrownianMotion).
+        base_model : BaseModel, optional
+            The base simulation model to use (default is a new BrownianMotion).
         """
+        if base_model is None:
+            base_model = BrownianMotion()
         super().__init__()
+        self.x0_default = getattr(base_model, "x0_default", self.x0_default)
         self.tech_ind_func = tech_ind_func
         self.f_signal_vol = f_signal_vol
         self.base_model = base_model
-- 
2.43.0


From 8f60c60355ac1e439e8de482af233d35e74e992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 14/39] fix: bin perfectly anti-correlated series like
 perfectly correlated ones

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From e5b361b6a02572c50886a60d4ef3b8d66ae05426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 15/39] fix: put the entropy on the diagonal of unnormalised
 mutual information matrices

---
 quantfinlib/distance/distance_matrix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..beb9314 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -44,7 +44,12 @@ def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) ->
         res[i, j] = res_ij
         res[j, i] = res_ij
     if func == mutual_info:
-        np.fill_diagonal(res, 1)
+        # Normalised self-information is one, otherwise it is the entropy of the variable
+        if kwargs.get("norm", True):
+            np.fill_diagonal(res, 1)
+        else:
+            for i in idx:
+                res[i, i] = func(X[:, i], X[:, i], **kwargs)
     if inp_pd_df:
         res = pd.DataFrame(res, index=colnames, columns=colnames)
     return res
-- 
2.43.0


From 8bd50041ad6c56cbd4444af5c33747d0d41660a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 16/39] fix: importing distance_matrix must not reset the
 configured verbosity

---
 quantfinlib/distance/distance_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index beb9314..611912e 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -20,7 +20,6 @@ from quantfinlib.util import (
 )
 
 logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
 
 CORR_TO_DIST_METHOD_MAP = {
     "angular": corr_to_angular_dist,
-- 
2.43.0


From 0d177d460f68127d744450705447b502c12e873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 17/39] fix: close superseded log handlers

---
 quantfinlib/util/_logging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..793168c 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -24,6 +24,7 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     # Clear any existing handlers
     for handler in logger.handlers[:]:
         logger.removeHandler(handler)
+        handler.close()
 
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From f84842601f05e0ea27311c26e36a97416a83a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 18/39] fix: do not reseed the global random state in the gap
 statistic

---
 quantfinlib/clustering/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..ce382ef 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,8 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From 54704988594bfc7906f44ac306bd375802272235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 19/39] fix: band arrays returned to the caller are copies

---
 quantfinlib/feature/indicators/_bands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d83b803..fc1e22b 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -57,7 +57,7 @@ class GenericBands:
         if isinstance(ts, pd.Series) or isinstance(rolling_mean, pd.Series) or isinstance(rolling_std, pd.Series):
             self._rename = self._rename_pd
         else:
-            self._rename = lambda x, _: x
+            self._rename = lambda x, _: x.copy()
         self.basename = basename
 
     def _rename_pd(self, s: pd.Series, name: str) -> pd.Series:
-- 
2.43.0


From 92bdaec1d3b2dc98e35d792d0e4bdbbf8fc073ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 20/39] fix: denoise eigenvalues without modifying the input
 and fit the non-zero ones

---
 quantfinlib/math/cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..df0b0e6 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,11 +373,12 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
         if num_assets > num_timesteps:
-            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_assets - num_timesteps])
+            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_timesteps])
         else:
             best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values)
         _, max_noise_eig_val = _marcenko_pastur_support(best_var, num_timesteps, num_assets)
-- 
2.43.0


From 4859b59af04e0db74fefa6546e7ddcc9bfedf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 21/39] fix: apply cov_reg to the standard deviation, as
 documented

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index df0b0e6..e26d95e 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -72,7 +72,7 @@ def _cov_to_cor(cov: np.ndarray, cov_reg: float = 1e-6) -> Tuple[np.ndarray, np.
     cor, std
     """
     # Derive the correlation matrix from a covariance matrix
-    std = np.sqrt(np.maximum(np.diag(cov), cov_reg))
+    std = np.maximum(np.sqrt(np.diag(cov)), cov_reg)
 
     cor = cov / np.outer(std, std)
     cor[cor < -1.0], cor[cor > 1.0] = -1.0, 1.0
-- 
2.43.0


From 953777185d750fa8e2feb16dedeb8ff03cde155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 22/39] fix: evaluate the noise density in floating point for
 integer eigenvalues

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index e26d95e..04de3fd 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -240,7 +240,7 @@ def _marchenko_pastur_pdf(var: float, num_timesteps: int, num_assets: int, eigen
 
     q = num_timesteps / num_assets
     e_min, e_max = _marcenko_pastur_support(var, num_timesteps, num_assets)
-    pdf = np.zeros_like(eigen_values)
+    pdf = np.zeros_like(eigen_values, dtype=float)
     mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
     pdf[mask] = (
         q
-- 
2.43.0


From 9d0eb4c3e45b7242f449994d1189931f92961058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 23/39] fix: subtract the two-day range in the Corwin-Schultz
 alpha

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -457,7 +457,7 @@ def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
     """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
     den = 3 - 2.0 * 2**0.5
     alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
+    alpha -= (gamma / den) ** 0.5
     alpha[alpha < 0] = 0  # set negative alpha to zero
     return alpha
 
-- 
2.43.0


From b2e720a48f85bbc52c96481681b27d998d56f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 24/39] fix: edge spread of series whose index repeats a label

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 1922423..4048659 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -281,10 +281,9 @@ def get_edge_spread(
     rolling_spread = Parallel(n_jobs=-1)(
         delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
     )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
+    values = np.full(len(price_df), np.nan)
+    values[window - 1 :] = rolling_spread
+    return pd.Series(values, index=price_df.index)
 
 
 def _edge_spread(
-- 
2.43.0


From 5e2735d2ab33fb3edf171b11eb0912c681b561f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 25/39] fix: treat correlation frames like arrays and tolerate
 round-off on the diagonal

---
 quantfinlib/distance/correlation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..df51698 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -4,6 +4,7 @@ from typing import Callable, Union
 from functools import partial
 
 import numpy as np
+import pandas as pd
 
 
 def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
@@ -23,12 +24,15 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
     assert corr.ndim == 2, "Input must be a 2D matrix"
     assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
     assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+    assert np.allclose(np.diag(corr), 1), "Diagonal elements of a correlation matrix must be 1"
 
 
 def _convert_correlation_to_distance(
     corr: Union[float, np.ndarray], conversion_function: Callable
 ) -> Union[float, np.ndarray]:
+    if isinstance(corr, pd.DataFrame):
+        dist = _convert_correlation_to_distance(corr.to_numpy(), conversion_function)
+        return pd.DataFrame(dist, index=corr.index, columns=corr.columns)
     if isinstance(corr, np.ndarray):
         _validate_correlation_matrix(corr)
     corr = _clip_values(corr, -1.0, 1.0)
-- 
2.43.0


From ef261b3ede8e82b09316507326ccaa614ae41e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 26/39] fix: cut hierarchies whose merge heights decrease into
 the requested number of clusters

---
 quantfinlib/clustering/hierarchical.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 43d7cf4..f10ddce 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -134,13 +134,20 @@ class HC:
         np.ndarray
             The cluster labels.
         """
-        return hierarchy.cut_tree(Z=self.linkage, n_clusters=n_clusters).flatten()
+        return _cut_linkage(self.linkage, n_clusters)
 
     def get_optimal_nclusters(self, max_clust: int = 20, metric: str = "gap", nb: int = 10) -> int:
         """Get the optimal number of clusters."""
         return optimize_n_clusters(linkage=self.linkage, dist=self.dist, max_clust=max_clust, metric=metric, nb=nb)
 
 
+def _cut_linkage(linkage: np.ndarray, n_clusters: int) -> np.ndarray:
+    """Cut a linkage matrix into clusters, also when merge heights decrease (centroid and median linkage)."""
+    monotone = np.array(linkage, dtype=float)
+    monotone[:, 2] = np.maximum.accumulate(monotone[:, 2])
+    return hierarchy.cut_tree(monotone, n_clusters=n_clusters).flatten()
+
+
 def optimize_n_clusters(
     linkage: np.ndarray, dist: np.ndarray, max_clust: int = 20, metric: str = "gap", nb: int = 10
 ) -> int:
@@ -171,7 +178,7 @@ def optimize_n_clusters(
         gap_values = []
         gap_std_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage, k)
             gap, gap_std = gap_statistic(dist=dist, labels=labels, nb=nb)
             gap_values.append(gap)
             gap_std_values.append(gap_std)
@@ -181,7 +188,7 @@ def optimize_n_clusters(
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage, k)
             silh_values.append(silhouette_tstat(dist=dist, labels=labels))
         return int(np.argmax(silh_values) + 2)
     else:
-- 
2.43.0


From 2b0ae81edd4f489e8e59b663ffec33f2e26420fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:22 +0000
Subject: [PATCH 27/39] fix: reject walk-forward windows that are neither
 integers nor Timedeltas

A missing window with a frequency became NaT, which passes every comparison, and split yielded nothing.
---
 quantfinlib/train_test_split/walk_forward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 648c1b3..66dbf11 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -52,6 +52,9 @@ class WalkForward(BaseCV):
         freq: Optional[str] = None,
     ) -> None:
         super().__init__(n_embargo=n_embargo, n_purge=n_purge)
+        for window in (train_window, test_window):
+            if not isinstance(window, (Integral, pd.Timedelta)):
+                raise TypeError("train_window and test_window must be integers or Timedeltas")
         self.train_window = train_window
         self.test_window = test_window
         self.split_type = split_type
-- 
2.43.0


From b104536bc1878fd486c9dcfeb464eea8c006c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:29 +0000
Subject: [PATCH 28/39] fix: convert embargo, purge and windows of any integer
 type to Timedeltas

pd.Timedelta(np.int32(1), unit="D") raises an overflow error.
---
 quantfinlib/train_test_split/kfoldpe.py      | 4 ++--
 quantfinlib/train_test_split/walk_forward.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index df1ae47..6a0131c 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -131,8 +131,8 @@ class TimeAwareKFold(BaseCV):
             n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
         )
         if groups is not None and self.freq is not None:
-            n_embargo = pd.Timedelta(self.n_embargo, unit=self.freq)
-            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
+            n_embargo = pd.Timedelta(int(self.n_embargo), unit=self.freq)
+            n_purge = pd.Timedelta(int(self.n_purge), unit=self.freq)
         else:
             n_embargo = self.n_embargo
             n_purge = self.n_purge
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 66dbf11..b3ea1be 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -157,4 +157,5 @@ class WalkForward(BaseCV):
 
 def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
     """Convert an integer to a timedelta."""
-    return pd.Timedelta(x, unit=freq)
+    # pd.Timedelta overflows on numpy integers of fewer than 64 bits
+    return pd.Timedelta(int(x) if isinstance(x, Integral) else x, unit=freq)
-- 
2.43.0


From 6c578dab745b5baef233f0c6288cf9c83614114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:23 +0000
Subject: [PATCH 29/39] fix: do not print debug output when sampling from the
 first or last fitted value

---
 quantfinlib/sim/_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 418a3b2..76951c4 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -88,8 +88,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
-
     values = _to_numpy(values)
 
     # We support 1 list, or a row/col from a matrix, as long as it's effectively 1d
@@ -212,7 +210,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From 78ee76d3e800fc38f00d90e67470a28f8cabc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:23 +0000
Subject: [PATCH 30/39] fix: a rejected or interrupted fit leaves the model as
 it was

---
 quantfinlib/sim/_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 76951c4..786f494 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -428,8 +428,15 @@ class SimBase(ABC):
             The fitted model instance.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
-        self._fit_np(values, dt)
+        state = dict(self.__dict__)
+        try:
+            values, dt = self._preprocess_fit_x_and_dt(x, dt)
+            self._fit_np(values, dt)
+        except BaseException:
+            # a rejected fit must not leave a mix of old and new parameters
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
         return self
 
 
-- 
2.43.0


From 90bf7f0d6e31cb725e9016892623fd4e2d9f42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 31/39] fix: list the names exported by sim and util as strings
 so that star imports work

---
 quantfinlib/sim/__init__.py  |  2 +-
 quantfinlib/util/__init__.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/sim/__init__.py b/quantfinlib/sim/__init__.py
index 48bc8ee..7801f38 100644
--- a/quantfinlib/sim/__init__.py
+++ b/quantfinlib/sim/__init__.py
@@ -21,7 +21,7 @@ from ._gbm import GeometricBrownianMotion
 from ._quasi_random import QuasiRandom
 from ._ou import OrnsteinUhlenbeck
 
-__all__ = [BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom]
+__all__ = ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"]
 
 """
 todo:
diff --git a/quantfinlib/util/__init__.py b/quantfinlib/util/__init__.py
index 84422ff..235e10c 100644
--- a/quantfinlib/util/__init__.py
+++ b/quantfinlib/util/__init__.py
@@ -6,13 +6,13 @@ from quantfinlib.util._validate import validate_series_or_1Darray, validate_fram
 from quantfinlib.util._dtypes import to_numpy, SeriesOrArray, DataFrameOrArray, ArrayLike
 
 __all__ = [
-    logger,
-    get_project_root,
-    configure_logger,
-    validate_series_or_1Darray,
-    validate_frame_or_2Darray,
-    to_numpy,
-    SeriesOrArray,
-    DataFrameOrArray,
-    ArrayLike,
+    "logger",
+    "get_project_root",
+    "configure_logger",
+    "validate_series_or_1Darray",
+    "validate_frame_or_2Darray",
+    "to_numpy",
+    "SeriesOrArray",
+    "DataFrameOrArray",
+    "ArrayLike",
 ]
-- 
2.43.0


From e710eacee2c939503a075143b9b6dc05ff25098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:31 +0000
Subject: [PATCH 32/39] fix: compute features of integer series in floats,
 small and unsigned integers wrapped around

---
 quantfinlib/feature/indicators/_base.py            | 14 +++++++++++---
 .../feature/micro_structure/_price_sequences.py    |  3 ++-
 quantfinlib/feature/structural_breaks/cusumtest.py |  2 +-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/quantfinlib/feature/indicators/_base.py b/quantfinlib/feature/indicators/_base.py
index ba24f50..a3fe5a7 100644
--- a/quantfinlib/feature/indicators/_base.py
+++ b/quantfinlib/feature/indicators/_base.py
@@ -7,6 +7,11 @@ import pandas as pd
 from typing import Union
 
 
+def _integers_to_float(ts: pd.Series) -> pd.Series:
+    """Convert integers to floats, because differences, negations and products of small or unsigned integers wrap around."""
+    return ts.astype(float) if pd.api.types.is_integer_dtype(ts.dtype) else ts
+
+
 def numpy_io_support(func):
     """Make a decorator to allow numpy arrays or pandas Series as input/output."""
 
@@ -17,15 +22,18 @@ def numpy_io_support(func):
 
         bound_args = sig.bind(*args, **kwargs)
         bound_args.apply_defaults()
+        pd_args = {}
         np_args = {}
         for name in exp_pd_args:
             if isinstance(bound_args.arguments[name], np.ndarray):
-                np_args[name] = pd.Series(bound_args.arguments[name])
-            elif not isinstance(bound_args.arguments[name], pd.Series):
+                np_args[name] = _integers_to_float(pd.Series(bound_args.arguments[name]))
+            elif isinstance(bound_args.arguments[name], pd.Series):
+                pd_args[name] = _integers_to_float(bound_args.arguments[name])
+            else:
                 raise TypeError(f"Argument '{name}' must be either numpy array or pandas Series.")
 
         if len(np_args) == 0:
-            return func(**bound_args.arguments)
+            return func(**{**bound_args.arguments, **pd_args})
         elif len(np_args) == len(exp_pd_args):
             return func(**{**bound_args.arguments, **np_args}).values
         else:
diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 4048659..36de914 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -271,7 +271,8 @@ def get_edge_spread(
     https://doi.org/10.1016/j.jfineco.2024.103916
     https://github.com/eguidotti/bidask
     """
-    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
+    # equal prices of different precision have different logarithms
+    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close}).astype(float)
 
     # Define a helper function to calculate the edge spread
     def _apply_edge_spread(df):  # pragma: no cover
diff --git a/quantfinlib/feature/structural_breaks/cusumtest.py b/quantfinlib/feature/structural_breaks/cusumtest.py
index 028f8b5..15ad0b0 100644
--- a/quantfinlib/feature/structural_breaks/cusumtest.py
+++ b/quantfinlib/feature/structural_breaks/cusumtest.py
@@ -56,7 +56,7 @@ def chu_stinchcombe_white_cusum_test(y: np.ndarray) -> tuple[np.ndarray, np.ndar
     """
     T = len(y)
     b_alpha = 4.6  # Derived via Monte Carlo for alpha=0.05
-    log_y = np.log(y)  # Precompute log-prices
+    log_y = np.log(np.asarray(y, dtype=float))  # Precompute log-prices
     # Compute the moving average standard deviation up to each time point
     squared_diffs = (log_y[1:] - log_y[:-1]) ** 2.0
     sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
-- 
2.43.0


From 0d259a6eded94f14e6c26952916c5c436a611528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 33/39] fix: fit, judge and start simulations in floats
 whatever the type of the data

---
 quantfinlib/sim/_base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 786f494..9697e11 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -24,16 +24,15 @@ _SimFitDataType = Union[int, float, list, np.ndarray, pd.DataFrame, pd.Series]
 
 def _to_numpy(x: _SimFitDataType) -> np.ndarray:
     # always a copy, what we keep in a model may not change when the caller changes its data
+    # always floats, differences and negations of unsigned or small integers wrap around
     if isinstance(x, np.ndarray):
-        return x.copy()
+        return x.astype(float)
     if isinstance(x, (pd.DataFrame, pd.Series)):
-        return x.to_numpy(copy=True)
+        return x.to_numpy(dtype=float, copy=True)
     elif isinstance(x, list):
-        return np.array(x).reshape(1, -1)
-    elif isinstance(x, int):
+        return np.array(x, dtype=float).reshape(1, -1)
+    elif isinstance(x, (int, float, np.integer, np.floating)):
         return np.array(x, dtype=float).reshape(1, 1)
-    elif isinstance(x, float):
-        return np.array(x).reshape(1, 1)
     else:
         raise ValueError(f"Cannot convert {x} to a numpy array.")
 
-- 
2.43.0


From 97f3bb37622b6e34df745cebe94d6651d0c6be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 34/39] fix: convert distances, correlations and divergence
 inputs of other numeric types to floats

---
 quantfinlib/clustering/hierarchical.py    | 2 +-
 quantfinlib/distance/correlation.py       | 2 +-
 quantfinlib/distance/matrix_divergence.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index f10ddce..8b63701 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -115,7 +115,7 @@ class HC:
         """Return the linkage matrix."""
         if self._linkage is None:
             self._linkage = hierarchy.linkage(
-                y=squareform(self.dist),
+                y=squareform(np.asarray(self.dist, dtype=float)),
                 method=self.linkage_method,
                 optimal_ordering=self.optimal_ordering,
             )
diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index df51698..7282575 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -31,7 +31,7 @@ def _convert_correlation_to_distance(
     corr: Union[float, np.ndarray], conversion_function: Callable
 ) -> Union[float, np.ndarray]:
     if isinstance(corr, pd.DataFrame):
-        dist = _convert_correlation_to_distance(corr.to_numpy(), conversion_function)
+        dist = _convert_correlation_to_distance(corr.to_numpy(dtype=float), conversion_function)
         return pd.DataFrame(dist, index=corr.index, columns=corr.columns)
     if isinstance(corr, np.ndarray):
         _validate_correlation_matrix(corr)
diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 820f312..222351f 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -54,6 +54,7 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
     float
         Von Neumann divergence between p and q.
     """
+    p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)  # negating unsigned integers wraps around
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
     log_p = logm(p)  # Compute the matrix logarithm of p
     log_q = logm(q)  # Compute the matrix logarithm of q
-- 
2.43.0


From 15ef1dacffcb8a30229553bdea9f514c79509043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 35/39] fix: keep small and unsigned integer covariances from
 being processed in low precision

---
 quantfinlib/math/cov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 04de3fd..70be144 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -72,7 +72,7 @@ def _cov_to_cor(cov: np.ndarray, cov_reg: float = 1e-6) -> Tuple[np.ndarray, np.
     cor, std
     """
     # Derive the correlation matrix from a covariance matrix
-    std = np.maximum(np.sqrt(np.diag(cov)), cov_reg)
+    std = np.maximum(np.sqrt(np.diag(cov).astype(float)), cov_reg)
 
     cor = cov / np.outer(std, std)
     cor[cor < -1.0], cor[cor > 1.0] = -1.0, 1.0
@@ -113,7 +113,7 @@ def _eig_to_cor(eigen_values: np.ndarray, eigen_vectors: np.ndarray) -> np.ndarr
     -------
     cor
     """
-    cor = np.dot(eigen_vectors, eigen_values[:, np.newaxis] * eigen_vectors.T)
+    cor = np.dot(eigen_vectors, eigen_values[:, np.newaxis] * eigen_vectors.T).astype(float)
 
     # fix numerical issues
     cor[cor < -1] = -1
-- 
2.43.0


From 20c86a4473504ad0ab0d4c20ebc2bb433e31df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:10 +0000
Subject: [PATCH 36/39] fix: type annotations accept every member of their
 unions and date indices

---
 quantfinlib/util/_custom_types.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/quantfinlib/util/_custom_types.py b/quantfinlib/util/_custom_types.py
index f253894..9a05918 100644
--- a/quantfinlib/util/_custom_types.py
+++ b/quantfinlib/util/_custom_types.py
@@ -32,18 +32,18 @@ class _CustomNumpyArrayPydanticAnnotation:  # pragma: no cover
 
         def validate_numpy_array(value: Any) -> np.ndarray:
             if not isinstance(value, np.ndarray):
-                raise TypeError(f"Expected a numpy array, got {type(value)}")
+                raise ValueError(f"Expected a numpy array, got {type(value)}")
             # Validate dtype
             if self.dtype is not Any and not np.can_cast(value.dtype, np.dtype(self.dtype)):
-                raise TypeError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
+                raise ValueError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
             # Validate shape
             if isinstance(self.shape, tuple):
                 if len(self.shape) != value.ndim:
-                    raise TypeError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
+                    raise ValueError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
 
                 for dim, expected_dim in zip(value.shape, self.shape):
                     if expected_dim != "*" and dim != int(expected_dim):
-                        raise TypeError(f"Expected array shape {self.shape}, but got {value.shape}")
+                        raise ValueError(f"Expected array shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -92,7 +92,7 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_dataframe(value: Any) -> pd.DataFrame:
             if not isinstance(value, pd.DataFrame):
-                raise TypeError(f"Expected a pandas DataFrame, got {type(value)}")
+                raise ValueError(f"Expected a pandas DataFrame, got {type(value)}")
 
             # Validate columns if columns are provided
             if self.columns is not None:
@@ -100,21 +100,21 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
                     raise TypeError(f"Expected 'columns' to be a dictionary, got {type(self.columns)}")
                 for col, dtype in self.columns.items():
                     if col not in value.columns:
-                        raise TypeError(f"Missing expected column: {col}")
+                        raise ValueError(f"Missing expected column: {col}")
                     if not pd.api.types.is_dtype_equal(value[col].dtype, dtype):
-                        raise TypeError(
+                        raise ValueError(
                             f"Expected column '{col}' to have dtype '{dtype}', but got '{value[col].dtype}'"
                         )
 
             # If dtype is provided, validate the entire DataFrame's dtype
             elif self.dtype is not None:
                 if not all(pd.api.types.is_dtype_equal(value.dtypes[col], self.dtype) for col in value.columns):
-                    raise TypeError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
+                    raise ValueError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
 
             # Validate shape
             if self.shape != "*" and len(self.shape) == 2:
                 if value.shape != self.shape:
-                    raise TypeError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
+                    raise ValueError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -157,20 +157,21 @@ class _CustomPandasSeriesPydanticAnnotation:  # pragma: no cover
 
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_series(value: Any) -> pd.Series:
-            if not isinstance(value, pd.Series):
-                raise TypeError(f"Expected a pandas Series, got {type(value)}")
+            # the annotated type is the one to expect, it can be a pandas Index as well
+            if not isinstance(value, _source_type):
+                raise ValueError(f"Expected a {_source_type}, got {type(value)}")
 
             # Validate dtype if provided
             if self.dtype is not None:
                 if not pd.api.types.is_dtype_equal(value.dtype, self.dtype):
-                    raise TypeError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
+                    raise ValueError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
 
             # Validate shape (length)
             if self.shape != "*":
                 if not isinstance(self.shape, int):
                     raise TypeError(f"Expected 'shape' to be an integer or '*', got {type(self.shape)}")
                 if len(value) != self.shape:
-                    raise TypeError(f"Expected Series to have length {self.shape}, but got {len(value)}")
+                    raise ValueError(f"Expected Series to have length {self.shape}, but got {len(value)}")
 
             return value
 
-- 
2.43.0


From 59b0b78a32c326909fc00b07dc794b1aaf3e5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 37/39] fix: document the actual default mean reversion rate of
 Ornstein-Uhlenbeck models (1.0)

---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 91c4902..260256e 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -162,7 +162,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         mean : float, optional
             The long term mean (default is 0.0).
         mrr : float, optional
-            The annualized mean reversion rat  (default is 0.1).
+            The annualized mean reversion rate (default is 1.0).
         vol: float, optional
             The annualized volatility (default is 0.1).
         cor : optional
-- 
2.43.0


From 274532b46df4b0f4250a96caef701d62cbd51f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:46 +0000
Subject: [PATCH 38/39] fix: three dates without daily steps are not a daily
 series

---
 quantfinlib/_datatypes/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index b2e0ea3..b31e389 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -110,7 +110,7 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
     if daily_resolution:
         return "D"
 
-- 
2.43.0


From 054b97e645b86b3bc58214c32596dacdd181837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:02 +0000
Subject: [PATCH 39/39] fix: four month-ends of which two are quarter-ends are
 a monthly series, not a quarterly one

---
 quantfinlib/_datatypes/timeseries.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index b31e389..0152160 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -78,34 +78,35 @@ def time_series_freq(ts_obj) -> Optional[str]:
     # Count the occurrences of each time delta
     delta_counts = time_deltas.value_counts()
 
+    # At most two dates, and fewer than there are on a boundary, may lie off it: two of four month-ends are quarter-ends
     # Check if timestamps are year-ends
     year_ends = dt_ndx.is_year_end.sum()
-    if (year_ends >= 2) and (len(dt_ndx) - year_ends <= 2):
+    if (year_ends >= 2) and (len(dt_ndx) - year_ends <= min(2, year_ends - 1)):
         return "YE"
 
     # Check if timestamps are year-starts
     year_starts = dt_ndx.is_year_start.sum()
-    if (year_starts >= 2) and (len(dt_ndx) - year_starts <= 2):
+    if (year_starts >= 2) and (len(dt_ndx) - year_starts <= min(2, year_starts - 1)):
         return "YS"
 
     # Check if timestamps are quarter-ends
     quarter_ends = dt_ndx.is_quarter_end.sum()
-    if (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= 2):
+    if (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= min(2, quarter_ends - 1)):
         return "QE"
 
     # Check if timestamps are quarter-starts
     quarter_starts = dt_ndx.is_quarter_start.sum()
-    if (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= 2):
+    if (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= min(2, quarter_starts - 1)):
         return "QS"
 
     # Check if timestamps are month-ends
     month_ends = dt_ndx.is_month_end.sum()
-    if (month_ends >= 2) and (len(dt_ndx) - month_ends <= 2):
+    if (month_ends >= 2) and (len(dt_ndx) - month_ends <= min(2, month_ends - 1)):
         return "ME"
 
     # Check if timestamps are month-starts
     month_starts = dt_ndx.is_month_start.sum()
-    if (month_starts >= 2) and (len(dt_ndx) - month_starts <= 2):
+    if (month_starts >= 2) and (len(dt_ndx) - month_starts <= min(2, month_starts - 1)):
         return "MS"
 
     # Check for daily frequency (7 days a week)
-- 
2.43.0

