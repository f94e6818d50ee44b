From 91900b252a4d291f965e523a71015ed26a41676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 01/79] fix: LCSS under a global constraint (lost matches,
 pairs outside the region, endless path walk)

---
 tslearn/metrics/dtw_variants.py | 72 +++++++++++++++++----------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..8da8161 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -974,10 +974,10 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
             if mask[i - 1, j - 1]:
                 if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1025,10 +1025,10 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
                     squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1], be=be)
                 if be.sqrt(squared_dist) <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1245,14 +1245,15 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1305,10 +1306,11 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
             if be.sqrt(squared_dist) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,14 +1347,15 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1402,10 +1405,11 @@ def _return_lcss_path_from_dist_matrix(
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1569,10 +1573,10 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
             if mask[i - 1, j - 1]:
                 if dist_matrix[i - 1, j - 1] <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
@@ -1612,10 +1616,10 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
             if mask[i - 1, j - 1]:
                 if dist_matrix[i - 1, j - 1] <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(
+                acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+            )
 
     return acc_cost_mat
 
-- 
2.43.0


From 3c7963a77e5ab5f6dab4d3b0e68f87b7d0ad9821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 02/79] fix: VARIMA mixed up the coefficients of multivariate
 models

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..04684ed 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -296,7 +296,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From d97436a728d041982b107061593662cc80119864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 03/79] fix: VARIMA integration for differencing orders above
 one

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 04684ed..805fea7 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -341,7 +341,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _undifference(self, initial_values, prediction):
         _ = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
+                (-1) ** (self.d - j) * scipy.special.binom(self.d, j)
                 for j in range(self.d)
             ]
         )
-- 
2.43.0


From fcda20e708a0c6b6642a7d6ee167cc6877597443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 04/79] fix: cdist_frechet ignored its global constraint

---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From bde0291c684693757c7ff75675adf170df679ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 05/79] fix: lb_envelope lost precision on the PyTorch backend

---
 tslearn/metrics/dtw_variants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 8da8161..3125b3e 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -865,8 +865,8 @@ def _lb_envelope(time_series, radius, be=None):
     be = instantiate_backend(be, time_series)
     time_series = be.array(time_series)
     sz, d = be.shape(time_series)
-    envelope_up = be.empty((sz, d))
-    envelope_down = be.empty((sz, d))
+    envelope_up = be.empty((sz, d), dtype=time_series.dtype)
+    envelope_down = be.empty((sz, d), dtype=time_series.dtype)
 
     for i in range(sz):
         min_idx = i - radius
-- 
2.43.0


From f769f3f7edae87be737b6a9462e30f9cc8e7b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 06/79] fix: parallel cdist_soft_dtw_normalized on datasets of
 different lengths

---
 tslearn/metrics/_soft_dtw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..1df46f7 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,8 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for dataset in (dataset1, dataset2)
+                for ts in dataset
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 6e0d2f505bbb2c3f7783be77d302585a4f2587c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 07/79] fix: keep double precision in the PyTorch sub-sequence
 cost matrix

---
 tslearn/metrics/dtw_variants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 3125b3e..35d8ade 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -458,7 +458,7 @@ def _subsequence_cost_matrix(subseq, longseq, be=None):
     longseq = be.array(longseq)
     l1 = subseq.shape[0]
     l2 = longseq.shape[0]
-    cum_sum = be.full((l1 + 1, l2 + 1), be.inf)
+    cum_sum = be.full((l1 + 1, l2 + 1), be.inf, dtype=subseq.dtype)
     cum_sum[0, :] = 0.0
 
     for i in range(l1):
-- 
2.43.0


From a29ee5e0963ad2c90ae219c7ca935bfa104eb46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 08/79] fix: PyTorch backend median averages the two middle
 values, like NumPy

---
 tslearn/backend/pytorch_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..3a9244e 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -75,7 +75,6 @@ else:
             self.log = _torch.log
             self.max = _torch.max
             self.mean = _torch.mean
-            self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
             self.pairwise_euclidean_distances = _torch.cdist
@@ -169,6 +168,11 @@ else:
         def is_float64(x):
             return isinstance(x, _torch.float64)
 
+        @staticmethod
+        def median(x):
+            # torch.median returns the lower of the two middle values
+            return _torch.quantile(x, 0.5)
+
         @staticmethod
         def ndim(x):
             return x.dim()
-- 
2.43.0


From 59f09f6675219523bb8ce02291e8c849ce6c173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 09/79] fix: SoftDTWLossPyTorch no longer writes into the
 output of dist_func

---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 48ed077..0b9e79b 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -87,7 +87,7 @@ else:
             dtype = D.dtype
             _, m, n = D.shape
             mask = _njit_compute_mask(m, n, global_constraint, sakoe_chiba_radius, itakura_max_slope)
-            D[:, ~mask] = torch.inf
+            D = D.masked_fill(torch.from_numpy(~mask).to(dev), torch.inf)
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
             gamma_tensor = torch.Tensor([gamma]).to(dev).type(dtype)
-- 
2.43.0


From c98356218f5b215bb5c24fa699c5234c78b70a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 10/79] fix: SoftDTWLossPyTorch keeps the precision of its
 input

---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 0b9e79b..ce15de1 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -90,8 +90,8 @@ else:
             D = D.masked_fill(torch.from_numpy(~mask).to(dev), torch.inf)
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
-            gamma_tensor = torch.Tensor([gamma]).to(dev).type(dtype)
-            R = torch.Tensor(R_).to(dev).type(dtype)
+            gamma_tensor = torch.tensor([gamma], device=dev, dtype=dtype)
+            R = torch.from_numpy(R_).to(dev).type(dtype)
             ctx.save_for_backward(D, R,gamma_tensor)
             return R[:, -1, -1]
 
@@ -105,7 +105,7 @@ else:
             R_ = R.detach().cpu().numpy()
             gamma = gamma_tensor.item()
             E_ = _njit_soft_dtw_grad_batch(D_, R_, gamma)
-            E = torch.Tensor(E_).to(dev).type(dtype)
+            E = torch.from_numpy(E_).to(dev).type(dtype)
             return grad_output.reshape(-1).to(dtype=E.dtype).view(-1, 1, 1) * E, None, None, None, None
 
 
-- 
2.43.0


From 428ca536d0056e4c46415fd5614f3600f77396cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 11/79] fix: gradients of constrained soft-DTW on the PyTorch
 backend

---
 tslearn/metrics/_soft_dtw.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 1df46f7..769d623 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -373,7 +373,12 @@ def _njit_accumulated_matrix(s1, s2, mask, gamma):
 if torch is not None:
 
     def __acc_fun(distances, predecessors, gamma):
-        return distances + -gamma * torch.logsumexp(-predecessors/gamma, dim=0)
+        # Cells without any admissible predecessor have no derivative: keep
+        # them out of the logsumexp, whose gradient would be NaN there
+        reachable = (predecessors != torch.inf).any(dim=0)
+        predecessors = torch.where(reachable, predecessors, torch.zeros_like(predecessors))
+        softmin = -gamma * torch.logsumexp(-predecessors/gamma, dim=0)
+        return torch.where(reachable, distances + softmin, torch.inf)
 
     _accumulated_matrix = functools.partial(
         _torch_accumulated_matrix,
@@ -409,9 +414,6 @@ def _njit_accumulated_matrix_from_distance_matrix(D, mask, gamma, out=None):
 
 if torch is not None:
 
-    def __acc_fun(distances, predecessors, gamma):
-        return distances + -gamma * torch.logsumexp(-predecessors/gamma, dim=0)
-
     _accumulated_matrix_from_distance_matrix = functools.partial(
         _torch_acc_matrix_from_dist_matrix,
         acc_fun=__acc_fun
-- 
2.43.0


From e1252dd4290d9d0869e8c1b060dd9cfc4c480872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 12/79] fix: refuse datasets whose series have conflicting
 feature counts

A univariate series was silently replicated over all the features of
the dataset.
---
 tslearn/utils/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index fbb8f50..bf142e2 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -282,6 +282,11 @@ def to_time_series_dataset(dataset, dtype=float, be=None):
     dataset_out = be.full((n_ts, max_sz, d), be.nan, dtype=dtype)
     for i in range(n_ts):
         ts = to_time_series(dataset[i], remove_nans=True, be=be, dtype=dtype)
+        if ts.shape[0] > 0 and ts.shape[1] != d:
+            raise ValueError(
+                "All time series should have the same number of features "
+                "({} and {} found)".format(d, ts.shape[1])
+            )
         dataset_out[i, : ts.shape[0]] = ts
     return dataset_out
 
-- 
2.43.0


From 8d8068f43de6c3bdbe73d21d1410e842f8405f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 13/79] fix: to_pyflux_dataset used the raw instead of the
 formatted dataset

A flat series raised, and padding was kept in the frame.
---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..a9daff6 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -452,7 +452,7 @@ def to_pyflux_dataset(X):
     X_ = check_dataset(X,
                        force_equal_length=True,
                        force_single_time_series=True)
-    X_pd = pd.DataFrame(X[0], dtype=float)
+    X_pd = pd.DataFrame(X_[0], dtype=float)
     X_pd.columns = ["dim_%d" % di for di in range(X_.shape[2])]
     return X_pd
 
-- 
2.43.0


From fe87d030ef3b3461bea104908b70382678c0f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 14/79] fix: from_sktime_dataset takes rows by position, not by
 label

---
 tslearn/utils/cast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index a9daff6..6c6b05b 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -394,15 +394,15 @@ def from_sktime_dataset(X):
     max_sz = -1
     for dim_name in ordered_data_dimensions:
         for i in range(n):
-            if X[dim_name][i].size > max_sz:
-                max_sz = X[dim_name][i].size
+            if X[dim_name].iloc[i].size > max_sz:
+                max_sz = X[dim_name].iloc[i].size
 
     tslearn_arr = numpy.empty((n, max_sz, d))
     tslearn_arr[:] = numpy.nan
     for di in range(d):
         for i in range(n):
-            sz = X["dim_%d" % di][i].size
-            tslearn_arr[i, :sz, di] = X["dim_%d" % di][i].values.copy()
+            data = X["dim_%d" % di].iloc[i]
+            tslearn_arr[i, :data.size, di] = data.values.copy()
     return tslearn_arr
 
 
-- 
2.43.0


From d04e3af93982fe46cb96189cd60d2aec85082864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 15/79] fix: from_tsfresh_dataset keeps series and time stamps
 in order

Series came in the arbitrary order of a set of ids, and rows in file order
whatever their time stamps.
---
 tslearn/utils/cast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 6c6b05b..f9a4d00 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -632,8 +632,10 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = X["id"].unique()
     n = len(all_ids)
+    if "time" in X.columns:
+        X = X.sort_values("time", kind="stable")
 
     max_sz = -1
     for ind_id in all_ids:
-- 
2.43.0


From 237946b0cc85ed16e4c11ed61a6f8c792f654e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 16/79] fix: mean-variance scaling of constant series

The computed standard deviation of e.g. ten times 0.1 is a rounding error
instead of 0, so that the scaled series was away from the requested mean.
---
 tslearn/preprocessing/preprocessing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..5c0a19c 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -361,7 +361,10 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
 
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
-        std_[std_ == 0.] = 1.
+        # The standard deviation of constant data is not always exactly 0
+        constant = (numpy.nanmin(X, axis=axis, keepdims=True)
+                    == numpy.nanmax(X, axis=axis, keepdims=True))
+        std_[(std_ == 0.) | constant] = 1.
 
         return mean_, std_
 
-- 
2.43.0


From 18b327b65465da0e0d1e33cd2ffb3f21fbf8bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 17/79] fix: linear imputation of a feature without any
 observed value

It raised instead of leaving what cannot be computed unchanged.
---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 5c0a19c..88d9b2c 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -535,6 +535,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From 385d240295ceb8ef2b6c82526ea05c426d55672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 18/79] fix: synchronizing padded data with time stamps of the
 same shape

Trailing padding was removed from the data but not from the time stamps,
and the call was refused for a shape mismatch.
---
 tslearn/preprocessing/_synchronizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tslearn/preprocessing/_synchronizer.py b/tslearn/preprocessing/_synchronizer.py
index c266220..05cbed4 100644
--- a/tslearn/preprocessing/_synchronizer.py
+++ b/tslearn/preprocessing/_synchronizer.py
@@ -109,6 +109,10 @@ class TimeSeriesFeatureSynchronizer(
         )
 
         if timestamps is not None:
+            timestamps = np.asarray(timestamps)
+            if timestamps.ndim == 3 and np.isnan(timestamps[:, X_.shape[1]:]).all():
+                # Trailing missing values are padding, that is removed from X_ too
+                timestamps = timestamps[:, :X_.shape[1]]
             timestamps_ = check_variable_length_input(timestamps)
             if timestamps_.shape != X_.shape:
                 raise ValueError("Shape mismatch between incoming data and timestamps")
-- 
2.43.0


From 4e55ecc2533525a76478d33d2269f99cf20707e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 19/79] fix: uninitialised values in the inverse 1d-SAX
 transform

When the size is not a multiple of the number of segments, the last values
were left-over memory.
---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..d610781 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From b56a8accd97b3323fc9c8c473e2b5c352a55f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 20/79] fix: 1d-SAX distance uses the middle of the segments

Lines of the symbols go through the average at the middle of the segment, as
in the inverse transform.
---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index d610781..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From edc79ebe37052e8fd6539a2a7f71b1a00fbb3968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 21/79] fix: 1d-SAX scaled the data twice before computing
 averages

---
 tslearn/piecewise/piecewise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..b539e60 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -692,7 +692,10 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
         # Average
-        X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
+        X_1d_sax_avg = _paa_to_symbols(
+            PiecewiseAggregateApproximation._transform(self, X),
+            self.breakpoints_avg_
+        )
 
         # Slope
         X_slopes = self._get_slopes(X)
-- 
2.43.0


From 56043c51127e7bcdeb25b75d0b7a3ee261123993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 22/79] fix: SAX scaling of constant features

The computed standard deviation of constant data may be a rounding error
instead of 0.
---
 tslearn/piecewise/piecewise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index b539e60..dcb1dd3 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -361,7 +361,10 @@ class SymbolicAggregateApproximation(PiecewiseAggregateApproximation):
             reshaped_X = X.reshape((-1, d))
             self.mu_ = numpy.nanmean(reshaped_X, axis=0)
             self.std_ = numpy.nanstd(reshaped_X, axis=0)
-            self.std_[self.std_ == 0.] = 1.
+            # The standard deviation of constant data is not always exactly 0
+            constant = (numpy.nanmin(reshaped_X, axis=0)
+                        == numpy.nanmax(reshaped_X, axis=0))
+            self.std_[(self.std_ == 0.) | constant] = 1.
 
         return super()._fit(X, y)
 
-- 
2.43.0


From 01e76d81b50b7d2349649e8566738ae62b0e8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 23/79] fix: DTW barycenters ignored their global_constraint
 parameter

The name of the constraint was passed to a compiled function that expects its
code, so that no constraint was applied.
---
 tslearn/barycenters/dba.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..7209cab 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,16 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _set_metric_params(metric_params):
+    """Return DTW constraint parameters in the form used by compiled functions.
+    """
+    metric_params = {} if metric_params is None else dict(metric_params)
+    global_constraint = metric_params.get("global_constraint")
+    if global_constraint is None or isinstance(global_constraint, str):
+        metric_params["global_constraint"] = GLOBAL_CONSTRAINT_CODE[global_constraint]
+    return metric_params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +52,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _set_metric_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +283,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _set_metric_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From ae4994767db46855a5397172dd2f9fc3c9cc5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 24/79] fix: subgradient DTW barycenters ignored their weights

The weight of the drawn series was cancelled by the normalization (and a null
weight gave NaNs). Nothing changes for uniform weights.
---
 tslearn/barycenters/dba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 7209cab..33dca2d 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -886,7 +886,7 @@ def dtw_barycenter_averaging_subgradient(
             if verbose:
                 print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost))
             barycenter = _subgradient_update_barycenter(Xi, list_diag_v_k,
-                                                        list_w_k, wi.sum(),
+                                                        list_w_k, weights.mean(),
                                                         barycenter, eta)
             if it == 0:
                 eta -= (initial_step_size - final_step_size) / n
-- 
2.43.0


From fb90094e2952971af9caac7d547948b43ed4d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 25/79] fix: inertia returned with a DTW barycenter is that of
 this barycenter

It was the one of the barycenter before last update. With max_iter=0, no
barycenter was returned at all.
---
 tslearn/barycenters/dba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 33dca2d..c00d34a 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -749,6 +749,8 @@ def dtw_barycenter_averaging_one_init(
             break
         else:
             cost_prev = cost
+    # Inertia of the returned barycenter, not of the one before last update
+    _, cost = _mm_assignment(X_, barycenter, weights, metric_params, n_jobs)
     return barycenter, cost
 
 
-- 
2.43.0


From 371b4e8b07669f810edc4afdf3a176851f934be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 26/79] fix: DTW barycenters initialised with a padded series

The size of the barycenter included the padding, that is removed from the
series itself (IndexError, or division by zero).
---
 tslearn/barycenters/dba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index c00d34a..7bbd411 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -214,12 +214,12 @@ def dtw_barycenter_averaging_petitjean(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         assign, cost = _petitjean_assignment(X_, barycenter, weights, metric_params, n_jobs)
@@ -721,12 +721,12 @@ def dtw_barycenter_averaging_one_init(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         list_p_k, cost = _mm_assignment(
-- 
2.43.0


From c95b80124dcd2f3c78475be57d040c1d825c27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 27/79] fix: TimeSeriesKMeans inertia is that of the returned
 centers

The reported inertia (also used to select the best restart) was that of the
centers before the last update, while labels and centers were the updated
ones.  A cluster emptied by the last update also escaped from fit as an
EmptyClusterError instead of counting as a failed attempt.
---
 tslearn/clustering/kmeans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..f793dfa 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -704,6 +704,8 @@ class TimeSeriesKMeans(
             old_inertia = self.inertia_
         if self.verbose:
             print("")
+        # labels and inertia of the last centers
+        self._assign(X)
 
         self._iter = it + 1
 
-- 
2.43.0


From 88e2441f5fc3d0602f586b69733b948bc8381667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 28/79] fix: KernelKMeans modified its kernel_params and reused
 a stale sigma

fit wrote the computed sigma into the caller's kernel_params dictionary, and
refitting used the sigma of the previous fit, whatever the parameters.
---
 tslearn/clustering/kmeans.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index f793dfa..f26d949 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -275,7 +275,12 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
                 raise RuntimeError(
                     "The{} `sigma` parameter is close to 0 and "
                     "cannot be used with gak kernel."
-                    .format(" auto computed" if self.kernel_params.get("sigma") == "auto" else ""))
+                    .format(
+                        " auto computed"
+                        if (self.kernel_params or {}).get("sigma") == "auto"
+                        else ""
+                    )
+                )
 
         else:
             X_sklearn = to_sklearn_dataset(X)
@@ -341,7 +346,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
+        kernel_params = self.kernel_params or {}
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
-- 
2.43.0


From eb0727ff7e2a95debd79b507e0add654924dd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 29/79] fix: KShape.predict used the norms of the training
 series

Distances of new series to the centroids were scaled by the norms of the
training series of same index (read out of bounds for larger batches).
---
 tslearn/clustering/kshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..9774efe 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -152,7 +152,7 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _cross_dists(self, X):
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=numpy.linalg.norm(X, axis=(1, 2)),
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
-- 
2.43.0


From d8135199967958e69007dd5786a203f2580be181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 30/79] fix: KShape truncated centroids initialised with an
 integer array

---
 tslearn/clustering/kshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 9774efe..27ec072 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -164,7 +164,7 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _fit_one_init(self, X, rs):
         if hasattr(self.init, '__array__'):
-            self.cluster_centers_ = self.init.copy()
+            self.cluster_centers_ = to_time_series_dataset(self.init)
         elif self.init == "random":
             indices = rs.choice(X.shape[0], self.n_clusters, replace=False)
             self.cluster_centers_ = X[indices].copy()
-- 
2.43.0


From cbf72ba02406a69a61fbef9493f41b1d8f347bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 31/79] fix: normalized_cc of series of length one

An empty slice of negative lags was written cc[-0:], which is everything.
---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..417e58e 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -45,7 +45,7 @@ def normalized_cc(s1, s2, norm1=-1.0, norm2=-1.0):
                 axis=0,
             )
         )
-    cc = np.vstack((cc[-(sz - 1) :], cc[:sz]))
+    cc = np.vstack((cc[cc.shape[0] - (sz - 1) :], cc[:sz]))
     norm_cc = np.real(cc).sum(axis=-1) / denom
     return norm_cc
 
-- 
2.43.0


From 4be205a1cf561114bee6d84cee8fbef283e115d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 32/79] fix: KShape chose the sign of a feature of the centroid
 from all features

The sign of the centroid of multivariate series was decided by comparing each
feature of the centroid with every feature of the series.
---
 tslearn/clustering/kshape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 27ec072..667ff23 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -133,8 +133,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             # The way the optimization problem is (ill-)formulated, both mu_k and
             # -mu_k are candidates for barycenters
             # In the following, we check which one is the best candidate
-            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp - mu_k, axis=(1, 2)))
-            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp + mu_k, axis=(1, 2)))
+            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp[:, :, i:i + 1] - mu_k, axis=(1, 2)))
+            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp[:, :, i:i + 1] + mu_k, axis=(1, 2)))
             if dist_minus_mu < dist_plus_mu:
                 mu_k *= -1
             mu_k_list.append(mu_k)
-- 
2.43.0


From 65c6bc8a1902d9eaa34bee0868d7e6c66bcde79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 33/79] fix: cdist_normalized_cc of a dataset with itself

The matrix was symmetrised in place from a view of itself, doubling some of
its entries.
---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 417e58e..ad945db 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -85,7 +85,7 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+        dists = dists + dists.T
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 71d12ddb96acfb5e0c5b7d7ea1773ebf139bf592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 34/79] fix: nearest-neighbour models kept a stale or modified
 metric

An exception raised while fitting or querying left metric="precomputed"
behind, and refitting after set_params(metric=...) went back to the metric of
the previous fit.
---
 tslearn/neighbors/neighbors.py | 105 +++++++++++++++------------------
 1 file changed, 47 insertions(+), 58 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..35dcef5 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,7 +82,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +91,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -178,9 +175,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,9 +215,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -327,25 +320,25 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(self.metric != "precomputed"
+                                          and not is_ts_metric))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +367,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +380,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +394,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
-                X=X_,
-                n_neighbors=n_neighbors,
-                return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
+                                 self.metric)
+            with self._patch_attribute("metric", "precomputed"):
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=X_,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,18 +540,16 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(self.metric != "precomputed"
+                                          and not is_ts_metric))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -573,11 +560,13 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -712,26 +701,26 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(self.metric != "precomputed"
+                                          and not is_ts_metric))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From 2cd2629ffd55a62c452c21313cecd19dad42bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 35/79] fix: neighbours of the training series themselves

kneighbors() without data dropped an arbitrary neighbour rather than the
query itself, and failed or compared placeholder zeros for elastic metrics.
---
 tslearn/neighbors/neighbors.py | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 35dcef5..d342434 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -120,22 +120,21 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         ind : array
             Indices of the nearest points in the population matrix.
         """
-        self_neighbors = False
+        self_neighbors = X is None
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
-        if X is None:
-            X = self._X_fit
-            self_neighbors = True
+        if self_neighbors:
+            if self.metric in TSLEARN_VALID_METRICS:
+                X = self._ts_fit
+            else:
+                X = self._X_fit
         if self.metric == "precomputed":
             full_dist_matrix = X
         else:
 
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
+            if hasattr(self, '_ts_fit') and self._ts_fit is not None:
                 fit_X = self._ts_fit
             else:
                 fit_X = self._X_fit
@@ -157,15 +156,17 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
-        kbin = min(n_neighbors - 1, full_dist_matrix.shape[1] - 1)
+        n_candidates = full_dist_matrix.shape[1]
+        if self_neighbors:
+            # A time series is not its own neighbor
+            full_dist_matrix = numpy.array(full_dist_matrix, dtype=float)
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_candidates -= 1
+        n_neighbors = min(n_neighbors, n_candidates)
+        kbin = max(n_neighbors - 1, 0)
         # argpartition will make sure the first `kbin` entries are the
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
-
-        if self_neighbors:
-            ind = ind[:, 1:]
-        if n_neighbors > full_dist_matrix.shape[1]:
-            n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
         n_ts = X.shape[0]
@@ -369,6 +370,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         if self.metric in TSLEARN_VALID_METRICS:
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
+            if X is None:
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=None,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-- 
2.43.0


From c43bf51def2964409273b6cf2292de3e019eb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 36/79] fix: SAX metric of the nearest-neighbour models

The SAX representation (its scaling and size) was fitted again on every batch
of queries, not refreshed when refitting, missing from the regressor and from
KNeighborsTimeSeries, and did not ignore n_jobs in metric_params.
---
 tslearn/neighbors/neighbors.py | 84 ++++++++++------------------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index d342434..28c0961 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,18 +28,12 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
-        X_sax = self._sax.fit_transform(X)
-
-        return X_sax
+    def _fit_sax(self, X, n_segments=10, alphabet_size_avg=4, scale=False):
+        return SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        ).fit(X)
 
     def _get_metric_params(self):
         if self.metric_params is None:
@@ -69,24 +63,26 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params)
         elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
+            sax = self._fit_sax(other_X, **metric_params)
             X_ = _cdist_sax(
-                X,
-                self._sax.breakpoints_avg_,
-                self._sax._X_fit_dims_[1],
-                other_X,
+                sax.transform(X),
+                sax.breakpoints_avg_,
+                sax._X_fit_dims_[1],
+                sax.transform(other_X),
                 n_jobs=self.n_jobs)
         elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params
             )
         else:
@@ -368,46 +364,16 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
-            if X is None:
-                return KNeighborsTimeSeriesMixin.kneighbors(
-                    self,
-                    X=None,
-                    n_neighbors=n_neighbors,
-                    return_distance=return_distance)
-            X = check_array(X, allow_nd=True, force_all_finite=False)
-            X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
-                           check_n_features_only=True)
-            if self.metric == "dtw":
-                X_ = _cdist_dtw(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            elif self.metric == "ctw":
-                X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self.metric == "softdtw":
-                X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self.metric == "frechet":
-                X_ = _cdist_frechet(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            else:
-                raise ValueError("Invalid metric recorded: %s" %
-                                 self.metric)
-            with self._patch_attribute("metric", "precomputed"):
-                return KNeighborsTimeSeriesMixin.kneighbors(
-                    self,
-                    X=X_,
-                    n_neighbors=n_neighbors,
-                    return_distance=return_distance)
+            if X is not None:
+                X = check_array(X, allow_nd=True, force_all_finite=False)
+                X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                               check_n_features_only=True)
+            return KNeighborsTimeSeriesMixin.kneighbors(
+                self,
+                X=X,
+                n_neighbors=n_neighbors,
+                return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -557,11 +523,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         if is_ts_metric:
             self._ts_fit = X
             if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
+                self._sax = self._fit_sax(X, **self._get_metric_params())
 
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
-- 
2.43.0


From 6f5c24d7f1741077e5cdb09929e0ee83331ea8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 37/79] fix: concurrent predictions of one nearest-neighbour
 model

Predicting changed the metric of the shared model for the duration of the
call, so that another thread used the wrong metric.
---
 tslearn/neighbors/neighbors.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 28c0961..a74bf35 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy
 
 from scipy.spatial.distance import cdist as scipy_cdist
@@ -212,15 +214,17 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        with caller._patch_attribute("metric", "precomputed"):
-            return predict_func(X_)
+        # Work on a copy, the caller may be in use in other threads
+        model = copy.copy(caller)
+        model.metric = "precomputed"
+        return predict_func(model, X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        return predict_func(caller, X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
@@ -551,7 +555,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, )
             Array of predicted class labels
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsClassifier.predict)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -566,7 +570,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, n_classes)
             Array of predicted class probabilities
         """
-        return _predict_generic(self, X, super().predict_proba)
+        return _predict_generic(self, X, KNeighborsClassifier.predict_proba)
 
 
 class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
@@ -705,4 +709,4 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, ) or (n_ts, dim_y)
             Array of predicted targets
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsRegressor.predict)
-- 
2.43.0


From 83d7757e437ff840afdb6e99c99c0497736ade19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 38/79] fix: silhouette_score with a callable metric

Series of variable length were refused, metric_params ignored, and keyword
arguments for the metric raised a TypeError.
---
 tslearn/clustering/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..bcbd222 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -195,17 +195,18 @@ def silhouette_score(X, labels, metric=None, sample_size=None,
         sklearn_X = cdist(X_, X_, metric="euclidean")
     else:
         X_ = to_time_series_dataset(X, be=be)
-        n, sz, d = X_.shape
-        sklearn_X = X_.reshape((n, -1))
+        # scikit-learn refuses missing values: give it the indices of the series
+        sklearn_X = numpy.arange(X_.shape[0]).reshape((-1, 1))
 
-        def sklearn_metric(x, y):
+        def sklearn_metric(x, y, **ignored):
             return metric(
-                _to_time_series(x.reshape(sz, d),
+                _to_time_series(X_[int(x[0])],
                                 remove_nans=True,
                                 backend=be),
-                _to_time_series(y.reshape(sz, d),
+                _to_time_series(X_[int(y[0])],
                                 remove_nans=True,
-                                backend=be)
+                                backend=be),
+                **metric_params_
             )
     return sklearn_silhouette(X=sklearn_X,
                               labels=labels,
-- 
2.43.0


From e02654a1be67a62767e57e2405fa0940eebbb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 39/79] fix: KNeighborsTimeSeriesClassifier.predict with flat
 metrics on multivariate series

---
 tslearn/neighbors/neighbors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index a74bf35..badf603 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -224,7 +224,10 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(caller, X_)
+        # scikit-learn checks the number of features of the flattened series
+        model = copy.copy(caller)
+        model.n_features_in_ = X_.shape[1]
+        return predict_func(model, X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
-- 
2.43.0


From fe236416a0d8502e1ec4a77f5c7ffe28788e9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 40/79] fix: concurrent predictions of one MLP model

---
 tslearn/neural_network/neural_network.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index f57849c..a760d01 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -1,3 +1,5 @@
+import copy
+
 from sklearn.neural_network import MLPClassifier, MLPRegressor
 from sklearn.utils.validation import check_is_fitted
 
@@ -106,8 +108,10 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        # Work on a copy, self may be in use in other threads
+        model = copy.copy(self)
+        model.n_features_in_ = X_.shape[1]
+        return super(TimeSeriesMLPClassifier, model).predict(X_)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -126,8 +130,10 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict_proba(X_)
+        # Work on a copy, self may be in use in other threads
+        model = copy.copy(self)
+        model.n_features_in_ = X_.shape[1]
+        return super(TimeSeriesMLPClassifier, model).predict_proba(X_)
 
 
 class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
@@ -226,5 +232,7 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        # Work on a copy, self may be in use in other threads
+        model = copy.copy(self)
+        model.n_features_in_ = X_.shape[1]
+        return super(TimeSeriesMLPRegressor, model).predict(X_)
-- 
2.43.0


From b4bb3933bc56734527803cf99827f0adde8542fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 41/79] fix: TimeSeriesSVR ignored its epsilon parameter

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..f33ed2f 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -585,7 +585,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From 51c05401ad3f7ff35b769bd1144f93861178ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 42/79] fix: gamma='auto' of the SVM models with a standard
 kernel is 1 / n_features

---
 tslearn/svm/svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index f33ed2f..71350a1 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -53,7 +53,8 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
 
         if fit_time:
             self._X_fit = X
-            if self.gamma == "auto":
+            if (self.gamma == "auto"
+                    and self.kernel in VARIABLE_LENGTH_METRICS):
                 self.gamma_ = gamma_soft_dtw(X, random_state=self.random_state)
             else:
                 self.gamma_ = self.gamma
-- 
2.43.0


From 303d9238b11df794fd3fa29fc3de4e7b3f45f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 43/79] fix: warm start of the MLP models

---
 tslearn/neural_network/neural_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index a760d01..20cbddd 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -55,6 +55,9 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if hasattr(self, "_X_fit_dims"):
+            # A warm start checks the number of (flattened) features
+            self.n_features_in_ = self._X_fit_dims[1] * self._X_fit_dims[2]
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super().fit(X_, y)
@@ -179,6 +182,9 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if hasattr(self, "_X_fit_dims"):
+            # A warm start checks the number of (flattened) features
+            self.n_features_in_ = self._X_fit_dims[1] * self._X_fit_dims[2]
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super(TimeSeriesMLPRegressor, self).fit(X_, y)
-- 
2.43.0


From 384f62b915fd0e4200ad4c7296cc65541510574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 44/79] fix: confusion matrices of the early classifier are
 normalised per true class

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..cc34355 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -200,7 +200,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
                                                    labels=label_set)
                     # normalize parameter seems to be quite recent in sklearn,
                     # so let's do it ourselves
-                    normalizer = conf_matrix.sum(axis=0, keepdims=True)
+                    normalizer = conf_matrix.sum(axis=1, keepdims=True)
                     normalizer[normalizer == 0] = 1  # Avoid divide by 0
                     conf_matrix = conf_matrix / normalizer
 
-- 
2.43.0


From 3509d9c7852bf5efd456c84f8d02b10b19f16f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 45/79] fix: early classifier costs were NaN for a series equal
 to all truncated centers

---
 tslearn/early_classification/early_classification.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index cc34355..5abaa96 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -279,7 +279,11 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
         average_distance = np.mean(distances_clusters)
-        delta_k = 1. - distances_clusters / average_distance
+        if average_distance == 0.:
+            # Xi equals all the (truncated) cluster centers
+            delta_k = np.zeros(distances_clusters.shape)
+        else:
+            delta_k = 1. - distances_clusters / average_distance
         s_k = 1. / (1. + np.exp(-self.lamb * delta_k))
         return s_k / s_k.sum()
 
-- 
2.43.0


From 4f9295bb117022d96f739eac78d1ead01eb1545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 46/79] fix: early classifier with an empty cluster

---
 tslearn/early_classification/early_classification.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index 5abaa96..b299365 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -165,7 +165,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         sz = X.shape[1]
         self.classifiers_ = {t: clone(clf)
                              for t in range(self.min_t, sz + 1)}
-        self.pyhatyck_ = np.empty((sz - self.min_t + 1,
+        self.pyhatyck_ = np.zeros((sz - self.min_t + 1,
                                    self.n_clusters,
                                    self.__n_classes_, self.__n_classes_))
         c_k = self.cluster_.fit_predict(X)
@@ -185,12 +185,14 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
             (vector_of_ones, (y_, c_k)),
             shape=(self.__n_classes_, self.n_clusters),
         ).toarray()
-        self.pyck_ /= self.pyck_.sum(axis=0, keepdims=True)
+        cluster_sizes = self.pyck_.sum(axis=0, keepdims=True)
+        cluster_sizes[cluster_sizes == 0] = 1  # Avoid divide by 0
+        self.pyck_ /= cluster_sizes
         for t in range(self.min_t, sz + 1):
             self.classifiers_[t].fit(X1[:, :t], y1)
             for k in range(0, self.n_clusters):
                 index = (c_k2 == k)
-                if index.shape[0] != 0:
+                if index.any():
                     X2_current_cluster = X2[index, :t]
                     y2_current_cluster = y2[index]
                     y2_hat = self.classifiers_[t].predict(
-- 
2.43.0


From f410f08ac45de4bbae658aebbfa0cfda36edfb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 47/79] fix: distances to several multivariate shapelets of one
 size

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..60aea51 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -218,7 +218,7 @@ class LocalSquaredDistanceLayer(Layer):
         )
         y_ = ops.reshape(
             ops.transpose(self.kernel,
-                          (1, 0, 2)),
+                          (1, 2, 0)),
                          (shapelet_size * nb_features, self.nb_shapelets))
         xy = ops.dot(x_, y_)
         return (x_sq + y_sq - 2 * xy) / shapelet_size
-- 
2.43.0


From e8be79f3800aba8e30271c00578d6ac54a64a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:06 +0000
Subject: [PATCH 48/79] fix: series length checks of LearningShapelets

Refitting kept the maximum length of the first fit, series shorter than
shapelets of a default size were matched against their padding, and
predicting changed the fitted minimal length.
---
 tslearn/shapelets/shapelets.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 60aea51..467926e 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fit_time=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._check_series_length(X, fit_time=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,28 +667,34 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _check_series_length(self, X, fit_time=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
         - their length is lower than the maximum allowed length,
         as set by max_size or deduced from fitted data.
         """
-        self._min_sz_fit = min(_ts_size(Xi) for Xi in X)
+        min_sz = min(_ts_size(Xi) for Xi in X)
+
+        if fit_time:
+            self._min_sz_fit = min_sz
+            n_shapelets_per_size = self.n_shapelets_per_size
+        else:
+            n_shapelets_per_size = self.n_shapelets_per_size_
 
-        if self.n_shapelets_per_size is not None:
-            max_sz_shp = max(self.n_shapelets_per_size.keys())
-            if max_sz_shp > self._min_sz_fit:
+        if n_shapelets_per_size is not None:
+            max_sz_shp = max(n_shapelets_per_size.keys())
+            if max_sz_shp > min_sz:
                 raise ValueError("Sizes in X do not match maximum "
                                  "shapelet size: there is at least one "
                                  "series in X that is shorter than one of the "
                                  "shapelets. Shortest time series is of "
                                  "length {} and longest shapelet is of length "
-                                 "{}".format(self._min_sz_fit, max_sz_shp))
+                                 "{}".format(min_sz, max_sz_shp))
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit_time else self._X_fit_dims[1]
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,7 +704,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+    def _preprocess_series(self, X, fit_time=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
@@ -707,7 +713,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit_time else self._X_fit_dims[1]
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
-- 
2.43.0


From 83efdfdffe08d2be23568390a2366409ce10142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 49/79] fix: VARIMA.predict of variable-length series with q >
 p

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 805fea7..e889b17 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -385,10 +385,11 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
+            # (residuals first, since last timestamps are moved in place)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From 1f41c01c9f22e6f127ac91bbaf1eaba35932681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 50/79] fix: MA coefficients of VARIMA are ordered by lag, like
 its starting values

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index e889b17..3884c89 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -100,8 +100,9 @@ def _varma_next(X, residuals, ar_coeffs, ma_coeffs, intercept):
     for k in range(ar_coeffs.shape[0]):
         ar_forecast += np.dot(X[:, n_samples - k - 1], ar_coeffs[k])
     ma_forecast = np.zeros((n_ts, n_features_in))
+    n_residuals = residuals.shape[1]
     for k in range(ma_coeffs.shape[0]):
-        ma_forecast += np.dot(residuals[:, k], ma_coeffs[k])
+        ma_forecast += np.dot(residuals[:, n_residuals - k - 1], ma_coeffs[k])
 
     intercept = np.zeros(n_features_in) if intercept.shape[0] == 0 else intercept
 
-- 
2.43.0


From 225d3a99139966a524d1e00fa9bc3690d0b7cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 51/79] fix: AutoVARIMA resolved ties in an arbitrary order

---
 tslearn/forecasting/_arima.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 3884c89..68f0e7e 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -650,7 +650,8 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return d
 
     def _init_models(self, d):
-        models = {
+        # (a list, so that ties are always resolved in the same way)
+        models = [
             VARIMA(
                 0,
                 d,
@@ -660,9 +661,9 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 max_iter=self.max_iter,
                 verbose=self.verbose > 1,
             )
-        }
+        ]
         if self.max_p > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     1,
                     d,
@@ -674,7 +675,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_q > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -686,7 +687,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_p > 1 and self.max_q > 1:
-            models.add(
+            models.append(
                 VARIMA(
                     2,
                     d,
@@ -698,7 +699,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 ),
             )
         if d <= 1:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -739,7 +740,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
 
         eligible_variations = eligible_variations - computed_adjustable_hyperparams
 
-        return {
+        return [
             VARIMA(
                 p,
                 current_best_model.d,
@@ -749,8 +750,8 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 max_iter=self.max_iter,
                 verbose=self.verbose > 1,
             )
-            for p, q, with_constant in eligible_variations
-        }
+            for p, q, with_constant in sorted(eligible_variations)
+        ]
 
     def _get_best_model_for_given_d(self, d, X):
         adjustable_hyperparams = ["p", "q", "with_constant"]
-- 
2.43.0


From cddbc3db01d71526445cb95a3bf25be6c26abe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 52/79] fix: AutoVARIMA failed on constant (or polynomial)
 series

---
 tslearn/forecasting/_arima.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 68f0e7e..a1e84ee 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -616,14 +616,13 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         # Check stationarity for each feature of each TS
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", category=InterpolationWarning)
-            return all(
-                kpss(x[: self._ts_sizes[i] - self._seasonal_period- d], regression="c")[
-                    1
-                ]
-                > 0.05
-                for k in range(X.shape[-1])
-                for i, x in enumerate(X[:, :, k])
-            )
+            for k in range(X.shape[-1]):
+                for i, x in enumerate(X[:, :, k]):
+                    ts = x[: self._ts_sizes[i] - self._seasonal_period - d]
+                    # A constant is stationary (its KPSS statistic is undefined)
+                    if np.ptp(ts) > 0 and not kpss(ts, regression="c")[1] > 0.05:
+                        return False
+            return True
 
     def _determine_d(self, X):
         # Apply naïve seasonality first
-- 
2.43.0


From 3a58c8573cd5fc37c7d02ecf651b7c052dd6f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 53/79] fix: stumpy implementations of MatrixProfile ignored
 scale=False

---
 tslearn/matrix_profile/matrix_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..13f440f 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -170,7 +170,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -180,7 +181,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From 77e9a2a8e10687f0accb0c253d883fd5682d9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 54/79] fix: MatrixProfile of variable-length series gave
 missing values everywhere

---
 tslearn/matrix_profile/matrix_profile.py | 29 ++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 13f440f..760d059 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -7,6 +7,7 @@ from sklearn.utils.validation import check_is_fitted
 from tslearn.bases import BaseModelPackage, TimeSeriesMixin
 from tslearn.preprocessing import TimeSeriesScalerMeanVariance
 from tslearn.utils import check_array, check_dims
+from tslearn.utils.utils import _ts_size
 
 stumpy_msg = ('stumpy is not installed, stumpy features will not be'
               'supported.\n Install stumpy to use stumpy features:'
@@ -161,35 +162,48 @@ class MatrixProfile(TimeSeriesMixin,
                                       "from the stumpy library.")
 
         output_size = sz - self.subsequence_length + 1
-        X_transformed = np.empty((n_ts, output_size, 1))
+        # Sub-sequences that overlap padding have no matrix profile
+        X_transformed = np.full((n_ts, output_size, 1), np.nan)
+        sizes = [_ts_size(ts) for ts in X]
+        n_windows = [max(size - self.subsequence_length + 1, 0)
+                     for size in sizes]
 
         if self.implementation == "stump":
             if not STUMPY_INSTALLED:
                 raise ImportError(stumpy_msg)
 
             for i_ts in range(n_ts):
+                if n_windows[i_ts] == 0:
+                    continue
                 result = stumpy.stump(
-                    T_A=X[i_ts, :, 0].ravel(),
+                    T_A=X[i_ts, :sizes[i_ts], 0].ravel(),
                     m=self.subsequence_length,
                     normalize=self.scale)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                X_transformed[i_ts, :n_windows[i_ts], 0] = result[
+                    :, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
             if not STUMPY_INSTALLED:
                 raise ImportError(stumpy_msg)
 
             for i_ts in range(n_ts):
+                if n_windows[i_ts] == 0:
+                    continue
                 result = stumpy.gpu_stump(
-                    T_A=X[i_ts, :, 0].ravel(),
+                    T_A=X[i_ts, :sizes[i_ts], 0].ravel(),
                     m=self.subsequence_length,
                     normalize=self.scale)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                X_transformed[i_ts, :n_windows[i_ts], 0] = result[
+                    :, 0].astype(float)
 
         elif self.implementation == "numpy":
             scaler = TimeSeriesScalerMeanVariance()
             band_width = int(np.ceil(self.subsequence_length / 4))
             for i_ts in range(n_ts):
-                segments = _series_to_segments(X[i_ts], self.subsequence_length)
+                if n_windows[i_ts] == 0:
+                    continue
+                segments = _series_to_segments(X[i_ts, :sizes[i_ts]],
+                                               self.subsequence_length)
                 if self.scale:
                     segments = scaler.fit_transform(segments)
                 n_segments = segments.shape[0]
@@ -200,7 +214,8 @@ class MatrixProfile(TimeSeriesMixin,
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
                 dists[band] = np.inf
-                X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
+                X_transformed[i_ts, :n_windows[i_ts]] = dists.min(
+                    axis=1, keepdims=True)
 
         else:
             available_implementations = ["numpy", "stump", "gpu_stump"]
-- 
2.43.0


From acce1f85a07a9a6b6069b4f57e1303dde6df4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 55/79] fix: 1d-SAX of variable-length series computed slopes
 on padding

---
 tslearn/piecewise/piecewise.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index dcb1dd3..208e4d7 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -682,11 +682,13 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
     def _get_slopes(self, X):
         n_ts, sz, d = X.shape
         X_slopes = numpy.empty((n_ts, self.n_segments, d))
-        sz_segment = sz // self.n_segments
-        for i_seg in range(self.n_segments):
-            start = i_seg * sz_segment
-            end = start + sz_segment
-            X_slopes[:, i_seg, :] = cyslopes(X[:, start:end, :], start)
+        for i_ts in range(n_ts):
+            sz_segment = _ts_size(X[i_ts]) // self.n_segments
+            for i_seg in range(self.n_segments):
+                start = i_seg * sz_segment
+                end = start + sz_segment
+                X_slopes[i_ts, i_seg, :] = cyslopes(
+                    X[i_ts:i_ts + 1, start:end, :], start)[0]
         return X_slopes
 
     def _transform(self, X, y=None):
-- 
2.43.0


From d977b55f2d705e8110ceaf9f3106d4d965c99cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 56/79] fix: nested parameters of models saved to HDF5 were
 lost or not restored

---
 tslearn/bases/bases.py       | 29 +++++++++++++++--------------
 tslearn/hdftools/hdftools.py |  1 +
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..d5c15c3 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -130,6 +130,8 @@ class BaseModelPackage(object):
             d['hyper_params'] = BaseModelPackage._listify(d['hyper_params'])
 
         elif output == 'hdf5':
+            d['model_params'] = \
+                BaseModelPackage._none_to_str(d['model_params'])
             d['hyper_params'] = \
                 BaseModelPackage._none_to_str(d['hyper_params'])
 
@@ -141,11 +143,16 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
-        for k in mp.keys():
-            if mp[k] is None:
-                mp[k] = 'None'
+        if isinstance(mp, dict):
+            return {k: BaseModelPackage._none_to_str(v) for k, v in mp.items()}
+        return 'None' if mp is None else mp
 
-        return mp
+    @staticmethod
+    def _str_to_none(mp):
+        """Inverse of `_none_to_str`. Used for HDF5"""
+        if isinstance(mp, dict):
+            return {k: BaseModelPackage._str_to_none(v) for k, v in mp.items()}
+        return None if isinstance(mp, str) and mp == 'None' else mp
 
     @staticmethod
     def _listify(model_params):
@@ -201,11 +208,9 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
-        for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
-        return model
+        if isinstance(model, dict):
+            return {k: cls._byte2string(v) for k, v in model.items()}
+        return model.decode('utf-8') if isinstance(model, bytes) else model
 
     def to_hdf5(self, path):
         """
@@ -248,11 +253,7 @@ class BaseModelPackage(object):
 
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
-
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        model = cls._str_to_none(model)
 
         return cls._organize_model(cls, model)
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..66a69bb 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -88,6 +88,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)    # kept, even if empty
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
-- 
2.43.0


From 8208f3b665c35342146ec7f7a567ad9a7d8f6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:56 +0000
Subject: [PATCH 57/79] fix: reloaded nearest-neighbour models failed (flat
 metrics, regressor)

---
 tslearn/neighbors/neighbors.py | 47 ++++++++++++----------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index badf603..3b4f9fc 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -193,6 +193,23 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         tags.allow_variable_length = True
         return tags
 
+    def _is_fitted(self):
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+        else:
+            check_is_fitted(self, '_X_fit')
+        return True
+
+    def _get_model_params(self):
+        return {
+            attr: getattr(self, attr)
+            for attr in ('_X_fit', '_ts_fit', '_d', 'classes_', '_y',
+                         'outputs_2d_', '_fit_X', '_fit_method',
+                         'n_samples_fit_', 'n_features_in_',
+                         'effective_metric_', 'effective_metric_params_')
+            if hasattr(self, attr)
+        }
+
 
 def _predict_generic(caller, X, predict_func):
     """Predict the class labels or target (depending on predict_func) for the provided data
@@ -302,20 +319,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -489,22 +492,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
-    def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
-            'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
-
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From 202eb0274b13e280fde827d6504c242da84cd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:56 +0000
Subject: [PATCH 58/79] fix: reloaded MatrixProfile models were not fitted

---
 tslearn/matrix_profile/matrix_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 760d059..3d64308 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -131,6 +131,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({'_X_fit_dims': np.array(self._X_fit_dims)})
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
@@ -245,7 +250,7 @@ class MatrixProfile(TimeSeriesMixin,
         """
         self._is_fitted()
         X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = check_dims(X, X_fit_dims=self._X_fit_dims,
+        X = check_dims(X, X_fit_dims=tuple(self._X_fit_dims),
                        check_n_features_only=True)
         return self._transform(X, y)
 
-- 
2.43.0


From bf5c2c01f4dd1dd4c8336d29d350f72c9bb09cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 59/79] fix: nested arrays and empty lists of models could not
 be saved to JSON

---
 tslearn/bases/bases.py | 50 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index d5c15c3..b2d2630 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -160,17 +160,35 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
-        for k in model_params.keys():
-            param = model_params[k]
-
-            if isinstance(param, np.ndarray):
-                model_params[k] = param.tolist()  # for json support
-            elif isinstance(param, list) and isinstance(param[0], np.ndarray):
-                model_params[k] = [p.tolist() for p in param]  # json support
-            else:
-                model_params[k] = param
+        if isinstance(model_params, np.ndarray):
+            return model_params.tolist()
+        if isinstance(model_params, dict):
+            return {k: BaseModelPackage._listify(p)
+                    for k, p in model_params.items()}
+        if isinstance(model_params, list):
+            return [BaseModelPackage._listify(p) for p in model_params]
         return model_params
 
+    @staticmethod
+    def _arrayify(param):
+        """
+        Convert lists back to numpy arrays.
+        Used for json support
+        """
+        if isinstance(param, dict):
+            return {k: BaseModelPackage._arrayify(p) for k, p in param.items()}
+        if type(param) is list:
+            try:
+                arr = np.array(param)
+                if arr.dtype == object:
+                    # Then maybe it was rather a list of arrays
+                    # This is very hacky...
+                    arr = [np.array(p) for p in param]
+            except ValueError:
+                arr = [np.array(p) for p in param]
+            return arr
+        return param
+
     @staticmethod
     def _organize_model(cls, model):
         """
@@ -289,19 +307,7 @@ class BaseModelPackage(object):
         model = cls._byte2string(model)
 
         # Convert the lists back to arrays
-        for param_type in ['model_params', 'hyper_params']:
-            for k in model[param_type].keys():
-                param = model[param_type][k]
-                if type(param) is list:
-                    try:
-                        arr = np.array(param)
-                        if arr.dtype == object:
-                            # Then maybe it was rather a list of arrays
-                            # This is very hacky...
-                            arr = [np.array(p) for p in param]
-                    except ValueError:
-                        arr = [np.array(p) for p in param]
-                    model[param_type][k] = arr
+        model = cls._arrayify(model)
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From dde97b2b8f496cc94e4e5a881ab175f4fe074abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 60/79] fix: VARIMA and AutoVARIMA models could not be saved

---
 tslearn/forecasting/_arima.py | 53 +++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index a1e84ee..3008a2e 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -180,6 +180,38 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update(
+            {
+                "_min_samples": self._min_samples,
+                "_ts_sizes": np.array(self._ts_sizes),
+                "_last_timestamps": self._last_timestamps,
+                "_last_residuals": self._last_residuals,
+            }
+        )
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        # The shape of empty arrays may have been lost
+        n_features = inst.n_features_in_
+        for attr in ("ar_coeffs_", "ma_coeffs_"):
+            coeffs = np.reshape(getattr(inst, attr), (-1, n_features, n_features))
+            setattr(inst, attr, coeffs)
+        for attr, size in (
+            ("_last_timestamps", inst._last_timestamps.shape[1]),
+            ("_last_residuals", inst._last_residuals.shape[1]),
+        ):
+            last = np.reshape(getattr(inst, attr), (inst.n_ts_, size, n_features))
+            setattr(inst, attr, last)
+        return inst
+
     def fit(self, X, y=None):
         """Fits a VARIMA model.
 
@@ -534,6 +566,27 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update(
+            {
+                "_min_samples": self._min_samples,
+                "_ts_sizes": np.array(self._ts_sizes),
+                "best_estimator_": self.best_estimator_._to_dict(),
+            }
+        )
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        inst.best_estimator_ = VARIMA._organize_model(VARIMA, inst.best_estimator_)
+        return inst
+
     def fit(self, X, y=None):
         """Selects the best Vector Autoregressive Moving Average (VARIMA) model
         through Hyndman-Khandakar algorithm for the given data.
-- 
2.43.0


From 210178dd7b2c3df04bbe2c4e306fc189a411d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 61/79] fix: non-ASCII labels could not be loaded back from
 HDF5

---
 tslearn/hdftools/hdftools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 66a69bb..0c3e113 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -143,7 +143,7 @@ def _dicts_from_group(h5file, path):
     for key, item in h5file[path].items():
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
-                ans[key] = item[()].astype(item.attrs['dtype'])
+                ans[key] = item.asstr()[()].astype(item.attrs['dtype'])
             else:
                 ans[key] = item[()]
         elif isinstance(item, h5py._hl.group.Group):
-- 
2.43.0


From 3d5897f6b2d0afe8bebbdbc423801c3c7ac3898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 62/79] fix: a model reloaded from HDF5 could not be saved
 again

---
 tslearn/bases/bases.py       | 4 ++--
 tslearn/hdftools/hdftools.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index b2d2630..fce1afb 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -160,12 +160,12 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
-        if isinstance(model_params, np.ndarray):
+        if isinstance(model_params, (np.ndarray, np.generic)):
             return model_params.tolist()
         if isinstance(model_params, dict):
             return {k: BaseModelPackage._listify(p)
                     for k, p in model_params.items()}
-        if isinstance(model_params, list):
+        if isinstance(model_params, (list, tuple)):
             return [BaseModelPackage._listify(p) for p in model_params]
         return model_params
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 0c3e113..a687e26 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -84,7 +84,8 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
         # single pieces of data
         elif isinstance(item, (str, int, np.int8,
                                np.int16, np.int32, np.int64, float,
-                               np.float16, np.float32, np.float64)):
+                               np.float16, np.float32, np.float64,
+                               np.bool_)):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
-- 
2.43.0


From 7d09df1ccbd6e81c880cd30c79fb2c0942c53d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 63/79] fix: KernelKMeans automatic bandwidth depended on the
 amount of padding

---
 tslearn/clustering/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index f26d949..2d57fde 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -20,7 +20,7 @@ from tslearn.metrics import (
     _cdist_dtw,
     _cdist_gak,
     _cdist_soft_dtw,
-    _sigma_gak as sigma_gak
+    sigma_gak
 )
 from tslearn.utils import (
     check_array,
-- 
2.43.0


From 0b80e63a19e468f51929dd9204307e9b19e80336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 64/79] fix: a failed dataset download raised instead of
 returning None with a warning

---
 tslearn/datasets/datasets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..2fab78d 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -36,19 +36,19 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
     fname = Path(url).name
     tmpdir = tempfile.mkdtemp()
     local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
     target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
     try:
+        urlretrieve(url, local_zip_fname)
+        target_dir.mkdir(parents=True, exist_ok=True)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
             f.extractall(path=target_dir)
         if verbose:
             print("Successfully extracted file %s to path %s" %
                   (local_zip_fname, target_dir))
         return target_dir
-    except zipfile.BadZipFile:
-        warnings.warn("Corrupted or missing zip file encountered, aborting",
-                      category=RuntimeWarning)
+    except Exception as exception:
+        warnings.warn("Corrupted or missing zip file encountered, aborting "
+                      "(%s)" % exception, category=RuntimeWarning)
         return None
     finally:
         shutil.rmtree(tmpdir, ignore_errors=True)
-- 
2.43.0


From fddf7df648a99d0f02a81722a00b0f09d6d9db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 65/79] fix: a corrupted archive left a partial dataset that
 later loads took for intact

---
 tslearn/datasets/datasets.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2fab78d..422b183 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -34,14 +34,22 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         successful, None otherwise
     """
     fname = Path(url).name
-    tmpdir = tempfile.mkdtemp()
-    local_zip_fname = Path(tmpdir) / fname
     target_dir = Path(target_dir)
+    target_dir.parent.mkdir(parents=True, exist_ok=True)
+    # Extract next to the target and put the files in place once all of them
+    # are complete, so that a failure leaves no partial dataset behind
+    tmpdir = tempfile.mkdtemp(prefix=".", dir=target_dir.parent)
+    local_zip_fname = Path(tmpdir) / fname
+    extracted_dir = Path(tmpdir) / "extracted"
     try:
         urlretrieve(url, local_zip_fname)
-        target_dir.mkdir(parents=True, exist_ok=True)
+        extracted_dir.mkdir()
         with zipfile.ZipFile(local_zip_fname, "r") as f:
-            f.extractall(path=target_dir)
+            f.extractall(path=extracted_dir)
+        if target_dir.exists():
+            shutil.copytree(extracted_dir, target_dir, dirs_exist_ok=True)
+        else:
+            extracted_dir.rename(target_dir)
         if verbose:
             print("Successfully extracted file %s to path %s" %
                   (local_zip_fname, target_dir))
-- 
2.43.0


From 0c7526b6dd57830075c550eeee79190f3ccd132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 66/79] fix: leftovers of an interrupted download are not
 cached datasets

---
 tslearn/datasets/ucr_uea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..3fa20b4 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -245,7 +245,8 @@ class UCR_UEA_datasets:
         True
         """
         return [path.name for path in self._data_dir.iterdir()
-                if path.is_dir() and path.name not in self._ignore_list]
+                if path.is_dir() and path.name not in self._ignore_list
+                and not path.name.startswith(".")]
 
     def load_dataset(self, dataset_name):
         """Load a dataset from the UCR/UEA archive from its name.
-- 
2.43.0


From 438cc82e875b18fbdf08f37edc422a1035610c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 67/79] fix: loading a dataset named '' or '..' deleted the
 whole cache

---
 tslearn/datasets/ucr_uea.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 3fa20b4..f8ff12a 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -294,6 +294,11 @@ class UCR_UEA_datasets:
         dataset_name = self._filenames.get(dataset_name, dataset_name)
         full_path = self._data_dir / dataset_name
 
+        if full_path.parent != self._data_dir or dataset_name == "..":
+            warnings.warn("\"%s\" is not a dataset name" % dataset_name,
+                          category=RuntimeWarning, stacklevel=2)
+            return None, None, None, None
+
         if not self._has_files(dataset_name) or not self.use_cache:
             # completely clear the target directory first, it will be created
             # by extract_from_zip_url if it does not exist
-- 
2.43.0


From cdfecb31e084fad9d65b25e374838226fb0d1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 68/79] fix: a TXT dataset file with a single series could not
 be loaded

---
 tslearn/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index bf142e2..7bbf8dd 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -702,7 +702,7 @@ def _load_txt_uea(dataset_path):
     Exception: on any failure, e.g. if the given file does not exist or is
                corrupted
     """
-    data = numpy.loadtxt(dataset_path)
+    data = numpy.loadtxt(dataset_path, ndmin=2)
     X = to_time_series_dataset(data[:, 1:])
     y = data[:, 0].astype(int)
     return X, y
-- 
2.43.0


From 2691284f2c26d6e1f67f1ac73d46137ffaf37a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 69/79] fix: mase refused feature weights given as a numpy
 array

---
 tslearn/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..f800bdb 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -205,7 +205,7 @@ def mase(
 
     mae_ = mae(y_true, y_pred, ts_weights, timestamps_weights, multioutput)
 
-    if multioutput == "raw_values":
+    if isinstance(multioutput, str) and multioutput == "raw_values":
         scale_axis = (0, 1)
     else:
         scale_axis = None
-- 
2.43.0


From 2b545df4a79dbb64167eec8e94e5143ca4f830f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 70/79] fix: mae and mse silently compared forecasts of a
 different shape

---
 tslearn/metrics/performance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index f800bdb..54c5578 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -54,6 +54,9 @@ def mae(
 
     y_true = to_time_series_dataset(y_true)
     y_pred = to_time_series_dataset(y_pred)
+    if y_true.shape != y_pred.shape:
+        raise ValueError("y_true and y_pred have different shapes: {} and {}".format(
+            y_true.shape, y_pred.shape))
 
     n_ts, sz, d = y_true.shape
 
@@ -124,6 +127,9 @@ def mse(
     """
     y_true = to_time_series_dataset(y_true)
     y_pred = to_time_series_dataset(y_pred)
+    if y_true.shape != y_pred.shape:
+        raise ValueError("y_true and y_pred have different shapes: {} and {}".format(
+            y_true.shape, y_pred.shape))
 
     n_ts, sz, d = y_true.shape
 
-- 
2.43.0


From 2a3bb3af7ec71da489622c5b7b052e171bc2f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 71/79] fix: cross-distances with an empty series read outside
 of their arrays

---
 tslearn/metrics/_dtw.py      |  2 ++
 tslearn/metrics/_frechet.py  |  2 ++
 tslearn/metrics/_soft_dtw.py |  2 ++
 tslearn/metrics/utils.py     | 19 +++++++++++++++++++
 4 files changed, 25 insertions(+)

diff --git a/tslearn/metrics/_dtw.py b/tslearn/metrics/_dtw.py
index 71ff041..0c5d69c 100644
--- a/tslearn/metrics/_dtw.py
+++ b/tslearn/metrics/_dtw.py
@@ -22,6 +22,7 @@ from .utils import (
     _njit_compute_path,
     _compute_path,
     _cdist_generic,
+    _check_no_empty_series,
     _torch_accumulated_matrix,
     _torch_acc_matrix_from_dist_matrix
 )
@@ -778,6 +779,7 @@ def _cdist_dtw(
 ):
     if be is None:
         be = instantiate_backend(dataset1, dataset2)
+    _check_no_empty_series(be, dataset1, dataset2)
     dtw_ = _njit_dtw if be.is_numpy else _dtw
     return _cdist_generic(
         dist_fun=dtw_,
diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 53f8d41..e4a9824 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -20,6 +20,7 @@ from ._masks import (
 )
 from .utils import (
     _cdist_generic,
+    _check_no_empty_series,
     _njit_compute_path,
     _compute_path,
     _torch_accumulated_matrix,
@@ -789,6 +790,7 @@ def _cdist_frechet(
 ):
     if be is None:
         be = instantiate_backend(dataset1, dataset2)
+    _check_no_empty_series(be, dataset1, dataset2)
     frechet_ = _njit_frechet if be.is_numpy else _frechet
     return _cdist_generic(
         dist_fun=frechet_,
diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 769d623..26fc40e 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -32,6 +32,7 @@ from ._masks import (
 from .soft_dtw_fast import _njit_softmin3
 from .utils import (
     _cdist_generic,
+    _check_no_empty_series,
     _torch_accumulated_matrix,
     _torch_acc_matrix_from_dist_matrix
 )
@@ -913,6 +914,7 @@ def _cdist_soft_dtw(
 ):
     if be is None:
         be = instantiate_backend(dataset1, dataset2)
+    _check_no_empty_series(be, dataset1, dataset2)
 
     if math.isclose(gamma, 0.0):
         return _cdist_dtw(
diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index fe613de..91c243b 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -54,6 +54,25 @@ else:
     _compute_path = _njit_compute_path
 
 
+def _check_no_empty_series(be, *datasets):
+    """Raise a ValueError if some time series has no observation at all.
+
+    Parameters
+    ----------
+    be : Backend object
+        Backend.
+    datasets : array-like, shape=(n_ts, sz, d) or None
+        Datasets of time series.
+    """
+    for dataset in datasets:
+        if dataset is not None and any(
+            _to_time_series(ts, True, be).shape[0] == 0 for ts in dataset
+        ):
+            raise ValueError(
+                "One of the input time series contains only nans or has zero length."
+            )
+
+
 def _cdist_generic(
     dist_fun,
     dataset1,
-- 
2.43.0


From 39603094db26fc7ffd711fb59e150a0b52e49b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 72/79] fix: DTW barycenters of a dataset with an empty series
 crashed or never returned

---
 tslearn/barycenters/dba.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 7bbd411..5cfc555 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -14,6 +14,7 @@ from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
 from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
+from tslearn.metrics.utils import _check_no_empty_series
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -208,6 +209,7 @@ def dtw_barycenter_averaging_petitjean(
     backend = instantiate_backend("numpy")
 
     X_ = to_time_series_dataset(X, be=backend)
+    _check_no_empty_series(backend, X_)
     if barycenter_size is None:
         barycenter_size = X_.shape[1]
     weights = _set_weights(weights, X_.shape[0])
@@ -715,6 +717,7 @@ def dtw_barycenter_averaging_one_init(
     backend = instantiate_backend("numpy")
 
     X_ = to_time_series_dataset(X, be=backend)
+    _check_no_empty_series(backend, X_)
     if barycenter_size is None:
         barycenter_size = X_.shape[1]
     weights = _set_weights(weights, X_.shape[0])
@@ -858,6 +861,7 @@ def dtw_barycenter_averaging_subgradient(
     backend = instantiate_backend("numpy")
 
     X_ = to_time_series_dataset(X, be=backend)
+    _check_no_empty_series(backend, X_)
     if barycenter_size is None:
         barycenter_size = X_.shape[1]
     weights = _set_weights(weights, X_.shape[0])
-- 
2.43.0


From 63e0ba8e203276552c0547fdcae638db383d8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 73/79] fix: kneighbors of neighbors classifiers and regressors
 accepted unfitted models and other feature counts

---
 tslearn/neighbors/neighbors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 3b4f9fc..bd7ea22 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -118,6 +118,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         ind : array
             Indices of the nearest points in the population matrix.
         """
+        check_is_fitted(self, '_X_fit')
         self_neighbors = X is None
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
@@ -130,8 +131,13 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             full_dist_matrix = X
         else:
 
+            X = check_array(X, allow_nd=True, force_all_finite=False)
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
+            if X.shape[-1] != self._d:
+                raise ValueError(
+                    "X has {} features but the model was fitted with {}".format(
+                        X.shape[-1], self._d))
             if hasattr(self, '_ts_fit') and self._ts_fit is not None:
                 fit_X = self._ts_fit
             else:
-- 
2.43.0


From 9613af55cb48c17da7c6771d62e64bab3457db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 74/79] fix: lcss of series with different features or no
 observation read outside of its arrays

---
 tslearn/metrics/dtw_variants.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 35d8ade..010898e 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -1201,6 +1201,14 @@ def lcss(
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[0] == 0 or s2.shape[0] == 0:
+        raise ValueError(
+            "One of the input time series contains only nans or has zero length."
+        )
+
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     mask = compute_mask_(
         s1,
         s2,
@@ -1525,6 +1533,14 @@ def lcss_path(
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[0] == 0 or s2.shape[0] == 0:
+        raise ValueError(
+            "One of the input time series contains only nans or has zero length."
+        )
+
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     mask = compute_mask_(
         s1,
         s2,
-- 
2.43.0


From d75b0235b71d19e140893f187c0ee7598399fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 75/79] fix: subsequence costs of series with different
 features or no observation read outside of their arrays

---
 tslearn/metrics/dtw_variants.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 010898e..ec57d48 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -496,6 +496,15 @@ def subsequence_cost_matrix(subseq, longseq, be=None):
     be = instantiate_backend(be, subseq, longseq)
     subseq = to_time_series(subseq, remove_nans=True, be=be)
     longseq = to_time_series(longseq, remove_nans=True, be=be)
+
+    if subseq.shape[0] == 0 or longseq.shape[0] == 0:
+        raise ValueError(
+            "One of the input time series contains only nans or has zero length."
+        )
+
+    if subseq.shape[1] != longseq.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     if be.is_numpy:
         return _njit_subsequence_cost_matrix(subseq, longseq)
     return _subsequence_cost_matrix(subseq, longseq, be=be)
-- 
2.43.0


From 8dcf315769a2a2709128dc859e91e36aa6571e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 76/79] fix: soft-DTW barycenter of a dataset with an empty
 series read outside of its arrays

---
 tslearn/barycenters/softdtw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index bc4c522..deacbec 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -12,6 +12,7 @@ from scipy.spatial.distance import cdist
 from tslearn.backend import instantiate_backend
 from tslearn.metrics._soft_dtw import _njit_accumulated_matrix_from_distance_matrix, _njit_soft_dtw_grad
 from tslearn.metrics._masks import _njit_compute_mask, GLOBAL_CONSTRAINT_CODE
+from tslearn.metrics.utils import _check_no_empty_series
 from tslearn.preprocessing import TimeSeriesResampler
 from tslearn.utils import to_time_series_dataset
 from tslearn.utils.utils import _check_equal_size, _to_time_series
@@ -188,6 +189,7 @@ def softdtw_barycenter(
     """
     backend = instantiate_backend(X)
     X_ = to_time_series_dataset(X, be=backend)
+    _check_no_empty_series(backend, X_)
 
     weights = _set_weights(weights, X_.shape[0])
     if init is None:
-- 
2.43.0


From 520fd778350cb69db6eb0ee97f87a249ae50c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 77/79] fix: SquaredEuclidean of series far from the origin
 lost its digits to cancellation

---
 tslearn/metrics/softdtw_variants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/softdtw_variants.py b/tslearn/metrics/softdtw_variants.py
index bfb8496..e27d1da 100644
--- a/tslearn/metrics/softdtw_variants.py
+++ b/tslearn/metrics/softdtw_variants.py
@@ -798,7 +798,11 @@ class SquaredEuclidean:
         D: array-like, shape=(m, n)
             Distance matrix.
         """
-        return self.be.pairwise_euclidean_distances(self.X, self.Y) ** 2
+        # Distances do not depend on the origin, their rounding errors do
+        origin = self.be.mean(self.Y, axis=0)
+        return (
+            self.be.pairwise_euclidean_distances(self.X - origin, self.Y - origin) ** 2
+        )
 
     def jacobian_product(self, E):
         """Compute the product between the Jacobian
-- 
2.43.0


From 94e718d5b3d1f78a6c71ce3c173d82f7ef48bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 78/79] fix: early probabilities of series below min_t did not
 fit those of the classifiers when these had not seen every class

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index b299365..837cc92 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -755,7 +755,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
 
         pred = []
         time_prediction = []
-        default_pred = [np.nan] * self.__n_classes_ if predict_proba else np.nan
+        default_pred = [np.nan] * len(self.classes_) if predict_proba else np.nan
 
         for ts in X:
             ts = to_time_series(ts, remove_nans=True)
-- 
2.43.0


From 8a92e96084e2c50442a57481b28ad08e26533071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 79/79] fix: softdtw_barycenter with several workers summed
 their contributions in the order they happened to finish

---
 tslearn/barycenters/softdtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index deacbec..02b387a 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -40,7 +40,7 @@ def _acc_softdtw_func(
     use_parallel = n_jobs not in [None, 1]
 
     if use_parallel:
-        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator_unordered")(
+        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator")(
             delayed(_softdtw_func)(
                 Z,
                 X[i],
-- 
2.43.0

