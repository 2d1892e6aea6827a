From 891c2e4947011553474b0d9bdaf7dcc1276d38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 01/23] fix: rank_histogram with NaN skipping used the removed
 alias np.float

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From 1382b208d4910254c901fcb7962464d37957491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 02/23] fix: parallel truncated gamma CDF ignored the threshold

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 3f102225ea433eadf5a3b7a7119bd2fe8b8b8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 03/23] fix: tied ranks were not randomised when every case had
 ties

---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..e94af77 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From 63c6d14d4873e42c58a2b04fb7047669472e915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 04/23] fix: spread and ranks of sampled members ignored where
 the member axis was placed

---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From a761e8816536a76c14ddedbea8fd7b4fbbe9535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 05/23] fix: set_ensemble_axis and set_collapse_func left the
 collapsed forecast stale

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From a6b35257ff4a7d9987db07af2408a92ab1eee335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 06/23] fix: gamma CRPS overflowed to NaN for sharp forecasts

---
 PyAnEn/utils_crps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8ca676a 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,8 +23,8 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
+    log_prod_gamma_x = special.gammaln(x1) + special.gammaln(x2)
+    log_gamma_sum_x = special.gammaln(x1 + x2)
     return log_prod_gamma_x - log_gamma_sum_x
 
 
-- 
2.43.0


From 43652db69ae28c7dc8f883b251845aacef2ceeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 07/23] fix: binned spread-skill sorted the caller's arrays in
 place

---
 PyAnEn/utils_ss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..cbb6b55 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -64,8 +64,8 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     shape_to_keep = variance.shape[to_axis:]
     
     # Flatten the sample dimensions and the kept dimensions separately
-    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
-    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
+    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
+    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
     
     # Sort arrays based on variance 
     for i in range(variance.shape[1]):
-- 
2.43.0


From 8ef40b89201d6e6204b627ba0410512fe0e9f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 08/23] fix: negative averaging axes selected wrong axes or
 failed, and kept axes could be reordered

---
 PyAnEn/utils_special_boot.py | 4 ++--
 PyAnEn/utils_ss.py           | 2 +-
 PyAnEn/utils_verify.py       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..29996cc 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,10 +152,10 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [x + len(o.shape) if x < 0 else x for x in avg_axis]
     
     # Calculate the output shape indices
-    out_shape = list(set(range(len(o.shape))) - set(avg_axis))
+    out_shape = sorted(set(range(len(o.shape))) - set(avg_axis))
 
     o = o.transpose(out_shape + avg_axis)
     f = f.transpose(out_shape + avg_axis)
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index cbb6b55..b446912 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -55,7 +55,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([x + variance.ndim if x < 0 else x for x in sample_axis]):
         if from_axis != to_axis:
             variance = np.moveaxis(variance, from_axis, to_axis)
             sq_error = np.moveaxis(sq_error, from_axis, to_axis)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e94af77..22470b4 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -261,7 +261,7 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([x + metric.ndim if x < 0 else x for x in sample_axis]):
         if from_axis != to_axis:
             metric = np.moveaxis(metric, from_axis, to_axis)
         to_axis += 1
@@ -304,7 +304,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([x + f_prob.ndim if x < 0 else x for x in sample_axis]):
         if from_axis != to_axis:
             f_prob = np.moveaxis(f_prob, from_axis, to_axis)
             o_binary = np.moveaxis(o_binary, from_axis, to_axis)
-- 
2.43.0


From b28dc64e9282fa3630c8ae0e114ccdc1d15903f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 09/23] fix: saved results that depend on the averaging axes
 were reused for other axes

---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..2030a01 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -59,16 +59,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -78,8 +78,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, avg_axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, avg_axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From 0996f50c7e63f06eec3fc7fe62b06b38fa12efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 10/23] fix: a failing integration left settings changed and
 its scratch file behind

---
 PyAnEn/utils_approximation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..6728d5d 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -224,10 +224,14 @@ class Integration:
     def _workflow(self, func):
         
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            try:
+                ret = func()
+            finally:
+                self._finalize_memmap()
+        finally:
+            self._resume_sublevel_tqdm()
         
         return ret
     
@@ -259,8 +263,8 @@ class Integration:
         
         # Backup environment variables
         self.tqdm_backup = {
-            'pyanen_tqdm_disable': util.strtobool(os.environ['pyanen_tqdm_disable']),
-            'pyanen_tqdm_workers': int(os.environ['pyanen_tqdm_workers'])
+            'pyanen_tqdm_disable': os.environ['pyanen_tqdm_disable'],
+            'pyanen_tqdm_workers': os.environ['pyanen_tqdm_workers']
         }
         
         # Disable sublevel prograss bar to prevent an too many bars showing up
-- 
2.43.0


From bf7bf78de744e70d07d8e8e3a4ee5171f6bef06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 11/23] fix: bootstrap intervals of correlation, decomposition,
 reliability and spread-skill had the wrong confidence

---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 29996cc..9f1087c 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.nanquantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_res = np.quantile(resolution, [(1-confidence) / 2, (1+confidence) / 2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence) / 2, (1+confidence) / 2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence) / 2, (1+confidence) / 2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index b446912..8985368 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -159,8 +159,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence) / 2, (1+confidence) / 2])
+            mse_ci = np.quantile(mses, [(1-confidence) / 2, (1+confidence) / 2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 22470b4..bec2f34 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -410,10 +410,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence) / 2, (1+confidence) / 2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence) / 2, (1+confidence) / 2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From 11240bb9b2b0266542a48e903f5bc27be80bf39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 12/23] fix: reliability index compared with 1\/k instead of
 the flat histogram

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 2030a01..2009240 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -94,7 +94,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From 969ae1af7e99ad63c05e0a060af6f5ec49d95641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 13/23] fix: a crash while saving left a truncated entry that
 later runs tried to load

---
 PyAnEn/Verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 2009240..88a1b72 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -230,8 +230,10 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
+            part = '{}.{}.part'.format(path, os.getpid())
+            with open(part, 'wb') as f:
                 pickle.dump(arr, f)
+            os.replace(part, path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 1f3cb61242383394096a61d0f8a182fe0ab57aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:31 +0000
Subject: [PATCH 14/23] fix: an integration failing while its scratch file was
 set up left the file behind

---
 PyAnEn/utils_approximation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 6728d5d..981e5a2 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -226,12 +226,12 @@ class Integration:
         self._suppress_sublevel_tqdm()
         try:
             self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            ret = func()
+        finally:
             try:
-                ret = func()
-            finally:
                 self._finalize_memmap()
-        finally:
-            self._resume_sublevel_tqdm()
+            finally:
+                self._resume_sublevel_tqdm()
         
         return ret
     
@@ -252,9 +252,10 @@ class Integration:
     
     def _finalize_memmap(self):
         if self.less_memory:
-            del self.memmap_arr_r
+            self.memmap_arr_r = None
             
-            os.remove(self.memmap_arr_str)
+            if os.path.exists(self.memmap_arr_str):
+                os.remove(self.memmap_arr_str)
             
             self.memmap_arr_str = None
             self.memmap_shape = None
-- 
2.43.0


From d3cd8d27a0e397340f3a8238fc09d395db2fd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 15/23] fix: thresholds given as short arrays shared a saved
 entry when they differed beyond eight digits

---
 PyAnEn/Verify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 88a1b72..9066227 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -155,6 +155,9 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+            # Array elements are written in full, because printing an array rounds them
+            if isinstance(v, np.ndarray): v = v.tolist()
+                
             strs[k] = str(v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
-- 
2.43.0


From 0f2af206b2cf0f0aeb330a313d7d1fe7e0c366aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:05 +0000
Subject: [PATCH 16/23] fix: truncated gamma CDF fell to zero above the upper
 end of its support

---
 PyAnEn/dist_truncgamma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..b6bc2bf 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -34,6 +34,9 @@ class truncgamma_gen(rv_continuous):
         self.s = s
         return (self.a >= 0.0) & (self.b > self.a)
     
+    def _get_support(self, a, b, s):
+        return a, b
+    
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
 
-- 
2.43.0


From d9a02d9b2eaa3a7aee83df22fc5b14f73a84f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:46 +0000
Subject: [PATCH 17/23] fix: gamma hurdle CDF below zero was 1-pop instead of
 zero

---
 PyAnEn/utils_dist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..7f3be0a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -58,6 +58,7 @@ def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
+    prob[x[3] < 0.] = 0.
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
-- 
2.43.0


From a6af859fb3c0881642a9def885b9dcc354e08405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 18/23] fix: truncated distributions have no upper bound (10000
 in standard units cut off sharp forecasts)

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 7f3be0a..0607a4f 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -24,7 +24,7 @@ from functools import partial
 from .dist_truncgamma import truncgamma_gen
 from tqdm.contrib.concurrent import process_map
 
-_LARGE_NUMBER_ = 10000
+_LARGE_NUMBER_ = np.inf
 
 
 def _parallel_process(wrapper, iterable, total, name=''):
-- 
2.43.0


From a7acc0a085270e4ac417d7c77ee238004be801ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 19/23] fix: truncated gamma forecasts with a positive shift
 are valid (truncation starts no earlier than the support)

---
 PyAnEn/utils_dist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 0607a4f..24bd40c 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -50,9 +50,9 @@ def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=np.maximum(-x[2]/x[1], 0), b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=np.maximum(-x[2]/x[1], 0), b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
@@ -135,7 +135,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     
     if cores == 1:
         if truncated:
-            ens = truncgamma_gen()(a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
+            ens = truncgamma_gen()(a=np.maximum(-shift/scale, 0), b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         else:
             ens = stats.gamma(a=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         
@@ -222,7 +222,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     if cores == 1:
         if truncated:
-            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
+            probs = truncgamma_gen().cdf(x=below, a=np.maximum(-shift/scale, 0), b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
         else:
             probs = stats.gamma.cdf(x=below, a=shape, loc=shift, scale=scale)
             
-- 
2.43.0


From 26b212f751f2af0cd03927f470461db47f27f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 20/23] fix: open_mfdataset could not read station locations
 from the root group (concat_dim is rejected with combine='by_coords')

---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..e9c9b67 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,7 +145,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
 
-- 
2.43.0


From 078180b1a1457a3d604de28f1d9c5dce3aac134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 21/23] fix: gamma hurdle verifier accepted parameters of a
 shape different from the observations

---
 PyAnEn/VerifyProbGammaHurdle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..ca4e136 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -58,6 +58,14 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
+        
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in ['pop', 'mu', 'sigma']:
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert isinstance(self.n_approx_bins, int)
         
         if self.integration_range is not None:
-- 
2.43.0


From 6adc068e298110d92c77ee0cbb168e39ddee4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 22/23] fix: keep the log beta function in the gamma CRPS
 accurate for sharp forecasts

The difference of large log-gamma values lost all digits for shape parameters
above about 1e16 (standard deviation below 1e-8 of the mean), giving CRPS
values of the order of -1e7 standard deviations.
---
 PyAnEn/utils_crps.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 8ca676a..8887d42 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,9 +23,7 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = special.gammaln(x1) + special.gammaln(x2)
-    log_gamma_sum_x = special.gammaln(x1 + x2)
-    return log_prod_gamma_x - log_gamma_sum_x
+    return special.betaln(x1, x2)
 
 
 def crps_gamma(mu, sigma, shift, obs, reduce_sum=True):
-- 
2.43.0


From af9a8c2456191d2e68a4ffc51cdb02588cc0fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 23/23] fix: CRPS of a truncated Gaussian when little
 probability lies above zero

1 - cdf(l) loses all digits (and becomes zero) for means more than about five
standard deviations below the truncation point, so the score was wrong and then
NaN. The same formula with the logarithms of the upper tails stays finite.
---
 PyAnEn/utils_crps.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 8887d42..e522d87 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -96,22 +96,16 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     z[mask] = l[mask]
     
     dist = stats.norm()
-    f_z = dist.pdf(z)
-    F_z = dist.cdf(z)
-    F_l = dist.cdf(l)
-    F_u = 1
     
-    F_usqrt2 = 1
-    F_lsqrt2 = dist.cdf(l * np.sqrt(2))
-    
-    # Calculate intermediate terms
-    frac1 = 1 / (F_u - F_l)
+    # Upper tails in logarithms so that their ratios are finite however small they are
+    lsf_l = dist.logsf(l)
+    sf_ratio = np.exp(dist.logsf(z) - lsf_l)
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (2 * F_z - F_u - F_l)
-    term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * (F_usqrt2 - F_lsqrt2)
+    term2 = z * (1 - 2 * sf_ratio)
+    term3 = 2 * np.exp(dist.logpdf(z) - lsf_l)
+    term4 = np.exp(dist.logsf(l * np.sqrt(2)) - 2 * lsf_l) / np.sqrt(np.pi)
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0

