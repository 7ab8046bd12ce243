From 99b3c354a3fd14d0b7d5764fb12d31cf0c1ed28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 01/29] fix: keep standard errors nonnegative when multiplying
 a framework by a negative scalar

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..d23cba5 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From e70e94327db1852ef96146018cbd7cc3466e7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 02/29] fix: use the cluster robust variance when adding or
 subtracting clustered frameworks

---
 doubleml/double_ml_framework.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d23cba5..82db33e 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -308,8 +308,11 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            if self._is_cluster_data:
+                all_ses = self._calc_cluster_ses(scaled_psi)
+            else:
+                sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
+                all_ses = np.sqrt(sigma2_hat)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +359,11 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            if self._is_cluster_data:
+                all_ses = self._calc_cluster_ses(scaled_psi)
+            else:
+                sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
+                all_ses = np.sqrt(sigma2_hat)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -440,6 +446,24 @@ class DoubleMLFramework:
     def __rmul__(self, other):
         return self.__mul__(other)
 
+    def _calc_cluster_ses(self, scaled_psi):
+        # cluster robust standard errors of shape (n_thetas, n_rep)
+        all_ses = np.full((self._n_thetas, self._n_rep), np.nan)
+        for i_rep in range(self._n_rep):
+            for i_theta in range(self._n_thetas):
+                psi = scaled_psi[:, i_theta, i_rep]
+                sigma2_hat, _ = _var_est(
+                    psi=psi,
+                    psi_deriv=np.ones_like(psi),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+                all_ses[i_theta, i_rep] = np.sqrt(sigma2_hat)
+        return all_ses
+
     def _calc_sensitivity_analysis(self, cf_y, cf_d, rho, level):
         if not self._sensitivity_implemented:
             raise NotImplementedError("Sensitivity analysis is not implemented for this model.")
-- 
2.43.0


From 5ff97974445019661ad4364f02558a1aabfa6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 03/29] fix: check the cluster partition of every repetition
 and fold, not only of the first

---
 doubleml/utils/_checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..49491d5 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,11 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for train_clusters, test_clusters in all_smpls_cluster[i_rep]:
+                cluster_partition = [train_clusters[i_cluster], test_clusters[i_cluster]]
+                is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From ac8fb6bce1553baa4bea66a2ce0507359eec436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 04/29] fix: derive the number of folds per cluster from a
 supplied cluster sample splitting

---
 doubleml/double_ml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..b595d70 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1294,6 +1294,9 @@ class DoubleML(ABC):
         self._smpls, self._smpls_cluster, self._n_rep, self._n_folds = _check_sample_splitting(
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
+        if self._is_cluster_data:
+            # n_folds is the number of folds of the cartesian product over all cluster variables
+            self._n_folds_per_cluster = int(round(self._n_folds ** (1.0 / self._dml_data.n_cluster_vars)))
 
         (
             self._psi,
-- 
2.43.0


From 978cc6fa921ea987b6b39ebe0e452ccdf4e5acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 05/29] fix: drop the stale inference framework when a new
 sample splitting is set

---
 doubleml/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index b595d70..4e3a605 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1309,6 +1309,8 @@ class DoubleML(ABC):
             self._all_se,
         ) = self._initialize_arrays()
         self._initialize_ml_nuisance_params()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
-- 
2.43.0


From 35a34a0f926a102e8cc0911f7aa9064afc7e88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 06/29] fix: separate tuning results per repetition and
 treatment when tuning on folds

---
 doubleml/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 4e3a605..3fe4b72 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -807,7 +807,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self._dml_data.n_treat for _ in range(self.n_rep)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
-- 
2.43.0


From b45827034e7b672eef8ebb6f2addbcae3340bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 07/29] fix: do not keep predictions and models of a previous
 fit

---
 doubleml/double_ml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 3fe4b72..f09500c 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1003,9 +1003,14 @@ class DoubleML(ABC):
 
         if store_predictions:
             self._initialize_predictions_and_targets()
+        else:
+            # do not keep predictions of a previous fit
+            self._predictions, self._nuisance_targets = None, None
 
         if store_models:
             self._initialize_models()
+        else:
+            self._models = None
 
         if self._sensitivity_implemented:
             self._sensitivity_elements = self._initialize_sensitivity_elements(
-- 
2.43.0


From 2146352361a7f7c297119864a029f0a9e137b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 08/29] fix: align the contour values of the sensitivity plot
 with its axes

---
 doubleml/double_ml_framework.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 82db33e..a782abc 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -900,7 +900,7 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
-- 
2.43.0


From 45488571eb70a0035dd30fdffabbbd38682a237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 09/29] fix: use the null hypothesis passed to the sensitivity
 plot

---
 doubleml/double_ml_framework.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index a782abc..611d7a1 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -881,7 +881,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
-- 
2.43.0


From f74af81a62b81b28437f182eb00cced57d67d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 10/29] fix: evaluate the sensitivity plot at its own arguments
 rather than those of the last analysis

---
 doubleml/double_ml_framework.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 611d7a1..65a4a49 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -906,7 +906,7 @@ class DoubleMLFramework:
             unadjusted_value = unadjusted_theta
         else:
             assert value == "ci"
-            ci = self.confint(level=self.sensitivity_params["input"]["level"])
+            ci = self.confint(level=level)
             if bound == "upper":
                 unadjusted_value = ci.iloc[idx_treatment, 1]
             else:
@@ -921,19 +921,24 @@ class DoubleMLFramework:
                 sens_dict_bench = self._calc_sensitivity_analysis(
                     cf_y=benchmarks["cf_y"][benchmark_idx],
                     cf_d=benchmarks["cf_d"][benchmark_idx],
-                    rho=self.sensitivity_params["input"]["rho"],
-                    level=self.sensitivity_params["input"]["level"],
+                    rho=rho,
+                    level=level,
                 )
                 benchmark_values[benchmark_idx] = sens_dict_bench[value][bound][idx_treatment]
             benchmark_dict["value"] = benchmark_values
+        scenario_x, scenario_y, scenario_value = None, None, None
+        if include_scenario:
+            scenario_x = self.sensitivity_params["input"]["cf_d"]
+            scenario_y = self.sensitivity_params["input"]["cf_y"]
+            scenario_value = self.sensitivity_params[value][bound][idx_treatment]
         fig = _sensitivity_contour_plot(
             x=cf_d_vec,
             y=cf_y_vec,
             contour_values=contour_values,
             unadjusted_value=unadjusted_value,
-            scenario_x=self.sensitivity_params["input"]["cf_d"],
-            scenario_y=self.sensitivity_params["input"]["cf_y"],
-            scenario_value=self.sensitivity_params[value][bound][idx_treatment],
+            scenario_x=scenario_x,
+            scenario_y=scenario_y,
+            scenario_value=scenario_value,
             include_scenario=include_scenario,
             benchmarks=benchmark_dict,
             fill=fill,
-- 
2.43.0


From 2592f06851cb76ad2c970b39a8d21fa70896c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 11/29] fix: pass a newly drawn sample splitting on to the
 models of all treatment levels

---
 doubleml/irm/apos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..760ee7c 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -640,6 +640,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From 263a6c7e41411f14f9ef9f6e917e8d926304c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 12/29] fix: accept external predictions for a subset of the
 treatment levels

---
 doubleml/irm/apos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 760ee7c..56f3e1e 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -862,7 +862,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions:
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
-- 
2.43.0


From fa002ef79571b9dc802ff84c500a83183ff74788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 13/29] fix: drop the stale framework of multi-model estimators
 when a new sample splitting is set

---
 doubleml/irm/apos.py | 2 ++
 doubleml/irm/qte.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 56f3e1e..fc2625c 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -700,6 +700,8 @@ class DoubleMLAPOS:
         )
 
         self._modellist = self._initialize_models()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..953334a 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -526,6 +526,8 @@ class DoubleMLQTE:
 
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
-- 
2.43.0


From 232ecf08f4f245f5f5a76d162fbe879b59ed39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 14/29] fix: external predictions for a subset of the
 treatments raised KeyError

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..e936c11 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -331,7 +331,7 @@ def _cond_targets(target, cond_sample):
 def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     ext_prediction_dict = {}
     for learner in learners:
-        if external_predictions is None:
+        if external_predictions is None or treatment not in external_predictions:
             ext_prediction_dict[learner] = None
         elif learner in external_predictions[treatment].keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
-- 
2.43.0


From 4959913fa2b1d206b2f1b809e85cc79172b169e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 15/29] fix: supplied propensities of quantile models were read
 at fold-local instead of sample indices

---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..25e1478 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -324,7 +324,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From 3b4e52b824680de4eca41fac8465032f25c9dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 16/29] fix: partially supplied predictions of local quantile
 models were silently ignored

---
 doubleml/irm/lpq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..b584c76 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -286,6 +286,8 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         g_du_z0 = external_predictions["ml_g_du_z0"] is not None
         g_du_z1 = external_predictions["ml_g_du_z1"] is not None
         ext_preds = [m_z, m_d_d0, m_d_d1, g_du_z0, g_du_z1]
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
 
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
@@ -330,8 +332,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
-- 
2.43.0


From b08d87a88d8d257295a1fc2355f84181ea14ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 17/29] fix: storing models failed for quantile models with
 external predictions

---
 doubleml/irm/lpq.py | 2 +-
 doubleml/irm/pq.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index b584c76..3060d91 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -493,7 +493,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 25e1478..7dcb58a 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -366,8 +366,8 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            g_hat["models"] = fitted_models.get("ml_g")
+            m_hat["models"] = fitted_models.get("ml_m")
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From 94dec8465391dd18efb970f149e48a4c6563a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 18/29] fix: losses of the outcome regressions of sample
 selection models included observations of the other arm and unselected ones

---
 doubleml/irm/ssm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..1465b8e 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -374,6 +380,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
         dtreat = d == 1
         dcontrol = d == 0
 
+        # only the selected observations of the corresponding treatment group are relevant for the outcome regressions
+        g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=(dtreat & (s == 1)))
+        g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=(dcontrol & (s == 1)))
+
         psi_a, psi_b = self._score_elements(
             dtreat, dcontrol, g_hat_d1["preds"], g_hat_d0["preds"], pi_hat["preds"], m_hat["preds"], s, y
         )
-- 
2.43.0


From f9b6e8e25edd6982da5855277f31a8130fc8b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 19/29] fix: nonignorable sample selection used predicted
 labels instead of probabilities of outcome classifiers

---
 doubleml/irm/ssm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 1465b8e..2fa8f58 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -308,6 +308,14 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[nuisance]) for i_fold in range(self.n_folds)]
 
+            # probabilities (not labels) if the outcome is modelled by a classifier
+            if self._predict_method["ml_g"] == "predict_proba":
+                predict_g = _predict_zero_one_propensity
+            else:
+
+                def predict_g(learner, X):
+                    return learner.predict(X)
+
             # create strata for splitting
             strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.s.reshape(-1, 1)
 
@@ -354,7 +362,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                g_hat_d1["preds"][test_inds] = predict_g(fitted_models["ml_g_d1"][i_fold], xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -365,7 +373,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                g_hat_d0["preds"][test_inds] = predict_g(fitted_models["ml_g_d0"][i_fold], xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 5ee71712387732097570fe2afa1e4f2a1ad5b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 20/29] fix: tuning of IV-type scores truncated predictions for
 integer outcome, treatment or instrument columns

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..176cf35 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -594,9 +594,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full(y.shape, np.nan)
+                m_hat = np.full(z.shape, np.nan)
+                r_hat = np.full(d.shape, np.nan)
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..bbe04a7 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full(y.shape, np.nan)
+            m_hat = np.full(d.shape, np.nan)
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From dded847c3c4ad679ce3729994ae970a4270d915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 21/29] fix: first stage predictions of RDFlex were truncated
 for integer outcome or treatment columns

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..3052be4 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,7 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left, mu_right = np.full(outcome.shape, fill_value=np.nan), np.full(outcome.shape, fill_value=np.nan)
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From 992fe15c8a9b5ffac8a841afc8a1757b48eeb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 22/29] fix: policy trees failed for signals that are exactly
 zero

---
 doubleml/utils/policytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..59b8415 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -98,7 +98,7 @@ class DoubleMLPolicyTree:
         -------
         self : object
         """
-        bin_signal = (np.sign(self._orth_signal) + 1) / 2
+        bin_signal = (self._orth_signal > 0).astype(float)
         abs_signal = np.abs(self._orth_signal)
 
         # fit the tree with target binary score, sample weights absolute score and
-- 
2.43.0


From 7b14a8564962a8b557aa15356f102c8e0ff885b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 23/29] fix: integer dummy columns for group effects were
 refused

---
 doubleml/irm/apo.py | 2 +-
 doubleml/irm/irm.py | 2 +-
 doubleml/plm/plr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..ebdf4af 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,7 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..12fdcf1 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,7 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index bbe04a7..598673f 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,7 +418,7 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From fd2e9b650922995ff53e00798081b813fda4e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 24/29] fix: riesz representer of the observational DiD score
 for repeated cross sections lacked the signs of the comparison cells

---
 doubleml/did/did_cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..0fe3bcd 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -496,8 +496,8 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 m_alpha_1 = np.divide(1.0, lambda_hat) + np.divide(1.0, 1.0 - lambda_hat)
                 m_alpha = np.multiply(np.divide(d, np.square(p_hat)), np.multiply(m_alpha_1, 1.0 + propensity_weight_d0))
 
-                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) + np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
-                rr_2 = d + np.multiply(1.0 - d, propensity_weight_d0)
+                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) - np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
+                rr_2 = d - np.multiply(1.0 - d, propensity_weight_d0)
                 rr = np.multiply(rr_1, rr_2)
         else:
             assert self.score == "experimental"
-- 
2.43.0


From c6c0545082649999b457b51bb97427161f735190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 25/29] fix: binary indicators of the data container were not
 updated when roles changed

---
 doubleml/double_ml_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..d9e0813 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -468,6 +468,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -491,6 +492,7 @@ class DoubleMLData(DoubleMLBaseData):
         if reset_value:
             self._check_disjoint_sets()
             self._set_y_z_t_s()
+            self._binary_outcome = self._check_binary_outcome()
 
     @property
     def z_cols(self):
-- 
2.43.0


From 673e24c02fb157cc5cc945c881682aed642fdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 26/29] fix: final bandwidth of RDFlex was not reported after a
 single iteration

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 3052be4..5373ef2 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -460,7 +460,7 @@ class RDFlex:
         return rdd_res
 
     def _set_coefs(self, rdd_res, h):
-        self._h[self._i_rep] = h
+        self._h[self._i_rep] = rdd_res.bws.loc["h"].max() if h is None else h
         self._all_coef[:, self._i_rep] = rdd_res.coef.values.flatten()
         self._all_se[:, self._i_rep] = rdd_res.se.values.flatten()
         self._all_ci[:, :, self._i_rep] = rdd_res.ci.values
-- 
2.43.0


From a74ad6812d6445f0fb2c660981b418df1c166475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 27/29] fix: drop the stale inference framework when a sample
 splitting is drawn again

---
 doubleml/double_ml.py | 2 ++
 doubleml/irm/apos.py  | 2 ++
 doubleml/irm/qte.py   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index f09500c..a6f0d83 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1233,6 +1233,8 @@ class DoubleML(ABC):
                 n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._strata
             )
             self._smpls = obj_dml_resampling.split_samples()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index fc2625c..47ebb4c 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -642,6 +642,8 @@ class DoubleMLAPOS:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist = self._initialize_models()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 953334a..0255cb5 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -459,6 +459,8 @@ class DoubleMLQTE:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # results of a previous fit refer to the previous sample splitting
+        self._framework = None
 
         return self
 
-- 
2.43.0


From 0c13e6143dbdfb14d27ddbd1e61191717920685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 28/29] fix: sample selection models accepted non-binary
 treatments, data without a binary selection variable and callable scores

---
 doubleml/irm/ssm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 2fa8f58..bff8665 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -131,6 +131,8 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
 
         self._check_data(self._dml_data)
         _check_score(self.score, ["missing-at-random", "nonignorable"])
+        if callable(self.score):
+            raise NotImplementedError("Callable score not implemented for DoubleMLSSM.")
 
         # for both score function stratification by d and s is viable
         self._strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.s.reshape(-1, 1)
@@ -193,6 +195,19 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
             raise TypeError(
                 f"The data must be of DoubleMLData type. {str(obj_dml_data)} of type {str(type(obj_dml_data))} was passed."
             )
+        if not obj_dml_data.binary_treats.all():
+            raise ValueError(
+                "Incompatible data. "
+                "To fit an SSM model with DML "
+                "treatment variables need to be binary with values 0 and 1."
+            )
+        if obj_dml_data.s_col is None or not np.all((np.power(obj_dml_data.s, 2) - obj_dml_data.s) == 0):
+            raise ValueError(
+                "Incompatible data. "
+                "To fit an SSM model with DML "
+                "exactly one binary variable with values 0 and 1 "
+                "needs to be specified as selection variable."
+            )
         if obj_dml_data.z_cols is not None and self._score == "missing-at-random":
             warnings.warn(
                 " and ".join(obj_dml_data.z_cols) + " have been set as instrumental variable(s). "
-- 
2.43.0


From d4bdb42696f75cf4737568d9b96d8a9d3b9dc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 29/29] fix: fallback for nonlinear scores ignored the
 aggregation of the score for clustered data

---
 doubleml/double_ml_score_mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_score_mixins.py b/doubleml/double_ml_score_mixins.py
index 57dd6e6..44ee31b 100644
--- a/doubleml/double_ml_score_mixins.py
+++ b/doubleml/double_ml_score_mixins.py
@@ -164,7 +164,7 @@ class NonLinearScoreMixin:
             else:
                 # try to find an alternative start value
                 def score_squared(theta):
-                    res = np.power(np.mean(self._compute_score(psi_elements, theta)), 2)
+                    res = np.power(score(theta), 2)
                     return res
 
                 # def score_squared_deriv(theta, inds):
@@ -195,7 +195,7 @@ class NonLinearScoreMixin:
                     else:
 
                         def neg_score(theta):
-                            res = -np.mean(self._compute_score(psi_elements, theta))
+                            res = -score(theta)
                             return res
 
                         theta_hat_array, neg_score_val, _ = fmin_l_bfgs_b(
-- 
2.43.0

