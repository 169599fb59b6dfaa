From 47b395b520fe976a21b82f21bab1ceddb9a44a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 001/110] fix: covariance based metric tensors of 1-dimensional
 data

---
 smote_variants/base/_metrictensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..d1c8642 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -609,9 +609,10 @@ class MetricTensor:
                 X_mod, y_mod, self.metric_learning_method, random_state=5
             )
         elif self.metric_learning_method == "cov":
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
+            cov = np.atleast_2d(np.cov(X.T))
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "cov_min":
-            cov = np.cov(X[y == 1].T)
+            cov = np.atleast_2d(np.cov(X[y == 1].T))
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
-- 
2.43.0


From 8133fe450a6d3b628cf887d197ad41f10ad129b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 002/110] fix: ADG with class labels other than 0/1 and with
 clusterings of non-finite score

---
 smote_variants/oversampling/_adg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..41e10d4 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -98,7 +98,7 @@ def xmeans(X, rng=(1, 10), random_state=None):
             kmeans = KMeans(n_clusters=n_clusters, random_state=random_state, n_init='auto').fit(X)
 
         bic = bic_score(kmeans, X)
-        if bic < best_bic:
+        if best_clustering is None or bic < best_bic:
             best_bic = bic
             best_clustering = kmeans
 
@@ -688,7 +688,13 @@ class ADG(OverSampling):
         # M_plus is not updated as it is not used
         # the partial_results dict acts like a dataclass to reduce the clutter
         # of passing around dozens of arrays
-        partial_results, X, y = evaluate_matrices(X, y, kernel=kernel_function)
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
 
         # The computing of N matrix is factored into two steps, computing
         # N_plus and N_minus this is used to improve efficiency
-- 
2.43.0


From e56112803464291231deaf80ad2d880e872fdc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 003/110] fix: E_SMOTE draws its initial mask from its own
 random state

---
 smote_variants/oversampling/_e_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..b5e5f0a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -209,7 +209,7 @@ class E_SMOTE(OverSampling):
 
         # creating initial mask
         mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
 
         # generating initial population
         population = [[0, mask.copy()] for _ in range(n_population)]
-- 
2.43.0


From 20f36ef02431105431e5db593a26e91b4c44bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 004/110] fix: E_SMOTE transforms data as the identity when the
 last sampling selected no features

---
 smote_variants/oversampling/_e_smote.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index b5e5f0a..4bb39e5 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -257,6 +257,20 @@ class E_SMOTE(OverSampling):
 
         return smote.sample(X[:, self.mask], y)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, forgets the feature mask of former calls.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.mask = None
+        return super().sample(X, y)
+
     def preprocessing_transform(self, X):
         """
         Transform new data by the learnt transformation
@@ -267,6 +281,8 @@ class E_SMOTE(OverSampling):
         Returns:
             np.array: transformed data
         """
+        if self.mask is None:
+            return X
         return X[:, self.mask]
 
     def get_params(self, deep=False):
-- 
2.43.0


From 0044e09dd1cf75f690f09c53e4743d5153c9a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 005/110] fix: ISOMAP_Hybrid transforms data as the identity
 when the last sampling fitted no isomap

---
 smote_variants/oversampling/_isomap_hybrid.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..dededab 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -112,6 +112,7 @@ class ISOMAP_Hybrid(OverSampling):
         self.isomap = Isomap(
             n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
         )
+        self.isomap_fitted = False
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -129,6 +130,20 @@ class ISOMAP_Hybrid(OverSampling):
         }
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, forgets the isomap of former calls.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.isomap_fitted = False
+        return super().sample(X, y)
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -145,6 +160,7 @@ class ISOMAP_Hybrid(OverSampling):
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+        self.isomap_fitted = True
 
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
@@ -180,6 +196,8 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not self.isomap_fitted:
+            return X
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From 95d3228c253e9fc60717e8816cba0a1cbe4d8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 006/110] fix: ISOMAP_Hybrid counts the remaining samples by
 the actual class labels

---
 smote_variants/oversampling/_isomap_hybrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index dededab..55c0e46 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -179,7 +179,10 @@ class ISOMAP_Hybrid(OverSampling):
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
         X_final, y_final = ncr.remove_noise(X_sm, y_sm)
 
-        if np.sum(y_final) <= 2 or np.sum(y_final == 0) <= 2:
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
             return self.return_copies(
                 X_sm, y_sm, "too many samples removed returning isomapped dataset"
             )
-- 
2.43.0


From 2a2ee2ede1e762178e1adfdcd412522ccd7586cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 007/110] fix: A_SUWO falls back to copies when all majority
 samples are removed as noise

---
 smote_variants/oversampling/_a_suwo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smote_variants/oversampling/_a_suwo.py b/smote_variants/oversampling/_a_suwo.py
index a8051f4..8464f44 100755
--- a/smote_variants/oversampling/_a_suwo.py
+++ b/smote_variants/oversampling/_a_suwo.py
@@ -515,6 +515,12 @@ class A_SUWO(OverSamplingSimplex):
             )
             return X_orig.copy(), y_orig.copy()
 
+        if len(X_maj) == 0:
+            _logger.info(
+                "%s: All majority samples removed as noise", self.__class__.__name__
+            )
+            return X_orig.copy(), y_orig.copy()
+
         maj_clusters, min_clusters = self.initialize_clusters(X_maj, X_min)
 
         # I think this can never happen
-- 
2.43.0


From a055dfd943d19d630762827a81e39fda6adfb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 008/110] fix: CURE_SMOTE does not merge when the removal left
 the requested number of clusters

---
 smote_variants/oversampling/_cure_smote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_cure_smote.py b/smote_variants/oversampling/_cure_smote.py
index 74b8522..34f6418 100755
--- a/smote_variants/oversampling/_cure_smote.py
+++ b/smote_variants/oversampling/_cure_smote.py
@@ -159,6 +159,9 @@ class CURE_SMOTE(OverSamplingSimplex):
                 distm = np.delete(distm, to_remove, axis=0)
                 distm = np.delete(distm, to_remove, axis=1)
 
+                if len(clusters) <= max(self.n_clusters, 1):
+                    break
+
             # finding the cluster pair with the smallest distance
             min_coord = np.where(distm == np.min(distm))
             merge_a = min_coord[0][0]
-- 
2.43.0


From 887c4af5f3354c58db1799e9deab1c12761d66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 009/110] fix: NEATER assigns the class labels of the dataset

---
 smote_variants/oversampling/_neater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..2c9d73a 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -395,7 +395,9 @@ class NEATER(OverSampling):
             )
 
         # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
 
         return X_all, y_all
 
-- 
2.43.0


From 4da7d2624ae9433d2ab46d11e5b4ee603f0a3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 010/110] fix: SMOTE_IPF counts votes for the actual minority
 label

---
 smote_variants/oversampling/_smote_ipf.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index ff092ec..06210f7 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -175,14 +175,20 @@ class SMOTE_IPF(OverSampling):
             predictions = []
             for train_index, _ in validator.split(X_samp, y_samp):
                 self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp))
+                predictions.append(
+                    self.classifier_obj.predict(X_samp) == self.min_label
+                )
 
             # do decision based on one of the voting schemes
             if self.params["voting"] == "majority":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
+                pred_votes = np.where(
+                    np.mean(predictions, axis=0) > 0.5, self.min_label, self.maj_label
+                )
                 to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
             elif self.params["voting"] == "consensus":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
+                pred_votes = np.where(
+                    np.mean(predictions, axis=0) > 0.5, self.min_label, self.maj_label
+                )
                 sum_votes = np.sum(predictions, axis=0)
                 to_remove = np.where(
                     np.logical_and(
-- 
2.43.0


From 6e68934c2c225cb36c4f0d65fb4605ac8d575181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 011/110] fix: MDO samples uniformly when no selected sample
 has minority neighbors

---
 smote_variants/oversampling/_mdo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_mdo.py b/smote_variants/oversampling/_mdo.py
index 482aa9b..a960204 100755
--- a/smote_variants/oversampling/_mdo.py
+++ b/smote_variants/oversampling/_mdo.py
@@ -6,6 +6,7 @@ import numpy as np
 
 from sklearn.decomposition import PCA
 
+from ..base import fix_density
 from ..base import NearestNeighborsWithMetricTensor
 from ..base import OverSampling
 from .._logger import logger
@@ -239,7 +240,7 @@ class MDO(OverSampling):
 
         # computing distribution
         weights = n_min[n_min >= K1] / K2
-        weights = weights / np.sum(weights)
+        weights = fix_density(weights)
 
         samples = self.generate_samples(
             X_sel=X_sel, weights=weights, n_to_sample=n_to_sample
-- 
2.43.0


From f20274a0a61e0efeaa0574d1953d9e72a455ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 012/110] fix: CURE_SMOTE does not merge when only one cluster
 remains

---
 smote_variants/oversampling/_cure_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_cure_smote.py b/smote_variants/oversampling/_cure_smote.py
index 34f6418..fd98b03 100755
--- a/smote_variants/oversampling/_cure_smote.py
+++ b/smote_variants/oversampling/_cure_smote.py
@@ -159,7 +159,7 @@ class CURE_SMOTE(OverSamplingSimplex):
                 distm = np.delete(distm, to_remove, axis=0)
                 distm = np.delete(distm, to_remove, axis=1)
 
-                if len(clusters) <= max(self.n_clusters, 1):
+                if len(clusters) < 2:
                     break
 
             # finding the cluster pair with the smallest distance
-- 
2.43.0


From ab177aa945838c00b898d71d786c6456d8fa7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 013/110] fix: ADASYN respects proportion=0

---
 smote_variants/oversampling/_adasyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index 3314425..a431f18 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -91,7 +91,7 @@ class ADASYN(OverSamplingSimplex):
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = proportion or beta
+        self.beta = coalesce(proportion, beta)
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
-- 
2.43.0


From 073b8f04f0113b9fa57ef676b0cf97d39f899d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:33 +0000
Subject: [PATCH 014/110] fix: PDFOS returns copies when the density cannot be
 estimated or sampled

---
 smote_variants/oversampling/_pdfos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 44c1577..957ec7b 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -226,6 +226,8 @@ class PDFOSKDE(RandomStateMixin):
             obj: the fitted object
         """
         self.transformer.fit(X)
+        if self.transformer.n_dim == 0:
+            raise LinAlgError("the data has no variance")
         X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
 
         X_ml = self.transformer.transform(X_ml)
@@ -370,9 +372,9 @@ class PDFOS(OverSampling):
                 metric_learning=self.metric_learning,
                 random_state=self._random_state_init,
             ).fit(X_min, X_ml=X_scaled, y_ml=y)
+            samples = kde.sample(n_to_sample)
         except LinAlgError as exc:
             return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
-        samples = kde.sample(n_to_sample)
 
         return (
             np.vstack([X, scaler.inverse_transform(samples)]),
-- 
2.43.0


From f1c47553cf999de489f4d1525e5f962fabf9e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:33 +0000
Subject: [PATCH 015/110] fix: PDFOS identifies the minority class
 independently of its label

---
 smote_variants/oversampling/_pdfos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 957ec7b..1a56b80 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -371,7 +371,7 @@ class PDFOS(OverSampling):
             kde = PDFOSKDE(
                 metric_learning=self.metric_learning,
                 random_state=self._random_state_init,
-            ).fit(X_min, X_ml=X_scaled, y_ml=y)
+            ).fit(X_min, X_ml=X_scaled, y_ml=(y == self.min_label).astype(int))
             samples = kde.sample(n_to_sample)
         except LinAlgError as exc:
             return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
-- 
2.43.0


From 1d09257db146e40cbb68d0ea69d9d4dbed0a5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 016/110] fix: V_SYNTH tells apart classes and bounding box by
 the labels of the tessellated points

---
 smote_variants/oversampling/_v_synth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 3ad0169..7afb2f4 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -181,7 +181,7 @@ class V_SYNTH(OverSampling):
             sample_point_on_face = np.sum((face_vertices.T * weights).T, axis=0)
 
             # finding the ridge point with the minority label
-            if y_pca[voronoi.ridge_points[random_face][0]] == self.min_label:
+            if y_pca[voronoi.ridge_points[random_face][0]] == 1:
                 h_vec = voronoi.points[voronoi.ridge_points[random_face][0]]
             else:
                 h_vec = voronoi.points[voronoi.ridge_points[random_face][1]]
@@ -214,7 +214,9 @@ class V_SYNTH(OverSampling):
         while np.sum(component_mask) > 1:
             pca = PCA(n_components=n_components)
             X_pca = pca.fit_transform(X_bb)  # pylint: disable=invalid-name
-            y_pca = np.hstack([y, np.repeat(-1, len(bounding_box))])
+            y_pca = np.hstack(
+                [(y == self.min_label).astype(int), np.repeat(-1, len(bounding_box))]
+            )
 
             component_mask = pca.explained_variance_ratio_ > 1e-2
 
-- 
2.43.0


From 35820fccb802ebfd1dcf043c27a80f759e128280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 017/110] fix: G_SMOTE uses the negative exponent of the
 Gaussian kernel

---
 smote_variants/oversampling/_g_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 49b51e9..4ecb2c7 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -180,7 +180,7 @@ class G_SMOTE(OverSamplingSimplex):
 
             kernel_matrix = pairwise_distances(X_min) ** 2
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
-            kernel_matrix = np.exp(kernel_matrix)
+            kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
             H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
 
-- 
2.43.0


From 4cc9d290705bbac0a748914e8a51fdc186d3754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 018/110] fix: KernelADASYN returns copies when the covariance
 is not positive definite

---
 smote_variants/oversampling/_kerneladasyn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..34e8888 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -228,7 +228,10 @@ class KernelADASYN(OverSampling):
 
             return pca.inverse_transform(X_samp), y_samp
 
-        samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
+        try:
+            samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
+        except np.linalg.LinAlgError:
+            return self.return_copies(X, y, "covariance is not positive definite")
 
         return (
             np.vstack([X, samples]),
-- 
2.43.0


From 452dbcb280663fa4c428fe0fdb2c2b7bac84f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 019/110] fix: LLE_SMOTE limits the number of components by the
 number of minority samples

---
 smote_variants/oversampling/_lle_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_lle_smote.py b/smote_variants/oversampling/_lle_smote.py
index 0583eeb..5721646 100755
--- a/smote_variants/oversampling/_lle_smote.py
+++ b/smote_variants/oversampling/_lle_smote.py
@@ -212,7 +212,7 @@ class LLE_SMOTE(OverSamplingSimplex):
         # extracting minority samples
         X_min = X[y == self.min_label]
 
-        n_components = np.min([self.n_components, X.shape[1]])
+        n_components = np.min([self.n_components, X.shape[1], X_min.shape[0] - 1])
         n_neighbors = np.min([self.n_neighbors, X_min.shape[0] - 1])
 
         # do the locally linear embedding
-- 
2.43.0


From a036c374957079066e45e7dd7c70f1b5dd173746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 020/110] fix: SSO with coinciding cluster centers

---
 smote_variants/oversampling/_sso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index f084eda..80980d7 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -281,6 +281,7 @@ class SSO(OverSampling):
         nn_cent.fit(u)
         dist_cent, _ = nn_cent.kneighbors(u)
         v = dist_cent[:, 1]  # pylint: disable=invalid-name
+        v[v == 0.0] = np.finfo(float).eps
 
         # computing the response of the hidden units
         phi = pairwise_distances_mahalanobis(
-- 
2.43.0


From d8b979144e7c252b69b4bb5f9c0df1e227f925b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 021/110] fix: SSO regresses on the class membership instead of
 the raw label

---
 smote_variants/oversampling/_sso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index 80980d7..10aa861 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -292,7 +292,7 @@ class SSO(OverSampling):
 
         # applying linear regression to find the best weights
         linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, y)
+        linreg.fit(phi, (y == self.min_label).astype(float))
         f = linreg.predict(
             phi[np.where(y == self.min_label)[0]]
         )  # pylint: disable=invalid-name
-- 
2.43.0


From d94af97bb4d781eefb503e3b1bd1131ade37703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 022/110] fix: SMMO counts votes for the actual minority label

---
 smote_variants/oversampling/_smmo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index 1815db8..797dd48 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -190,7 +190,8 @@ class SMMO(OverSamplingSimplex):
                 predictions.append(ens.fit(X, y).predict(X))
 
         # constructing ensemble prediction
-        pred = np.where(np.mean(np.vstack(predictions), axis=0) > 0.5, 1, 0)
+        votes = np.vstack(predictions) == self.min_label
+        pred = np.where(np.mean(votes, axis=0) > 0.5, self.min_label, self.maj_label)
 
         # create mask of minority samples to sample
         mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
-- 
2.43.0


From a5173df5b72eadcd57ad7aab9e9ecd88020b498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 023/110] fix: ASMOBD never samples by negative densities

---
 smote_variants/oversampling/_asmobd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_asmobd.py b/smote_variants/oversampling/_asmobd.py
index 2802f4e..0fbf5af 100755
--- a/smote_variants/oversampling/_asmobd.py
+++ b/smote_variants/oversampling/_asmobd.py
@@ -395,7 +395,7 @@ class ASMOBD(OverSamplingSimplex):
             )
 
         density = np.delete(density, np.where(np.logical_not(not_noise))[0])
-        density = fix_density(density)
+        density = fix_density(np.clip(density, 0.0, None))
 
         # fitting nearest neighbors model to non-noise minority samples
         n_neighbors = np.min([len(X_min_not_noise), self.params["min_samples"] + 1])
-- 
2.43.0


From 5f912ce1312eb26017f2d27cb8e03319d74a49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 024/110] fix: mutual information weights are uniform when no
 feature carries information

---
 smote_variants/base/_metrictensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index d1c8642..765aefd 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -467,7 +467,8 @@ def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=No
     mutuali = np.mean(np.array(mutuali), axis=0)
 
     if normalize:
-        mutuali = mutuali / np.mean(mutuali)
+        mean = np.mean(mutuali)
+        mutuali = mutuali / mean if mean > 0 else np.ones_like(mutuali)
 
     return mutuali
 
-- 
2.43.0


From 78d4023e6b67340534109fd1fe163b7f489417a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 025/110] fix: pairwise distances terminate when a single row
 exceeds the memory limit

---
 smote_variants/base/_metrictensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 765aefd..2052718 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -60,7 +60,7 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     max_mem = distance_matrix_max_memory_chunk()
 
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
         row_block_size = int(
             np.floor(
                 X.shape[0]
-- 
2.43.0


From 4e169a27c447c1e6959939462006db53dbd55a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 026/110] fix: V_SYNTH selects faces by the labels of the
 tessellated points

---
 smote_variants/oversampling/_v_synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 7afb2f4..0534f50 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -265,7 +265,8 @@ class V_SYNTH(OverSampling):
         # generating an edge between two cells of different class labels
         candidate_face_generators = []
         for idx, ridge in enumerate(voronoi.ridge_points):
-            if ridge[0] < len(y) and ridge[1] < len(y) and y[ridge[0]] != y[ridge[1]]:
+            labels = y_pca[ridge]
+            if np.all(labels != -1) and labels[0] != labels[1]:
                 candidate_face_generators.append(idx)
 
         # seems like this never happens
-- 
2.43.0


From 8d051a1465bbfded7d08ad110c815957c42fe5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 027/110] fix: V_SYNTH returns copies when the tessellation is
 not feasible

---
 smote_variants/oversampling/_v_synth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 0534f50..bc23e8e 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -259,7 +259,10 @@ class V_SYNTH(OverSampling):
         )
 
         # doing the Voronoi tessellation
-        voronoi = sspatial.Voronoi(X_pca)
+        try:
+            voronoi = sspatial.Voronoi(X_pca)
+        except (sspatial.QhullError, ValueError) as exc:
+            return self.return_copies(X, y, f"Voronoi tessellation failed {exc}")
 
         # extracting those ridge point pairs which are candidates for
         # generating an edge between two cells of different class labels
-- 
2.43.0


From 74797667cc93e3732107a427a2ff9aab284634fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 028/110] fix: NT_SMOTE with fewer minority samples than the
 simplex dimension

---
 smote_variants/oversampling/_nt_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_nt_smote.py b/smote_variants/oversampling/_nt_smote.py
index d721a2d..891c48a 100755
--- a/smote_variants/oversampling/_nt_smote.py
+++ b/smote_variants/oversampling/_nt_smote.py
@@ -140,7 +140,7 @@ class NT_SMOTE(OverSamplingSimplex):
 
         # find two nearest minority samples
         nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.n_dim, n_jobs=self.n_jobs, **(nn_params)
+            n_neighbors=min([len(X_min), self.n_dim]), n_jobs=self.n_jobs, **(nn_params)
         )
         nnmt.fit(X_min)
         ind = nnmt.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From 48fd1fa0842c4dec73c50ee48e33cc336b6bda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 029/110] fix: RWO_sampling with fewer minority samples than
 the simplex dimension

---
 smote_variants/oversampling/_rwo_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_rwo_sampling.py b/smote_variants/oversampling/_rwo_sampling.py
index 2d9b0a6..29c24ba 100755
--- a/smote_variants/oversampling/_rwo_sampling.py
+++ b/smote_variants/oversampling/_rwo_sampling.py
@@ -113,7 +113,7 @@ class RWO_sampling(OverSamplingSimplex):
 
         # fitting nearest neighbors model to all samples
         nearestn = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.n_dim, n_jobs=self.n_jobs, **nn_params
+            n_neighbors=min([len(X_min), self.n_dim]), n_jobs=self.n_jobs, **nn_params
         )
         nearestn.fit(X_min)
         indices = nearestn.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From 4514b0bb46b0c9bc34a0352070a26e5f3c8e7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 030/110] fix: DSMOTE stops when no candidate improves the
 objective

---
 smote_variants/oversampling/_dsmote.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_dsmote.py b/smote_variants/oversampling/_dsmote.py
index 69593cc..a83b82c 100755
--- a/smote_variants/oversampling/_dsmote.py
+++ b/smote_variants/oversampling/_dsmote.py
@@ -328,6 +328,10 @@ class DSMOTE(OverSampling):
             best_candidate, partial_results = self.generate_one_sample(
                 X_min, mean_maj, var_maj, partial_results
             )
+            # no more candidates with positive score
+            if best_candidate is None:
+                break
+
             # add the best candidate to the minority samples
             X_min = np.vstack([X_min, best_candidate])
             n_added = n_added + 1
-- 
2.43.0


From d46aa2293f3738817606c3328d79ddb2ecb0647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 031/110] fix: A_SUWO cluster sizing on coinciding samples

---
 smote_variants/oversampling/_a_suwo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_a_suwo.py b/smote_variants/oversampling/_a_suwo.py
index 8464f44..166ba28 100755
--- a/smote_variants/oversampling/_a_suwo.py
+++ b/smote_variants/oversampling/_a_suwo.py
@@ -287,6 +287,10 @@ class A_SUWO(OverSamplingSimplex):
                             np.repeat(self.min_label, len(X_c[train])),
                         ]
                     )
+                    if np.all(X_train == X_train[0]):
+                        # the classes cannot be separated
+                        preds.append(np.repeat(self.maj_label, len(test)))
+                        continue
                     lda = LinearDiscriminantAnalysis()
                     lda.fit(X_train, y_train)
                     preds.append(lda.predict(X_c[test]))
-- 
2.43.0


From d40a89b14053279680342a72dfde23b39a475a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 032/110] fix: MOT2LD does not change its parameters while
 sampling and copies coinciding data

---
 smote_variants/oversampling/_mot2ld.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index c9ebd24..64e69a9 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -463,14 +463,16 @@ class MOT2LD(OverSamplingSimplex):
             "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
         )
 
-        if self.n_components > X.shape[1]:
-            self.n_components = min(self.n_components, X.shape[1])
+        if np.all(X == X[0]):
+            return self.return_copies(X, y, "all samples coincide")
+
+        n_components = min(self.n_components, X.shape[1])
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore")
             # do the stochastic embedding
             X_tsne = TSNE(  # pylint: disable=invalid-name
-                self.n_components,
+                n_components,
                 random_state=self._random_state_init,
                 perplexity=np.min([10, X.shape[0] - 1]),
                 n_iter_without_progress=100,
-- 
2.43.0


From 28e75984998ddc0d22af6b8f1b8ed221b088e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 033/110] fix: ISOMAP_Hybrid limits the number of isomap
 neighbors by the number of samples

---
 smote_variants/oversampling/_isomap_hybrid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 55c0e46..3ddd184 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -109,6 +109,8 @@ class ISOMAP_Hybrid(OverSampling):
         self.smote_n_neighbors = smote_n_neighbors
         self.n_jobs = n_jobs
 
+        self.n_neighbors = n_neighbors
+        self.n_components = n_components
         self.isomap = Isomap(
             n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
         )
@@ -159,6 +161,11 @@ class ISOMAP_Hybrid(OverSampling):
         with warnings.catch_warnings():
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
+            self.isomap = Isomap(
+                n_neighbors=min([self.n_neighbors, len(X) - 1]),
+                n_components=self.n_components,
+                n_jobs=self.n_jobs,
+            )
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
         self.isomap_fitted = True
 
@@ -210,10 +217,10 @@ class ISOMAP_Hybrid(OverSampling):
         """
         return {
             "proportion": self.proportion,
-            "n_neighbors": self.isomap.n_neighbors,
+            "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "ss_params": self.ss_params,
-            "n_components": self.isomap.n_components,
+            "n_components": self.n_components,
             "smote_n_neighbors": self.smote_n_neighbors,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
-- 
2.43.0


From 67b6030131ffa99cdd4382953550c6aaac97151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 034/110] fix: equalize_1_vs_many samples each class to the
 size of the largest class only

---
 .../multiclassoversampling/_multiclassoversampling.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..e20438f 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -28,7 +28,7 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
     return to_gen / to_gen_to_all
 
-- 
2.43.0


From b96e33a287f261e9418225ccedbab4ec3a8028fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 035/110] fix: multiclass proportions with tied classes and
 without loss by truncation

---
 .../_multiclassoversampling.py                | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index e20438f..c6855a5 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -14,6 +14,25 @@ _logger = logger
 __all__ = ["MulticlassOversampling"]
 
 
+def proportion_to_generate(num_to_generate, difference):
+    """
+    Determines the proportion leading to a certain number of samples. The tiny
+    excess prevents the loss of a sample due to truncation.
+
+    Args:
+        num_to_generate (int): the number of samples to generate
+        difference (int): the difference of class sizes the proportion is
+                            relative to
+
+    Returns:
+        float: the proportion
+    """
+    if num_to_generate == 0:
+        return 0.0
+
+    return (num_to_generate + 1e-6) / difference
+
+
 def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     """
     Determines the proportion to sample for the 1_vs_many strategy.
@@ -30,7 +49,7 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     to_gen = stats[maj_label] - stats[labels[class_idx]]
     to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
-    return to_gen / to_gen_to_all
+    return proportion_to_generate(to_gen, to_gen_to_all)
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +71,7 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return num_to_generate / num_to_gen_to_all
+    return proportion_to_generate(num_to_generate, num_to_gen_to_all)
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From 903533f85ed1582398fbf1ff2cac74da0259175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 036/110] fix: dump_dict leaves the dictionary of the caller
 unchanged

---
 smote_variants/base/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..064213d 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -245,6 +245,7 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
         serialization = filename.split(".")[-1]
 
     if serialization == "json":
+        obj = {**obj}
         for key in array_to_list_map:
             obj[key] = obj[key].astype(float).tolist()
         if os.path.exists(filename):
-- 
2.43.0


From 1a0e3b9af053636f5152c89a07727e3547442604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 037/110] fix: equal_dicts compares dictionaries with different
 keys or nesting

---
 smote_variants/base/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 064213d..a2ce86f 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -117,8 +117,10 @@ def equal_dicts(dict_0, dict_1):
         return False
 
     for key, val in dict_0.items():
+        if key not in dict_1:
+            return False
         if isinstance(val, dict):
-            if not equal_dicts(val, dict_1[key]):
+            if not isinstance(dict_1[key], dict) or not equal_dicts(val, dict_1[key]):
                 return False
         else:
             if val != dict_1[key]:
-- 
2.43.0


From 7b9cde4274bf3ca29304e2a9a75ada30256be89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 038/110] fix: truncated pickle and undecodable json cache
 files are recognized as damaged

---
 smote_variants/base/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index a2ce86f..8085c59 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -288,6 +288,8 @@ def check_if_damaged(filename, serialization="json"):
         damaged = True
     except JSONDecodeError:
         damaged = True
+    except (EOFError, pickle.UnpicklingError, UnicodeDecodeError):
+        damaged = True
 
     return damaged
 
-- 
2.43.0


From 8fb8e28318054729ef11e31bf7bfdb7e28e8c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 039/110] fix: the test fold is transformed after scaling, just
 like the training fold

---
 smote_variants/evaluation/_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..477aaf1 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -160,12 +160,12 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test_trans = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
                     "y_train": y_samp,
-                    "X_test": X_test,
+                    "X_test": X_test_trans,
                     "runtime": time.time() - begin_timestamp,
                     "error": None,
                     "warning": None,
-- 
2.43.0


From 0fbc0bc69d3ce924703961d5fee0492fc7066d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 040/110] fix: timed out sampling jobs record the same
 oversampler parameters

---
 smote_variants/evaluation/_sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 477aaf1..8837ab7 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -245,7 +245,9 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
-            "oversampler": oversampler_obj.get_params(),
+            "oversampler": coalesce_dict(
+                oversampler_obj.get_params(), self.oversampler_params
+            ),
         }
 
         oversampling = {
-- 
2.43.0


From d15c865d3915674343bd2f5a9b1785246c930ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 041/110] fix: folding statistics are determined independently
 of the label values

---
 smote_variants/evaluation/_folding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..78b3e13 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -53,9 +53,9 @@ class Folding:
         min_label = int(np.max(labels[counts == np.min(counts)]))
         maj_label = int(labels[labels != min_label][0])
 
-        n_min = int(counts[min_label])
-        n_maj = int(counts[maj_label])
-        imb_ratio = float(counts[maj_label] / counts[min_label])
+        n_min = int(counts[labels == min_label][0])
+        n_maj = int(counts[labels == maj_label][0])
+        imb_ratio = float(n_maj / n_min)
 
         self.properties = {
             "db_n": len(dataset["data"]),
-- 
2.43.0


From 11514292986e74302449d5f8251c3a99f4b1dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 042/110] fix: each fold has its own descriptor

---
 smote_variants/evaluation/_folding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 78b3e13..951e529 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -111,7 +111,7 @@ class Folding:
         data = self.dataset["data"]
         target = self.dataset["target"]
 
-        properties = self.properties
+        properties = {**self.properties}
         n_splits = self.validator_params["n_splits"]
         properties["n_repeats"] = self.validator_params["n_repeats"]
         properties["n_splits"] = n_splits
@@ -126,7 +126,7 @@ class Folding:
                 "y_train": target[train],
                 "X_test": data[test],
                 "y_test": target[test],
-                "fold_descriptor": properties,
+                "fold_descriptor": {**properties},
             }
 
             yield folding
-- 
2.43.0


From 94deff07a59b7d921c34ac6b9ee1ad7c6a8782df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:14 +0000
Subject: [PATCH 043/110] fix: Borderline danger set does not depend on label
 values in ties

---
 smote_variants/oversampling/_borderline_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 772049c..db94c04 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -47,7 +47,7 @@ def determine_danger_remove_noise(
     for idx, row in enumerate(indices):
         if (n_neighbors - 1) == sum(y[row[1:]] == maj_label):
             noise.append(idx)
-        elif mode(y[row[1:]]) == maj_label:
+        elif 2 * sum(y[row[1:]] == maj_label) >= n_neighbors - 1:
             danger.append(idx)
 
     X_danger = X_min[danger]  # pylint: disable=invalid-name
-- 
2.43.0


From b885d0a6b2c0cf59e87d58c082a3de1b503fda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:14 +0000
Subject: [PATCH 044/110] fix: SL_graph_SMOTE safe levels count minority
 neighbors for any labels

---
 smote_variants/oversampling/_sl_graph_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index ab6cda3..725f092 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -139,7 +139,7 @@ class SL_graph_SMOTE(OverSampling):
         indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
 
         # Computing safe level values
-        safe_level_values = np.sum(y[indices], axis=1)
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
 
         # Computing skewness
         with warnings.catch_warnings():
-- 
2.43.0


From 954c580a8ee04b4d7feabe782e7c43f3cb5862b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 045/110] fix: IPADE_ID returns the unscaled data when it gives
 up

---
 smote_variants/oversampling/_ipade_id.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_ipade_id.py b/smote_variants/oversampling/_ipade_id.py
index 8fc7b73..4626ef6 100755
--- a/smote_variants/oversampling/_ipade_id.py
+++ b/smote_variants/oversampling/_ipade_id.py
@@ -531,6 +531,7 @@ class IPADE_ID(OverSampling):
             (np.ndarray, np.array): the extended training set and target labels
         """
         mms = MinMaxScaler()
+        X_orig = X
         X = mms.fit_transform(X)
 
         min_indices = np.where(y == self.min_label)[0]
@@ -553,7 +554,7 @@ class IPADE_ID(OverSampling):
                 AUC=AUC,
             )
         except ValueError as value:
-            return self.return_copies(X, y, value.args[0])
+            return self.return_copies(X_orig, y, value.args[0])
 
         return mms.inverse_transform(GS.X), GS.y
 
-- 
2.43.0


From a468a0b79d081044c7e5bcfdd0dfc9b1c82874d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 046/110] fix: ISOMAP_Hybrid cleaning does not depend on label
 values

---
 smote_variants/oversampling/_isomap_hybrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 3ddd184..c01de06 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -184,7 +184,8 @@ class ISOMAP_Hybrid(OverSampling):
         ).sample(X_trans, y)
 
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
-        X_final, y_final = ncr.remove_noise(X_sm, y_sm)
+        X_final, y_final = ncr.remove_noise(X_sm, (y_sm == self.min_label) * 1)
+        y_final = np.where(y_final == 1, self.min_label, self.maj_label)
 
         if (
             np.sum(y_final == self.min_label) <= 2
-- 
2.43.0


From 52e3cdab47afede541f22cc200092d0651d00285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 047/110] fix: drop unused import left by the Borderline danger
 set repair

---
 smote_variants/oversampling/_borderline_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index db94c04..508201e 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -6,7 +6,7 @@ import numpy as np
 
 from ..base import NearestNeighborsWithMetricTensor
 from ..base import OverSamplingSimplex
-from ..base import mode, coalesce_dict, coalesce
+from ..base import coalesce_dict, coalesce
 
 from .._logger import logger
 
-- 
2.43.0


From 6fbf5a5607d40f9a88616e78e7f0f948e7a86cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 048/110] fix: SVM_balance leaves the global random generator
 alone

---
 smote_variants/oversampling/_svm_balance.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_svm_balance.py b/smote_variants/oversampling/_svm_balance.py
index 5cb0bda..65c9838 100755
--- a/smote_variants/oversampling/_svm_balance.py
+++ b/smote_variants/oversampling/_svm_balance.py
@@ -149,13 +149,23 @@ class SVM_balance(OverSampling):
         for C in C_params:  # pylint: disable=invalid-name
             _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
 
-            svc = SVC(C=C, kernel="rbf", gamma="auto")
+            svc = SVC(
+                C=C,
+                kernel="rbf",
+                gamma="auto",
+                random_state=self._random_state_init,
+            )
             score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
             if score > best_score:
                 best_score = score
                 best_C = C  # pylint: disable=invalid-name
 
-        svc = SVC(C=best_C, kernel="rbf", gamma="auto")
+        svc = SVC(
+            C=best_C,
+            kernel="rbf",
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
 
         svc.fit(X_norm, y)
 
-- 
2.43.0


From 2e9519ca63c93de78c9145f26b7c51179418d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 049/110] fix: SMOTE_AMSR returns copies when sampling is not
 needed

---
 smote_variants/oversampling/_smote_amsr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..31d5916 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -426,8 +426,7 @@ class SMOTE_AMSR(OverSampling):
             self.class_stats[self.min_label],
         )
         if n_to_sample == 0:
-            _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return self.return_copies(X, y, "Sampling is not needed")
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From be3e072fa9aaf7528f7d271773796402dde0e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 050/110] fix: SMOTEWB seeds its SMOTE fallback

---
 smote_variants/oversampling/_smotewb.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..04bc38c 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -263,7 +263,12 @@ class SMOTEWB(OverSampling):
 
         # all data points are noise
         if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_neighbors = min([len(X_not_noise), k_max + 1])
@@ -305,7 +310,12 @@ class SMOTEWB(OverSampling):
         # prevent errors (missing from the original) no good or lonely
         # samples => give chance to the others
         if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-- 
2.43.0


From 2f2479f04f67a27d2c8fb934ffaa934cdadc041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:04 +0000
Subject: [PATCH 051/110] fix: Stefanowski strong_amp votes per sample

---
 smote_variants/oversampling/_stefanowski.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_stefanowski.py b/smote_variants/oversampling/_stefanowski.py
index 75c06cf..8e77dfc 100755
--- a/smote_variants/oversampling/_stefanowski.py
+++ b/smote_variants/oversampling/_stefanowski.py
@@ -209,7 +209,7 @@ class Stefanowski(OverSampling):
         mask = ~safe_flag[minority_indices]
         minority_masked = minority_indices[mask]
         correct_mask = (
-            scipy_mode(y[indices5[minority_masked, 1:]]).mode[:, 0]
+            scipy_mode(y[indices5[minority_masked, 1:]], axis=1).mode[:, 0]
             == y[minority_masked]
         )  # pylint: disable=unexpected-keyword-arg
 
-- 
2.43.0


From 8fb3fe006b914f78b99e4f85997ecc63719afc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:04 +0000
Subject: [PATCH 052/110] fix: DSRBF trains its networks on 0/1 targets for any
 labels

---
 smote_variants/oversampling/_dsrbf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_dsrbf.py b/smote_variants/oversampling/_dsrbf.py
index 2e8e707..6ef91d7 100755
--- a/smote_variants/oversampling/_dsrbf.py
+++ b/smote_variants/oversampling/_dsrbf.py
@@ -722,9 +722,15 @@ class DSRBF(OverSampling):
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
 
-        p_best = self.execute_optimization(m_max, nn_params, X, y)
+        # the networks are trained to predict 0 (majority) and 1 (minority)
+        p_best = self.execute_optimization(
+            m_max, nn_params, X, (y == self.min_label) * 1
+        )
 
-        return scaler.inverse_transform(p_best[1]), p_best[2]
+        return (
+            scaler.inverse_transform(p_best[1]),
+            np.where(p_best[2] == 1, self.min_label, self.maj_label),
+        )
 
     def get_params(self, deep=False):
         """
-- 
2.43.0


From 4c3796ba4f02c377e72595b0e99db89c92ecf64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 053/110] fix: set_params re-seeds the sampler when a
 random_state is set

---
 smote_variants/base/_oversampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_oversampling.py b/smote_variants/base/_oversampling.py
index 6ca9120..b88121b 100755
--- a/smote_variants/base/_oversampling.py
+++ b/smote_variants/base/_oversampling.py
@@ -316,7 +316,10 @@ class OverSamplingBase(StatisticsMixin, ParametersMixin, MetricLearningMixin):
         """
 
         for key, value in params.items():
-            setattr(self, key, value)
+            if key == "random_state" and isinstance(self, RandomStateMixin):
+                self.set_random_state(value)
+            else:
+                setattr(self, key, value)
 
         return self
 
-- 
2.43.0


From 4a9b829a7fe5a97a8fa383eb82c7a16f758883fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 054/110] fix: SOI_CJ restores its gaussian component after
 sampling

---
 smote_variants/oversampling/_soi_cj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 7cccf90..fdbaa92 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -350,6 +350,7 @@ class SOI_CJ(OverSamplingSimplex):
             np.array: the generated samples
         """
 
+        gaussian_component = self.gaussian_component
         self.gaussian_component = {"sigmas": std}
 
         nnmt = NearestNeighborsWithMetricTensor(
@@ -362,6 +363,8 @@ class SOI_CJ(OverSamplingSimplex):
             X=X[cluster], indices=indices, n_to_sample=n_to_sample
         )
 
+        self.gaussian_component = gaussian_component
+
         # indices = self.random_state.choice(np.arange(len(cluster)),
         #                                        n_to_sample)
         # X_base = X[np.array(cluster)[indices]]
-- 
2.43.0


From 6b1c3fbe165156067550dc3214a4a3ce660892cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 055/110] fix: get_params reports the missing constructor
 parameters

---
 smote_variants/oversampling/_smotewb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index 04bc38c..0aa47cf 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -388,5 +388,6 @@ class SMOTEWB(OverSampling):
             "max_depth": self.max_depth,
             "nn_params": self.nn_params,
             "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self, deep),
         }
-- 
2.43.0


From d0b87df69a8ee16b98d910c599c67a981c0359fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 056/110] fix: get_params of DEAGO, SOMO, PDFOS, SPY and
 SYMPROD reports the missing constructor parameters

---
 smote_variants/oversampling/_deago.py   | 1 +
 smote_variants/oversampling/_pdfos.py   | 1 +
 smote_variants/oversampling/_somo.py    | 1 +
 smote_variants/oversampling/_spy.py     | 1 +
 smote_variants/oversampling/_symprod.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index a88272a..e669449 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -311,6 +311,7 @@ class DEAGO(OverSampling):
             "e": self.encoder_params["e"],
             "h": self.encoder_params["h"],
             "sigma": self.encoder_params["sigma"],
+            "nn_params": self.nn_params,
             "ss_params": self.ss_params,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 1a56b80..72a6253 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -388,6 +388,7 @@ class PDFOS(OverSampling):
         """
         return {
             "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index 900cb25..4d027ff 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -433,6 +433,7 @@ class SOMO(OverSamplingSimplex):
             "sigma": self.params["sigma"],
             "learning_rate": self.params["learning_rate"],
             "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
             "n_jobs": self.n_jobs,
             **OverSamplingSimplex.get_params(self),
         }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index f4fd83e..3b8d6c0 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -167,5 +167,6 @@ class SPY(OverSampling):
             "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index ae3616e..633894b 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -487,5 +487,6 @@ class SYMPROD(OverSampling):
             "m_neighbors": self.params["m_neighbors"],
             "cutoff_threshold": self.params["cutoff_threshold"],
             "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From f43a82d3c78d84e65da32663386c9a7d7b428f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 057/110] fix: SMOTE_AMSR parameters name the class and rebuild
 it

---
 smote_variants/oversampling/_smote_amsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 31d5916..138af2d 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -25,7 +25,9 @@ class SMOTE_AMSR(OverSampling):
     categories = [OverSampling.cat_extensive]
 
     # @_deprecate_positional_args
-    def __init__(self, proportion=1.0, *, topology="mesh", random_state=None):
+    def __init__(
+        self, proportion=1.0, *, topology="mesh", random_state=None, **_kwargs
+    ):
         """
         Constructor of the sampling object
 
@@ -444,5 +446,5 @@ class SMOTE_AMSR(OverSampling):
         return {
             "proportion": self.proportion,
             "topology": self.topology,
-            "random_state": self._random_state_init,
+            **OverSampling.get_params(self),
         }
-- 
2.43.0


From b99744d95553eaf17264b169fa6f1512251ec1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 058/110] fix: MLPClassifierWrapper reports and copies max_iter

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..9762b58 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -104,6 +104,7 @@ class MLPClassifierWrapper:
         """
         _ = deep
         return {
+            "max_iter": self.max_iter,
             "activation": self.activation,
             "hidden_layer_fraction": self.hidden_layer_fraction,
             "alpha": self.alpha,
-- 
2.43.0


From 65c7a82b2d25946ccd7ae9c76f0abad6fc956c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:12 +0000
Subject: [PATCH 059/110] fix: ADASYN and MSYN reject negative proportions

---
 smote_variants/oversampling/_adasyn.py | 2 ++
 smote_variants/oversampling/_msyn.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index a431f18..5d26825 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -87,6 +87,8 @@ class ADASYN(OverSamplingSimplex):
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_greater_or_equal(d_th, "d_th", 0)
         self.check_greater_or_equal(beta, "beta", 0)
+        if proportion is not None:
+            self.check_greater_or_equal(proportion, "proportion", 0)
         self.check_n_jobs(n_jobs, "n_jobs")
 
         self.n_neighbors = n_neighbors
diff --git a/smote_variants/oversampling/_msyn.py b/smote_variants/oversampling/_msyn.py
index 4594806..b95f4ec 100755
--- a/smote_variants/oversampling/_msyn.py
+++ b/smote_variants/oversampling/_msyn.py
@@ -102,6 +102,8 @@ class MSYN(OverSampling):
 
         super().__init__(random_state=random_state)
         self.check_greater_or_equal(pressure, "pressure", 0)
+        if proportion is not None:
+            self.check_greater_or_equal(proportion, "proportion", 0)
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_n_jobs(n_jobs, "n_jobs")
 
-- 
2.43.0


From 4741935cc5b6f2033f0881737ab6da30977d975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:25 +0000
Subject: [PATCH 060/110] fix: rounding of the Gram determinant must not make
 simplex volumes undefined

---
 smote_variants/base/_simplexsampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index fcb7c11..c7b65eb 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -106,7 +106,8 @@ def simplex_volume(simplex):
     simplex_mod = simplex[:-1] - simplex[-1]
     gram = np.dot(simplex_mod, simplex_mod.T)
     det = np.linalg.det(gram)
-    return np.sqrt(det) / math.factorial(simplex.shape[0] - 1)
+    # the determinant of degenerate simplices can be negative by rounding
+    return np.sqrt(max(det, 0.0)) / math.factorial(simplex.shape[0] - 1)
 
 
 def simplex_volumes(simplices):
-- 
2.43.0


From cdd0ef5862592204d34152a3c5bb0c2315118e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:25 +0000
Subject: [PATCH 061/110] fix: deterministic within-simplex sampling must not
 swap base and neighbor when vertex weights are given

---
 smote_variants/base/_simplexsampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index c7b65eb..69771d0 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -585,7 +585,8 @@ class SimplexSamplingMixin(RandomStateMixin):
         pairs = np.array(list(zip(base_indices, neighbor_indices)))
 
         if X_vertices is None or X is X_vertices:
-            pairs.sort()
+            if vertex_weights is None:
+                pairs.sort()
             X_vertices = X
 
         values, counts = np.unique(pairs, axis=0, return_counts=True)
-- 
2.43.0


From 4e9976d9b234d75f543ad9f66e10c8ea55a88516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 062/110] fix: one-sided selection and CNN-TomekLinks keep the
 minority class of the input protected in the second stage

---
 smote_variants/noise_removal/_cnntomeklinks.py  |  5 ++++-
 smote_variants/noise_removal/_condensednn.py    | 17 +++++++++++++++++
 .../noise_removal/_onesidedselection.py         |  5 ++++-
 .../noise_removal/_tomeklinkremoval.py          | 17 +++++++++++++++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/smote_variants/noise_removal/_cnntomeklinks.py b/smote_variants/noise_removal/_cnntomeklinks.py
index 8e1f786..c8741a9 100644
--- a/smote_variants/noise_removal/_cnntomeklinks.py
+++ b/smote_variants/noise_removal/_cnntomeklinks.py
@@ -74,4 +74,7 @@ class CNNTomekLinks(NoiseFilter):
         X_cnn, y_cnn = cnn.remove_noise(X, y)  # pylint: disable=invalid-name
         tomek = TomekLinkRemoval(n_jobs=self.n_jobs)
 
-        return tomek.remove_noise(X_cnn, y_cnn)
+        # the condensed set can contain less majority than minority samples
+        tomek.min_label, tomek.maj_label = self.min_label, self.maj_label
+
+        return tomek.remove_links(X_cnn, y_cnn)
diff --git a/smote_variants/noise_removal/_condensednn.py b/smote_variants/noise_removal/_condensednn.py
index 586be45..9885605 100644
--- a/smote_variants/noise_removal/_condensednn.py
+++ b/smote_variants/noise_removal/_condensednn.py
@@ -67,6 +67,23 @@ class CondensedNearestNeighbors(NoiseFilter):
 
         self.class_label_statistics(y)
 
+        return self.condense(X, y)
+
+    def condense(self, X, y):
+        """
+        Condenses the majority class with the minority and majority labels
+        already being determined
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: dataset after noise removal
+        """
+        if not np.any(y == self.maj_label):
+            return X.copy(), y.copy()
+
         # Initial result set consists of all minority samples and 1 majority
         # sample
 
diff --git a/smote_variants/noise_removal/_onesidedselection.py b/smote_variants/noise_removal/_onesidedselection.py
index 1c0ba60..ea0297e 100644
--- a/smote_variants/noise_removal/_onesidedselection.py
+++ b/smote_variants/noise_removal/_onesidedselection.py
@@ -74,4 +74,7 @@ class OneSidedSelection(NoiseFilter):
         X_tomek, y_tomek = tomek.remove_noise(X, y)  # pylint: disable=invalid-name
         cnn = CondensedNearestNeighbors(n_jobs=self.n_jobs)
 
-        return cnn.remove_noise(X_tomek, y_tomek)
+        # less majority than minority samples can remain, even none at all
+        cnn.min_label, cnn.maj_label = self.min_label, self.maj_label
+
+        return cnn.condense(X_tomek, y_tomek)
diff --git a/smote_variants/noise_removal/_tomeklinkremoval.py b/smote_variants/noise_removal/_tomeklinkremoval.py
index 5977d20..9c3fe90 100644
--- a/smote_variants/noise_removal/_tomeklinkremoval.py
+++ b/smote_variants/noise_removal/_tomeklinkremoval.py
@@ -88,6 +88,23 @@ class TomekLinkRemoval(NoiseFilter):
         _logger.info("%s: Running noise removal.", self.__class__.__name__)
         self.class_label_statistics(y)
 
+        return self.remove_links(X, y)
+
+    def remove_links(self, X, y):
+        """
+        Removes the Tomek links with the minority and majority labels
+        already being determined
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: dataset after noise removal
+        """
+        if len(X) < 2:
+            return X.copy(), y.copy()
+
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
 
-- 
2.43.0


From 042dd20d4db924f0d6f05abea1036f4f6a1b2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 063/110] fix: neighborhood cleaning leaves datasets of less
 than four samples unchanged

---
 smote_variants/noise_removal/_neighborhoodcleaningrule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/noise_removal/_neighborhoodcleaningrule.py b/smote_variants/noise_removal/_neighborhoodcleaningrule.py
index 434cdf9..00bd4b2 100644
--- a/smote_variants/noise_removal/_neighborhoodcleaningrule.py
+++ b/smote_variants/noise_removal/_neighborhoodcleaningrule.py
@@ -82,6 +82,9 @@ class NeighborhoodCleaningRule(NoiseFilter):
         _logger.info("%s: Running noise removal", self.__class__.__name__)
         self.class_label_statistics(y)
 
+        if len(X) < 4:
+            return X.copy(), y.copy()
+
         # fitting nearest neighbors with proposed parameter
         # using 4 neighbors because the first neighbor is the point itself
         nn_params = {**self.nn_params}
-- 
2.43.0


From 48548b6ebda4d7c7f4a894e1babe1cee88949d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 064/110] fix: undersamplers work with arbitrary class labels

---
 .../_oversampling_driven_undersampling.py         | 15 +++++++++++----
 .../undersampling/_random_undersampling.py        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 9e63aa2..43145c4 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -56,12 +56,14 @@ class OversamplingDrivenUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
 
         X_samp, _ = self.oversampler.sample(X, y)
         X_new = X_samp[X.shape[0]:]
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
 
         dists = X_new - X_maj[:, None]
 
@@ -80,6 +82,11 @@ class OversamplingDrivenUndersampling(UnderSampling):
             X_maj = X_maj[sorting][:n_min]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
diff --git a/smote_variants/undersampling/_random_undersampling.py b/smote_variants/undersampling/_random_undersampling.py
index 07ed2d4..6ef5351 100644
--- a/smote_variants/undersampling/_random_undersampling.py
+++ b/smote_variants/undersampling/_random_undersampling.py
@@ -41,13 +41,20 @@ class RandomUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
         #mask = self.random_state.choice(np.arange(n_maj), n_min, p=np.repeat(1.0/n_maj, n_maj), replace=False)
         mask = self.random_state.choice(np.arange(n_maj), n_min, replace=False)
-        X_maj = X[y == 0][mask]
-        X_min = X[y == 1]
+        X_maj = X[y == self.maj_label][mask]
+        X_min = X[y == self.min_label]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
\ No newline at end of file
-- 
2.43.0


From c96545af4250f264559cce7ab3e8709af23efc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 065/110] fix: oversampling driven undersampling with equal
 distances or without generated samples

---
 .../_oversampling_driven_undersampling.py         | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 43145c4..db62dca 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -65,13 +65,22 @@ class OversamplingDrivenUndersampling(UnderSampling):
         X_min = X[y == self.min_label]
         X_maj = X[y == self.maj_label]
 
-        dists = X_new - X_maj[:, None]
+        if len(X_new) == 0:
+            # nothing was generated, the majority samples are not distinguished
+            dists = np.zeros(n_maj)
+        else:
+            dists = X_new - X_maj[:, None]
 
-        dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+            dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
 
         if self.mode == "random":
-            dists = (dists - np.min(dists)) / (np.max(dists) - np.min(dists))
+            dists = dists - np.min(dists)
+            if np.max(dists) > 0:
+                dists = dists / np.max(dists)
             inv_dists = 1.0 - dists
+            if np.count_nonzero(inv_dists) < n_min:
+                # otherwise there were not enough samples to draw
+                inv_dists[inv_dists == 0] = np.min(inv_dists[inv_dists > 0])
 
             p = inv_dists / np.sum(inv_dists)
 
-- 
2.43.0


From 31f1265bf8bea7243f8a5b9ff6668e096cb58ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 066/110] fix: parameters of oversampling driven undersampling
 are returned by get_params

---
 .../_oversampling_driven_undersampling.py          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index db62dca..6435629 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
 
@@ -45,6 +46,19 @@ class OversamplingDrivenUndersampling(UnderSampling):
 
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object as a dictionary.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "oversampler_specification": self.oversampler_specification,
+            "mode": self.mode,
+            **UnderSampling.get_params(self, deep),
+        }
+
     def sample(self, X, y):
         """
         Carry out the undersampling
-- 
2.43.0


From e53b9d22c25935e1582aae398f6f680f549cee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 067/110] fix: labels of the border points match their samples

---
 smote_variants/base/_metrictensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 2052718..269b3eb 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -375,7 +375,10 @@ class ClosestNeighborsInClasses:
 
         X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
         y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+            [
+                np.repeat(0, int(np.sum(~label_maj))),
+                np.repeat(1, int(np.sum(~label_min))),
+            ]
         )
 
         return X_final, y_final
-- 
2.43.0


From 396d4d3a05c79903c6e5ddaf40a34eff86934a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 068/110] fix: removing correlated columns from a single column

---
 smote_variants/base/_metrictensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 269b3eb..12fb2ec 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -409,7 +409,7 @@ class RemoveCorrelatedColumns:
         Returns:
             RemoveCorrelatedColumns: the fitted object
         """
-        corr = np.abs(np.corrcoef(X.T))
+        corr = np.atleast_2d(np.abs(np.corrcoef(X.T)))
         corr[np.tril_indices(len(corr), k=0)] = np.nan
         self.remove_mask = ~np.any(corr > self.threshold, axis=1)
         return self
-- 
2.43.0


From 9da0eb7fcf294a454f2e18f817fe0c6abedefbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:00 +0000
Subject: [PATCH 069/110] fix: precision in the top 20 percent ranks the
 samples by probability

---
 smote_variants/base/_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 7c95d70..636e815 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -217,7 +217,10 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     results = {}
 
     thres = max(int(0.2 * len(test_labels)), 1)
-    results["p_top20"] = float(np.sum(test_labels[:thres] == min_label) / thres)
+    # the probabilities belong to label 1
+    ranking = -probabilities if min_label == 1 else probabilities
+    top_labels = test_labels[np.argsort(ranking, kind="stable")[:thres]]
+    results["p_top20"] = float(np.sum(top_labels == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
     results["log_loss"] = float(log_loss(test_labels, probabilities))
     results["auc"] = float(roc_auc_score(test_labels, probabilities))
-- 
2.43.0


From 59b35149c964711639b6506ac81c746596609400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:00 +0000
Subject: [PATCH 070/110] fix: MCC of large counts is not distorted by integer
 overflow

---
 smote_variants/base/_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 636e815..185e4c0 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -170,7 +170,7 @@ def calculate_label_scores(atoms):
     tn_fn = atoms["fn"] + atoms["tn"]
 
     mcc_num = atoms["tp"] * atoms["tn"] - atoms["fp"] * atoms["fn"]
-    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn]))
+    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn], dtype=float))
 
     if mcc_denom == 0:
         atoms["mcc"] = None
-- 
2.43.0


From 7f3b60d33bb27619b581df9fe25b57d9b24d3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:00 +0000
Subject: [PATCH 071/110] fix: scores of test sets containing one class only
 are undefined instead of raising errors

---
 smote_variants/base/_metrics.py | 46 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 185e4c0..4c235b8 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -133,6 +133,22 @@ def _log_score_div(numerator, denominator):
     return None
 
 
+def _none_if_undefined(func, *args):
+    """
+    Evaluates a score depending on others which might be undefined.
+
+    Args:
+        func (callable): the function calculating the score
+        args (list): the scores (float/None) it depends on
+
+    Returns:
+        float/None: the score, None if any of the arguments is undefined
+    """
+    if any(arg is None for arg in args):
+        return None
+    return func(*args)
+
+
 def calculate_label_scores(atoms):
     """
     Calculate scores from labels.
@@ -147,8 +163,8 @@ def calculate_label_scores(atoms):
     atoms["n"] = atoms["fp"] + atoms["tn"]
 
     atoms["acc"] = (atoms["tp"] + atoms["tn"]) / (atoms["p"] + atoms["n"])
-    atoms["sens"] = atoms["tp"] / atoms["p"]
-    atoms["spec"] = atoms["tn"] / atoms["n"]
+    atoms["sens"] = atoms["tp"] / atoms["p"] if atoms["p"] > 0 else None
+    atoms["spec"] = atoms["tn"] / atoms["n"] if atoms["n"] > 0 else None
     if atoms["tp"] + atoms["fp"] > 0:
         atoms["ppv"] = atoms["tp"] / (atoms["tp"] + atoms["fp"])
     else:
@@ -157,12 +173,14 @@ def calculate_label_scores(atoms):
         atoms["npv"] = atoms["tn"] / (atoms["tn"] + atoms["fn"])
     else:
         atoms["npv"] = 0.0
-    atoms["fpr"] = 1.0 - atoms["spec"]
+    sens_spec = (atoms["sens"], atoms["spec"])
+    atoms["fpr"] = _none_if_undefined(lambda spec: 1.0 - spec, atoms["spec"])
     atoms["fdr"] = 1.0 - atoms["ppv"]
-    atoms["fnr"] = 1.0 - atoms["sens"]
-    atoms["bacc"] = (atoms["sens"] + atoms["spec"]) / 2.0
-    atoms["gacc"] = float(np.sqrt(atoms["sens"] * atoms["spec"]))
-    atoms["f1"] = 2 * atoms["tp"] / (2 * atoms["tp"] + atoms["fp"] + atoms["fn"])
+    atoms["fnr"] = _none_if_undefined(lambda sens: 1.0 - sens, atoms["sens"])
+    atoms["bacc"] = _none_if_undefined(lambda a, b: (a + b) / 2.0, *sens_spec)
+    atoms["gacc"] = _none_if_undefined(lambda a, b: float(np.sqrt(a * b)), *sens_spec)
+    f1_denom = 2 * atoms["tp"] + atoms["fp"] + atoms["fn"]
+    atoms["f1"] = 2 * atoms["tp"] / f1_denom if f1_denom > 0 else None
 
     tp_fp = atoms["tp"] + atoms["fp"]
     tp_fn = atoms["tp"] + atoms["fn"]
@@ -184,8 +202,8 @@ def calculate_label_scores(atoms):
     atoms["lfn"] = _log_score_div(atoms["fn"], tp_fn * tn_fn)
     atoms["ltn"] = _log_score_div(atoms["tn"], tn_fp * tn_fn)
 
-    atoms["lp"] = float(atoms["p"] * np.log(atoms["p"] / (atoms["p"] + atoms["n"])))
-    atoms["ln"] = float(atoms["n"] * np.log(atoms["n"] / (atoms["p"] + atoms["n"])))
+    atoms["lp"] = _log_score_div(atoms["p"], atoms["p"] + atoms["n"])
+    atoms["ln"] = _log_score_div(atoms["n"], atoms["p"] + atoms["n"])
 
     items = [atoms["ltp"], atoms["lfp"], atoms["lfn"], atoms["ltn"]]
 
@@ -196,7 +214,7 @@ def calculate_label_scores(atoms):
     else:
         atoms["uc"] = None
 
-    atoms["informedness"] = atoms["sens"] + atoms["spec"] - 1.0
+    atoms["informedness"] = _none_if_undefined(lambda a, b: a + b - 1.0, *sens_spec)
     atoms["markedness"] = atoms["ppv"] + atoms["npv"] - 1.0
 
     return atoms
@@ -222,8 +240,12 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     top_labels = test_labels[np.argsort(ranking, kind="stable")[:thres]]
     results["p_top20"] = float(np.sum(top_labels == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
-    results["log_loss"] = float(log_loss(test_labels, probabilities))
-    results["auc"] = float(roc_auc_score(test_labels, probabilities))
+    if len(np.unique(test_labels)) > 1:
+        results["log_loss"] = float(log_loss(test_labels, probabilities))
+        results["auc"] = float(roc_auc_score(test_labels, probabilities))
+    else:
+        results["log_loss"] = float(log_loss(test_labels, probabilities, labels=[0, 1]))
+        results["auc"] = None
 
     return results
 
-- 
2.43.0


From 3cd9dac187b53b468f9cb0c63150e257fb1dbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 072/110] fix: missing, damaged or outdated fold files are not
 taken for the folds of the dataset

---
 smote_variants/evaluation/_folding.py | 35 +++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 951e529..2c3c18e 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -3,13 +3,12 @@ This module implements the folding abstraction.
 """
 
 import os
-import glob
 import shutil
 
 import numpy as np
 from sklearn.model_selection import RepeatedStratifiedKFold
 
-from ..base import dump_dict
+from ..base import dump_dict, check_if_damaged
 
 __all__ = ["Folding"]
 
@@ -88,15 +87,32 @@ class Folding:
         Returns:
             list: the list of fold filenames
         """
-        if self.serialization == "json":
-            path = os.path.join(self.folding_dir_path, "fold_*.json")
-        elif self.serialization == "pickle":
-            path = os.path.join(self.folding_dir_path, "fold_*.pickle")
+        files = [
+            self._folding_filename(repeat_idx, fold_idx)
+            for repeat_idx in range(self.validator_params["n_repeats"])
+            for fold_idx in range(self.validator_params["n_splits"])
+        ]
 
-        if len(glob.glob(path)) == 0:
+        if any(check_if_damaged(file, self.serialization) for file in files):
             self.cache_foldings()
 
-        return sorted(glob.glob(path))
+        return files
+
+    def _folding_filename(self, repeat_idx, fold_idx):
+        """
+        The name of the file of a fold
+
+        Args:
+            repeat_idx (int): the index of the repeat
+            fold_idx (int): the index of the fold in the repeat
+
+        Returns:
+            str: the path of the file
+        """
+        return os.path.join(
+            self.folding_dir_path,
+            f"fold_{repeat_idx:04}_{fold_idx:04}.{self.serialization}",
+        )
 
     def fold(self):
         """
@@ -138,8 +154,7 @@ class Folding:
         for folding in self.fold():
             repeat_idx = folding["fold_descriptor"]["repeat_idx"]
             fold_idx = folding["fold_descriptor"]["fold_idx"]
-            filename = f"fold_{repeat_idx:04}_{fold_idx:04}" f".{self.serialization}"
-            full_name = os.path.join(self.folding_dir_path, filename)
+            full_name = self._folding_filename(repeat_idx, fold_idx)
 
             dump_dict(
                 folding,
-- 
2.43.0


From 9faa790cc67dd37898d0262e26d7a8446090b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:03 +0000
Subject: [PATCH 073/110] fix: cached results of other data, folds or scalers
 are not reused

---
 smote_variants/evaluation/_evaluation.py |  3 ++-
 smote_variants/evaluation/_sampling.py   | 25 +++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..80a2048 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -82,8 +82,9 @@ class EvaluationJob:
 
         label0 = str(classifier).encode("utf-8")
         label1 = str((oversampling["oversampler"])).encode("utf-8")
+        label2 = str(oversampling.get("input_key")).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1).hexdigest())
+        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 8837ab7..5bf83e5 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -7,6 +7,8 @@ import os
 import hashlib
 import warnings
 
+import numpy as np
+
 from ..base import (
     instantiate_obj,
     load_dict,
@@ -89,7 +91,9 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
+        label = str(
+            (self.oversampler, self.oversampler_params, self.input_key(folding))
+        ).encode("utf-8")
         hashcode = str(hashlib.md5(label).hexdigest())
 
         damaged = False
@@ -105,6 +109,23 @@ class SamplingJob(TimeoutJobBase):
 
         return target_filename, damaged
 
+    def input_key(self, folding):
+        """
+        Determine a key of the data of the fold and the scaling
+
+        Args:
+            folding (obj): a folding
+
+        Returns:
+            str: the key identifying the input of the oversampling
+        """
+        digest = hashlib.md5(str(self.scaler).encode("utf-8"))
+        for key in ["X_train", "y_train", "X_test", "y_test"]:
+            data = np.ascontiguousarray(folding[key], dtype=float)
+            digest.update(str(data.shape).encode("utf-8"))
+            digest.update(data.tobytes())
+        return digest.hexdigest()
+
     def execute(self):
         """
         Execute the task
@@ -150,6 +171,7 @@ class SamplingJob(TimeoutJobBase):
 
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
+            "input_key": self.input_key(folding),
             "y_test": folding["y_test"],
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
@@ -244,6 +266,7 @@ class SamplingJob(TimeoutJobBase):
 
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
+            "input_key": self.input_key(folding),
             "y_test": folding["y_test"],
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
-- 
2.43.0


From 58c20d8969021d89fd74de9883df2c157eb043f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:03 +0000
Subject: [PATCH 074/110] fix: the parameters of sampling jobs contain the
 scaler

---
 smote_variants/evaluation/_sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 5bf83e5..a27a80d 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -74,6 +74,7 @@ class SamplingJob(TimeoutJobBase):
             "folding": self.folding,
             "oversampler": self.oversampler,
             "oversampler_params": self.oversampler_params.copy(),
+            "scaler": self.scaler,
             "cache_path": self.cache_path,
             "serialization": self.serialization,
             "reset": self.reset,
-- 
2.43.0


From 7abfb8f66a20550e471cb57326616859d3cab29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:57 +0000
Subject: [PATCH 075/110] fix: process pool keeps results of any size and of
 jobs finishing around the timeout

---
 smote_variants/evaluation/_parallelization.py | 52 ++++++++++++-------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..14d5f68 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -2,6 +2,7 @@
 This module implements the process based parallelization with timeout.
 """
 
+import time
 import threading
 import multiprocessing
 from queue import Empty
@@ -134,29 +135,40 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     process_start_lock.release()
 
+    deadline = None
     if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
-        process.join()
-
-    # if the process finished normally, the result is written into
-    # the results output argument
-    if not process.is_alive():
-        results[idx] = queue_get_default(queue, job)
-
+        deadline = time.monotonic() + timeout
+
+    # the queue needs to be read before the process is joined: the process
+    # cannot finish until a result not fitting into the underlying pipe is
+    # consumed
+    while process.is_alive():
+        wait = 0.1
+        if deadline is not None:
+            wait = min(wait, deadline - time.monotonic())
+
+        if wait <= 0:
+            # the process is killed and the timeout function is executed
+            # for potential clean-up
+            process.kill()
+            process.join()
+            results[idx] = job.timeout()
+            return
+
+        try:
+            results[idx] = queue.get(timeout=wait)
+        except Empty:
+            continue
+
+        # the result is available, the process is about to finish
+        process.join(1)
+        if process.is_alive():
+            process.kill()
+            process.join()
         return
 
-    # remove anything from the queue to prevent deadlock
-    try:
-        queue_lock.acquire()
-        results[idx] = queue.get(block=False)
-    except Empty:
-        pass
-
-    # if the process is still running, the process is killed and
-    # the timeout function is executed for potential clean-up
-    process.kill()
-    results[idx] = job.timeout()
+    # the process has finished since the queue was read the last time
+    results[idx] = queue_get_default(queue, job)
 
 
 def wait_for_lock(lock):
-- 
2.43.0


From 1f7d1693dcfaacd5b57e0a50eda7f3f9812caea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 076/110] fix: unusable classifier output (one class, NaN) is
 recorded instead of ending the evaluation

---
 smote_variants/evaluation/_evaluation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index 80a2048..9c5e066 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -139,6 +139,10 @@ class EvaluationJob:
                     y_pred = classifier_obj.fit(
                         oversampling["X_train"], oversampling["y_train"]
                     ).predict_proba(oversampling["X_test"])
+                    if y_pred.shape[1] != 2 or np.any(np.isnan(y_pred)):
+                        raise ValueError(
+                            "the classifier gives no probabilities of two classes"
+                        )
                 except ValueError as value_error:
                     error = str(value_error)
                     y_pred = np.zeros(shape=(oversampling["y_test"].shape[0], 2))
-- 
2.43.0


From 8fc9c8a9f307b06dbc4132e23211b60d3525ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:21 +0000
Subject: [PATCH 077/110] fix: summaries keep oversamplers without simplex
 sampling

---
 smote_variants/evaluation/_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index f38a219..99aa61e 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -160,7 +160,8 @@ def create_summary(data, scores=None, columns_to_serialize=None):
                 "classifier_module",
                 "classifier",
                 "deterministic",
-            ]
+            ],
+            dropna=False,
         )
         .apply(lambda x: _serialize_data(x, columns_to_serialize))
         .reset_index(drop=False)
-- 
2.43.0


From 32310cdff0c96ae3a8978c60a54deda5c489a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:59 +0000
Subject: [PATCH 078/110] fix: oversampling classifier passes the inputs
 through the oversampler's transform

---
 smote_variants/classifiers/_oversamplingclassifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..717a6a2 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -57,6 +57,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
+        X = self.oversampler_obj.preprocessing_transform(X)
         return self.classifier_obj.predict(X)
 
     def predict_proba(self, X):
@@ -67,6 +68,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
+        X = self.oversampler_obj.preprocessing_transform(X)
         return self.classifier_obj.predict_proba(X)
 
     def get_params(self, deep=True):
-- 
2.43.0


From 6b08090f4bd7f9930d0255181d6e216a2d42b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 079/110] fix: CBSO with more neighbors than samples

---
 smote_variants/oversampling/_cbso.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_cbso.py b/smote_variants/oversampling/_cbso.py
index 91b96ee..88794c4 100755
--- a/smote_variants/oversampling/_cbso.py
+++ b/smote_variants/oversampling/_cbso.py
@@ -266,7 +266,9 @@ class CBSO(OverSamplingSimplex):
 
         # fitting nearest neighbors model to find neighbors of minority points
         nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.n_neighbors + 1, n_jobs=self.n_jobs, **(nn_params)
+            n_neighbors=min(len(X), self.n_neighbors + 1),
+            n_jobs=self.n_jobs,
+            **(nn_params),
         )
         nnmt.fit(X)
         ind = nnmt.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From dffd2762e2afeaadbbe4f12cb6b651035599754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:12 +0000
Subject: [PATCH 080/110] fix: SN_SMOTE extends the centroid neighborhoods
 beyond the nearest neighbor

---
 smote_variants/oversampling/_sn_smote.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/smote_variants/oversampling/_sn_smote.py b/smote_variants/oversampling/_sn_smote.py
index a195fbe..98abb17 100755
--- a/smote_variants/oversampling/_sn_smote.py
+++ b/smote_variants/oversampling/_sn_smote.py
@@ -132,9 +132,9 @@ class SN_SMOTE(OverSamplingSimplex):
         centroids = X_min[ncn[:, 0]]
         cent_dist = distances_mahalanobis(X=X_min, Y=centroids, tensor=metric_tensor)
 
-        mask = np.repeat(True, X_min.shape[0])
+        mask = n_cents < self.n_neighbors
         jdx = 2
-        while np.any(mask):
+        while np.any(mask) and jdx < n_neighbors:
             centroids_tmp = (
                 (centroids[mask] + X_min[ind[mask, jdx]]).T / (n_cents[mask] + 1)
             ).T
@@ -143,18 +143,15 @@ class SN_SMOTE(OverSamplingSimplex):
             )
 
             improved = new_cent_dist < cent_dist[mask]
-            centroids[mask][improved] = (
-                centroids[mask][improved] + X_min[ind[mask, jdx][improved]]
-            )
-            ncn[mask][improved, n_cents[mask][improved]] = ind[mask][improved, jdx]
-            n_cents[mask][improved] = n_cents[mask][improved] + 1
-            cent_dist[mask][improved] = new_cent_dist[improved]
+            rows = np.where(mask)[0][improved]
+            centroids[rows] = centroids[rows] + X_min[ind[rows, jdx]]
+            ncn[rows, n_cents[rows]] = ind[rows, jdx]
+            n_cents[rows] = n_cents[rows] + 1
+            cent_dist[rows] = new_cent_dist[improved]
 
             mask = n_cents < self.n_neighbors
 
             jdx = jdx + 1
-            if jdx == n_neighbors:
-                break
 
         return ncn, n_cents
 
-- 
2.43.0


From b725bda323ef7bdebd253e387e2dfbb06d534988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:31 +0000
Subject: [PATCH 081/110] fix: SMOTE_PSOBAT: a small minority class narrowed
 the neighbour range of later calls

---
 smote_variants/oversampling/_smote_psobat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_psobat.py b/smote_variants/oversampling/_smote_psobat.py
index 7221c02..6ac1998 100755
--- a/smote_variants/oversampling/_smote_psobat.py
+++ b/smote_variants/oversampling/_smote_psobat.py
@@ -144,7 +144,8 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of proportions
         self.proportion_range = np.array([0.1, 2.0])
-        self.k_range = np.array([1, 10])
+        self.k_max = 10
+        self.k_range = np.array([1, self.k_max])
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -793,7 +794,7 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of nearest neighbors to use with SMOTE
         self.k_range = np.array(
-            [1, np.min([np.sum(y == self.min_label), self.k_range[1]])]
+            [1, np.min([np.sum(y == self.min_label), self.k_max])]
         )
 
         if self.method == "pso":
-- 
2.43.0


From 2687cc9e5b739de929f13f0c174365739943f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:31 +0000
Subject: [PATCH 082/110] fix: polynom_fit_SMOTE_star/bus/poly: set_params did
 not reach the wrapped sampler

---
 .../oversampling/_polynom_fit_smote.py        | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/smote_variants/oversampling/_polynom_fit_smote.py b/smote_variants/oversampling/_polynom_fit_smote.py
index 4bc035f..72b2884 100755
--- a/smote_variants/oversampling/_polynom_fit_smote.py
+++ b/smote_variants/oversampling/_polynom_fit_smote.py
@@ -224,6 +224,18 @@ class polynom_fit_SMOTE_star(OverSampling):  # pylint: disable=invalid-name
         params["class_name"] = self.__class__.__name__
         return params
 
+    def set_params(self, **params):
+        """
+        Set parameters
+
+        Args:
+            params (dict): dictionary of parameters
+        """
+        super().set_params(**params)
+        self.polynom_fit_smote.set_params(**params)
+
+        return self
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -298,6 +310,18 @@ class polynom_fit_SMOTE_bus(OverSampling):  # pylint: disable=invalid-name
         params["class_name"] = self.__class__.__name__
         return params
 
+    def set_params(self, **params):
+        """
+        Set parameters
+
+        Args:
+            params (dict): dictionary of parameters
+        """
+        super().set_params(**params)
+        self.polynom_fit_smote.set_params(**params)
+
+        return self
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -379,6 +403,20 @@ class polynom_fit_SMOTE_poly(OverSampling):  # pylint: disable=invalid-name
         params["class_name"] = self.__class__.__name__
         return params
 
+    def set_params(self, **params):
+        """
+        Set parameters
+
+        Args:
+            params (dict): dictionary of parameters
+        """
+        super().set_params(**params)
+        self.polynom_fit_smote.set_params(
+            **{**params, "topology": "poly_" + str(self.order)}
+        )
+
+        return self
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
-- 
2.43.0


From b31968053e2ea0dadd2acc9effb64bc7cdc15a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 083/110] fix: the visualisation counts coinciding points by
 the chosen coordinates

---
 smote_variants/visualization/_visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/visualization/_visualization.py b/smote_variants/visualization/_visualization.py
index 17db780..913dc7b 100644
--- a/smote_variants/visualization/_visualization.py
+++ b/smote_variants/visualization/_visualization.py
@@ -93,11 +93,11 @@ def unique_data(X, y, coordinates=(0, 1)):
     """
     coords = [f"coordinate {idx}" for idx in coordinates]
 
-    unified = np.round(np.vstack([X.T, y.T]).T, 4)
+    unified = np.round(np.vstack([X[:, coordinates].T, y.T]).T, 4)
     unique, counts = np.unique(unified, return_counts=True, axis=0)
     X_orig, y_orig = unique[:, :-1], unique[:, -1]
 
-    orig_pdf = pd.DataFrame(X_orig[:, coordinates], columns=coords)
+    orig_pdf = pd.DataFrame(X_orig, columns=coords)
     orig_pdf["y"] = y_orig
     orig_pdf["counts"] = counts
 
-- 
2.43.0


From b850fbaa7121bc5f6f2bbfd15334e60e76c13cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 084/110] fix: plotting does not change the labelings passed in

---
 smote_variants/visualization/_visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/visualization/_visualization.py b/smote_variants/visualization/_visualization.py
index 913dc7b..b296f76 100644
--- a/smote_variants/visualization/_visualization.py
+++ b/smote_variants/visualization/_visualization.py
@@ -276,7 +276,7 @@ def plot_sampling(labeling, title=""):
 
         sizes = SIZE_SCALE
 
-        labeling["y"] = relabel_y(labeling["y"].values)
+        labeling = labeling.assign(y=relabel_y(labeling["y"].values))
 
         order = sorted(np.unique(labeling["y"].values))
 
@@ -360,8 +360,8 @@ def plot_comparison(labeling0, labeling1, title0, title1):
     """
     coords = [c for c in labeling0.columns if c.startswith("coordinate")]
 
-    labeling0["y"] = relabel_y(labeling0["y"].values)
-    labeling1["y"] = relabel_y(labeling1["y"].values)
+    labeling0 = labeling0.assign(y=relabel_y(labeling0["y"].values))
+    labeling1 = labeling1.assign(y=relabel_y(labeling1["y"].values))
 
     with warnings.catch_warnings():
         if suppress_external_warnings():
-- 
2.43.0


From 4a754e88035b1d7b77fe71efc2570930f511ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 085/110] fix: Borderline_SMOTE1 and 2 use the nearest neighbor
 too

---
 smote_variants/oversampling/_borderline_smote.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 508201e..c735cc1 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -208,11 +208,10 @@ class Borderline_SMOTE1(OverSamplingSimplex):
             n_neighbors=k_neigh, n_jobs=self.n_jobs, **(nn_params)
         )
         nnmt.fit(X_min)
+        # X_danger items are also present in X_min, the first neighbors (the
+        # samples themselves) are left out by the simplex sampling
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X_min
-        indices = indices[:, 1:]
-
         samples = self.sample_simplex(
             X=X_danger, indices=indices, n_to_sample=n_to_sample, X_vertices=X_min
         )
@@ -409,11 +408,10 @@ class Borderline_SMOTE2(OverSamplingSimplex):
             n_neighbors=k_neigh, n_jobs=self.n_jobs, **(nn_params)
         )
         nnmt.fit(X)
+        # X_danger items are also present in X, the first neighbors (the
+        # samples themselves) are left out by the simplex sampling
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X
-        indices = indices[:, 1:]
-
         vertex_weights = np.repeat(1.0, len(X))
         vertex_weights[y == self.maj_label] = 0.5
 
-- 
2.43.0


From fbfe7bd21fb9bcc87c59f13e03f4efd84b523e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 086/110] fix: OUPS generates towards the next samples in the
 propensity order

---
 smote_variants/oversampling/_oups.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_oups.py b/smote_variants/oversampling/_oups.py
index 7a94aa3..e429f85 100755
--- a/smote_variants/oversampling/_oups.py
+++ b/smote_variants/oversampling/_oups.py
@@ -138,19 +138,24 @@ class OUPS(OverSamplingSimplex):
         simplex_weights = np.tile(np.arange(p, 0, -1.0), (X.shape[0], 1))
         simplex_weights = np.clip(simplex_weights, 0.0, 1.0)
 
+        # the first column stands for the sample itself
+        simplex_weights = np.hstack([np.ones((X.shape[0], 1)), simplex_weights])
+
         indices = np.vstack(
             [
                 np.arange(0, len(X)) + idx
-                for idx in range(1, simplex_weights.shape[1] + 1)
+                for idx in range(0, simplex_weights.shape[1])
             ]
         ).T
 
         simplex_weights[indices >= len(X)] = 0.0
         indices = indices[min_indices]
+        simplex_weights = simplex_weights[min_indices]
 
-        mask = ~np.all(indices >= X.shape[0], axis=1)
+        mask = ~np.all(indices[:, 1:] >= X.shape[0], axis=1)
 
         indices = indices[mask]
+        simplex_weights = simplex_weights[mask]
         X_sorted_min = X_sorted_min[mask]  # pylint: disable=invalid-name
         indices[indices >= X.shape[0]] = X.shape[0] - indices[indices >= X.shape[0]] - 1
 
-- 
2.43.0


From 09b7296c7cb24449aa3067585aff91b90bcf87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 087/110] fix: SDSMOTE counts the majority samples within the
 radius

---
 smote_variants/oversampling/_sdsmote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sdsmote.py b/smote_variants/oversampling/_sdsmote.py
index 97c68d0..1beeae7 100755
--- a/smote_variants/oversampling/_sdsmote.py
+++ b/smote_variants/oversampling/_sdsmote.py
@@ -155,7 +155,7 @@ class SDSMOTE(OverSamplingSimplex):
                         X_min[i].reshape(1, -1),  # pylint: disable=invalid-name
                         S_ave,
                         return_distance=False,
-                    )
+                    )[0]
                 )
                 for i in range(len(X_min))
             ]
-- 
2.43.0


From f574ff6d928f68d4f33c2fb1a0b05f0524dec028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 088/110] fix: Selected_SMOTE respects perc_sign_attr

---
 smote_variants/oversampling/_selected_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_selected_smote.py b/smote_variants/oversampling/_selected_smote.py
index beb2c3d..1127aa3 100755
--- a/smote_variants/oversampling/_selected_smote.py
+++ b/smote_variants/oversampling/_selected_smote.py
@@ -135,7 +135,7 @@ class Selected_SMOTE(OverSampling):
 
         # number of significant attributes to determine
         tmp = int(np.rint(self.perc_sign_attr * len(percentages)))
-        num_sign_attr = np.min([1, tmp])
+        num_sign_attr = np.max([1, tmp])
 
         sign_attr = percentages >= sorted(percentages)[-num_sign_attr]
         sign_attr = sign_attr.astype(int)
-- 
2.43.0


From 1593ad400ab6daa42d882cc6c57ef6acfb2d164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 089/110] fix: G_SMOTE uses the principal eigenvector

---
 smote_variants/oversampling/_g_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 4ecb2c7..d66ab30 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -169,7 +169,7 @@ class G_SMOTE(OverSamplingSimplex):
             # finding H_l by linear decomposition
             cov = np.cov(X_min, rowvar=False)
             eigw, eigv = np.linalg.eig(cov)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
         else:
             # building a non-linear kernel matrix and finding H_n by its
             # decomposition
@@ -182,7 +182,7 @@ class G_SMOTE(OverSamplingSimplex):
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
             kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
 
         return H
 
-- 
2.43.0


From 851703c753dbb3a2f862391fcd2186c920b95b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 090/110] fix: CE_SMOTE relabels the clusterings by the
 matching found

---
 smote_variants/oversampling/_ce_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_ce_smote.py b/smote_variants/oversampling/_ce_smote.py
index c41b271..637203d 100755
--- a/smote_variants/oversampling/_ce_smote.py
+++ b/smote_variants/oversampling/_ce_smote.py
@@ -184,12 +184,12 @@ class CE_SMOTE(OverSamplingSimplex):
                         cost_matrix[jdx, kdx] = np.sum(mask_jk)
 
                 # solving the assignment problem
-                row_ind, _ = soptimize.linear_sum_assignment(-cost_matrix)
+                row_ind, col_ind = soptimize.linear_sum_assignment(-cost_matrix)
 
                 # doing the relabeling
                 relabeling = labeling.copy()
 
-                for jdx in range(len(row_ind)):
+                for jdx, kdx in zip(row_ind, col_ind):
                     relabeling[labeling == kdx] = jdx
 
                 labels[idx] = relabeling
-- 
2.43.0


From 47f9cd91023c99bf13fd95fdd72d1599adf98307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 091/110] fix: SOI_CJ forms the initial clusters and merges the
 right ones

---
 smote_variants/oversampling/_soi_cj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index fdbaa92..47ce8a7 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -196,7 +196,10 @@ class SOI_CJ(OverSamplingSimplex):
         """
         clusters = []
 
-        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
+        is_maj = y[indices] != self.min_label
+        first_maj_index = np.where(
+            np.any(is_maj, axis=1), np.argmax(is_maj, axis=1), is_maj.shape[1]
+        )
 
         for idx in range(indices.shape[0]):
             # while the closest instance is from the minority class, adding it
@@ -255,7 +258,7 @@ class SOI_CJ(OverSamplingSimplex):
                         )
 
                         clusters[idx] = cluster_idx
-                        clusters[jdx] = cluster_jdx
+                        clusters[idx + 1 + jdx] = cluster_jdx
 
             clusters = [c for c in clusters if len(c) > 0]
 
-- 
2.43.0


From e487ffce695d2050900c759eea2ca8d3353800f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 092/110] fix: ISMOTE uses the nearest neighbor too

---
 smote_variants/oversampling/_ismote.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_ismote.py b/smote_variants/oversampling/_ismote.py
index 0b63fbd..e1259d6 100755
--- a/smote_variants/oversampling/_ismote.py
+++ b/smote_variants/oversampling/_ismote.py
@@ -160,9 +160,8 @@ class ISMOTE(OverSamplingSimplex):
         vertex_weights = np.repeat(1.0 - self.minority_weight, X.shape[0])
         vertex_weights[y == self.min_label] = self.minority_weight
 
-        # removing the minority samples from their own neighborhoods
-        ind = ind[:, 1:]
-
+        # the first neighbors (the minority samples themselves) are left out by
+        # the simplex sampling
         samples = self.sample_simplex(
             X=X_min,
             indices=ind,
-- 
2.43.0


From 90f1fba94aedce1c278d5ede8c52a0a146b3164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 093/110] fix: VIS_RST uses the nearest neighbor too

---
 smote_variants/oversampling/_vis_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_vis_rst.py b/smote_variants/oversampling/_vis_rst.py
index d91071e..73add98 100755
--- a/smote_variants/oversampling/_vis_rst.py
+++ b/smote_variants/oversampling/_vis_rst.py
@@ -242,7 +242,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_not_danger],
-                indices=ind_not_noise[base_not_danger, 1:],
+                indices=ind_not_noise[base_not_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
@@ -289,7 +289,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_danger],
-                indices=ind_not_noise[base_danger, 1:],
+                indices=ind_not_noise[base_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
-- 
2.43.0


From 7a8b35476fe6a367acf46b20b3d83059d56e38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 094/110] fix: SYMPROD synthesizes from the neighbors of the
 reference samples

---
 smote_variants/oversampling/_symprod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 633894b..5a20510 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -327,7 +327,7 @@ class SYMPROD(OverSampling):
                 "Not enough samples for " f"m_neighbors {self.params['m_neighbors']}"
             )
 
-    def select_neighborhoods(self, X_min, nn_params, n_to_sample):
+    def select_neighborhoods(self, X_min, nn_params, n_to_sample, min_reference):
         """
         Select the neighborhoods used for sampling.
 
@@ -335,6 +335,7 @@ class SYMPROD(OverSampling):
             X_min (np.array): the minority samples
             nn_params (dict): the nearest neighbor parameters
             n_to_sample (int): the number of samples to generate
+            min_reference (np.array): the indices of the reference samples
 
         Returns:
             np.array: the selected neighbors
@@ -357,7 +358,7 @@ class SYMPROD(OverSampling):
         rand_ind = neighborhoods[
             self.random_state.choice(len(neighborhoods), n_to_sample)
         ]
-        nn_selected = np.take(i_min_min, rand_ind)
+        nn_selected = np.take_along_axis(i_min_min[min_reference], rand_ind, axis=1)
 
         return nn_selected
 
@@ -381,7 +382,9 @@ class SYMPROD(OverSampling):
             len(prob_dist), n_to_sample, p=prob_dist, replace=True
         )
 
-        nn_selected = self.select_neighborhoods(X_min, nn_params, n_to_sample)
+        nn_selected = self.select_neighborhoods(
+            X_min, nn_params, n_to_sample, min_reference
+        )
 
         synthetic_points = np.zeros(shape=(n_to_sample, X_min[0].shape[0]))
 
-- 
2.43.0


From 0494d8b2f51d8cb0735b2d7b4fcd5a79fd9ea8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 095/110] fix: SYMPROD samples with fewer neighbors than
 m_neighbors

---
 smote_variants/oversampling/_symprod.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 5a20510..55ad055 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -397,9 +397,8 @@ class SYMPROD(OverSampling):
                 cf_norm_min[min_reference][:, None],
             ]
         )
-        dirichlet_param = np.ones(self.params["m_neighbors"] + 1) * (
-            self.params["m_neighbors"] + 2
-        )
+        m_neighbors = nn_selected.shape[1]
+        dirichlet_param = np.ones(m_neighbors + 1) * (m_neighbors + 2)
         random_beta = self.random_state.dirichlet(
             dirichlet_param, size=min_reference.shape[0]
         )
-- 
2.43.0


From 66886143627e11b758477428d4074f95a1a38b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 096/110] fix: SYMPROD keeps the majority samples if all of
 them are outliers

---
 smote_variants/oversampling/_symprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 55ad055..20708b9 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -140,7 +140,7 @@ class SYMPROD(OverSampling):
 
         # Apply the original dataset if the dataset is null
         X_min = X[y == self.min_label] if len(X_min) == 0 else X_min
-        X_maj = X[y == self.maj_label] if len(X_min) == 0 else X_maj
+        X_maj = X[y == self.maj_label] if len(X_maj) == 0 else X_maj
 
         # Create X, y after Noise Removal
         # seemingly the purpose of this is to standardize all data together
-- 
2.43.0


From 22832124b3690ca74cd23ac54d3613a5f8dd9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 097/110] fix: CCR expands the spheres by the energy budget

---
 smote_variants/oversampling/_ccr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_ccr.py b/smote_variants/oversampling/_ccr.py
index 7234194..3f0801c 100755
--- a/smote_variants/oversampling/_ccr.py
+++ b/smote_variants/oversampling/_ccr.py
@@ -213,11 +213,11 @@ class CCR(OverSampling):
             radius += radius_change
             remaining_energy -= radius_change * (current_majority + 1.0)
 
-            last_distance = distances[idx, sorted_distances[current_majority - 1]]
-
-        # if current_majority == len(majority) - 1 then adjust
-        multiplier_flag = int(current_majority == (len(majority) - 1))
-        radius += (remaining_energy / max(1, current_majority)) * multiplier_flag
+            last_distance = dist
+        else:
+            # all majority samples are within the sphere
+            current_majority = len(majority)
+            radius += remaining_energy / max(1, current_majority)
 
         return radius, current_majority
 
-- 
2.43.0


From 89a2604e2d359c5f840f27e61f297e7791bcc3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 098/110] fix: V_SYNTH places the bounding box at both ends of
 the ranges

---
 smote_variants/oversampling/_v_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index bc23e8e..52c3767 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -113,7 +113,7 @@ class V_SYNTH(OverSampling):
         dim = len(X[0])
 
         def random_min_maxs():
-            return np.where(self.random_state.randint(0, 1, size=dim) == 0, mins, maxs)
+            return np.where(self.random_state.randint(0, 2, size=dim) == 0, mins, maxs)
 
         n_bounding_box = min([100, len(X[0])])
         bounding_box = [random_min_maxs() for _ in range(n_bounding_box)]
-- 
2.43.0


From 3d7592917035a777409d996adebe8c3bb8331f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 099/110] fix: V_SYNTH samples on the bounded faces of the
 tessellation only

---
 smote_variants/oversampling/_v_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 52c3767..42a64ba 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -269,7 +269,9 @@ class V_SYNTH(OverSampling):
         candidate_face_generators = []
         for idx, ridge in enumerate(voronoi.ridge_points):
             labels = y_pca[ridge]
-            if np.all(labels != -1) and labels[0] != labels[1]:
+            # the vertex index -1 denotes an unbounded face
+            bounded = -1 not in voronoi.ridge_vertices[idx]
+            if np.all(labels != -1) and labels[0] != labels[1] and bounded:
                 candidate_face_generators.append(idx)
 
         # seems like this never happens
-- 
2.43.0


From 877fdff06c1bedeb84bac77eac4bf734285b7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 100/110] fix: SUNDO removes one sample of each of the closest
 pairs only

---
 smote_variants/oversampling/_sundo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sundo.py b/smote_variants/oversampling/_sundo.py
index b60e391..b6f40c3 100755
--- a/smote_variants/oversampling/_sundo.py
+++ b/smote_variants/oversampling/_sundo.py
@@ -167,7 +167,7 @@ class SUNDO(OverSampling):
         pairs_to_break = np.vstack(pairs_to_break)
 
         # sorting the pairs, otherwise both points would be removed
-        pairs_to_break.sort(axis=1)
+        pairs_to_break.sort(axis=0)
 
         # uniqueing the coordinates - the final number might be less than N
         to_remove = np.unique(pairs_to_break[0])
-- 
2.43.0


From 9f83d8df3d4a7de8f988ed2d4d94aeba98f4f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 101/110] fix: SMOTE_IPF with consensus voting removes what all
 the classifiers misclassify

---
 smote_variants/oversampling/_smote_ipf.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index 06210f7..26b9be5 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -186,16 +186,8 @@ class SMOTE_IPF(OverSampling):
                 )
                 to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
             elif self.params["voting"] == "consensus":
-                pred_votes = np.where(
-                    np.mean(predictions, axis=0) > 0.5, self.min_label, self.maj_label
-                )
-                sum_votes = np.sum(predictions, axis=0)
-                to_remove = np.where(
-                    np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
-                        np.equal(sum_votes, self.params["n_folds"]),
-                    )
-                )[0]
+                misclassified = np.not_equal(predictions, y_samp == self.min_label)
+                to_remove = np.where(np.all(misclassified, axis=0))[0]
 
             # delete samples incorrectly classified
             _logger.info(
-- 
2.43.0


From f93d0603f8181a8e570f723fc48f336bd3b9ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 102/110] fix: TRIM_SMOTE counts the minority samples on the
 right of a split

---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 79303b5..b2ea1a4 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -172,7 +172,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
             # number of minority samples on the left
             left_min = 0
             # number of minority samples on the right
-            right_min = np.sum(sorted_y == self.min_label)
+            right_min = np.sum(np.array(sorted_y) == self.min_label)
 
             # check all possible splitting points sequentially
             for jdx in range(0, len(sorted_y) - 1):
-- 
2.43.0


From fe8ae58f818b0e617f63b5f940c2fda8ee2d85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 103/110] fix: TRIM_SMOTE splits on the borders between the
 classes

---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index b2ea1a4..37641b4 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -186,7 +186,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
                     split_on_border is False
                     or (
                         split_on_border is True
-                        and not sorted_y[jdx - 1] == sorted_y[jdx]
+                        and not sorted_y[jdx] == sorted_y[jdx + 1]
                     )
                 ) and sorted_X_y[jdx][0] != sorted_X_y[jdx + 1][0]:
                     # compute trim value of the left
-- 
2.43.0


From c0eb21d3dbab645fb7ca6b828b25f80b4a03a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 104/110] fix: ASMOBD gives OPTICS at least the two samples it
 needs

---
 smote_variants/oversampling/_asmobd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_asmobd.py b/smote_variants/oversampling/_asmobd.py
index 0fbf5af..6b4baee 100755
--- a/smote_variants/oversampling/_asmobd.py
+++ b/smote_variants/oversampling/_asmobd.py
@@ -283,7 +283,7 @@ class ASMOBD(OverSamplingSimplex):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             optics = OPTICS(
-                min_samples=np.min([len(X_min) - 1, params["min_samples"]]),
+                min_samples=np.max([2, np.min([len(X_min) - 1, params["min_samples"]])]),
                 max_eps=params["eps"],
                 n_jobs=self.n_jobs,
             )
-- 
2.43.0


From 48bbb6ab9bca19b82fb85610973a371671d9f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 105/110] fix: CCR shares the samples evenly when there is no
 energy to expand

---
 smote_variants/oversampling/_ccr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/oversampling/_ccr.py b/smote_variants/oversampling/_ccr.py
index 3f0801c..3a32011 100755
--- a/smote_variants/oversampling/_ccr.py
+++ b/smote_variants/oversampling/_ccr.py
@@ -283,16 +283,16 @@ class CCR(OverSampling):
         majority += translations
 
         # this is changed to the ratio of sums for more robustness
-        radii_inv_sum = len(radii) / np.sum(radii)
+        shares = np.ones(len(radii))
+        if np.all(radii > 0):
+            shares = np.mean(radii) / radii
         # radii_inv_sum = 1.0 / np.sum(1.0 / radii)
 
         appended = [np.zeros(shape=(0, majority.shape[1]))]
         for idx, minority_point in enumerate(minority):
             # this determination of synthetic samples is hacked
             # to give reasonable results
-            synthetic_samples = (
-                n_to_sample / len(minority) * (1.0 / radii[idx]) / radii_inv_sum
-            )
+            synthetic_samples = n_to_sample / len(minority) * shares[idx]
             synthetic_samples = int(np.round(synthetic_samples))
             if synthetic_samples > 0:
                 tc_samples = self.taxicab_samples(
-- 
2.43.0


From 15cb5e26565c51cf0994779daeba0ef44dcda8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 106/110] fix: MWMOTE selects uniformly when all closeness
 factors vanish

---
 smote_variants/oversampling/_mwmote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_mwmote.py b/smote_variants/oversampling/_mwmote.py
index ac3ffcf..cdd4f6a 100755
--- a/smote_variants/oversampling/_mwmote.py
+++ b/smote_variants/oversampling/_mwmote.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.cluster import KMeans
 from scipy.linalg import circulant
 
-from ..base import coalesce, coalesce_dict
+from ..base import coalesce, coalesce_dict, fix_density
 from ..base import NearestNeighborsWithMetricTensor
 from ..base import OverSamplingSimplex
 from .._logger import logger
@@ -339,7 +339,7 @@ class MWMOTE(OverSamplingSimplex):
         )
 
         selection_weights = np.sum(information_weights, axis=0)
-        selection_probabilities = selection_weights / np.sum(selection_weights)
+        selection_probabilities = fix_density(selection_weights)
 
         return informative_minority, selection_probabilities
 
-- 
2.43.0


From 8140692a39477dde2720308b9d57bf9ed1f65234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 107/110] fix: V_SYNTH accepts a single component

---
 smote_variants/oversampling/_v_synth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 42a64ba..2d47962 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -209,9 +209,8 @@ class V_SYNTH(OverSampling):
         """
         # applying PCA to reduce the dimensionality of the data
         n_components = np.min([X_bb.shape[1], self.n_components])
-        component_mask = np.array([True] * n_components)
 
-        while np.sum(component_mask) > 1:
+        while True:
             pca = PCA(n_components=n_components)
             X_pca = pca.fit_transform(X_bb)  # pylint: disable=invalid-name
             y_pca = np.hstack(
@@ -225,6 +224,9 @@ class V_SYNTH(OverSampling):
 
             n_components = np.sum(component_mask)
 
+            if n_components <= 1:
+                break
+
         return X_pca, y_pca, n_components, pca
 
     def sampling_algorithm(self, X, y):
-- 
2.43.0


From 2cb36491150e6ebebc411c2407a9953d0a5c5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 108/110] fix: SMOTE_IPF stops when there is nothing to remove,
 also for p=0

---
 smote_variants/oversampling/_smote_ipf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index 26b9be5..b2e3ea1 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -198,7 +198,8 @@ class SMOTE_IPF(OverSampling):
 
             # if the number of samples removed becomes small or k iterations
             # were done quit
-            check = int(len(to_remove) < len(X_samp) * self.params["p"])
+            few_removed = len(to_remove) < len(X_samp) * self.params["p"]
+            check = int(few_removed or len(to_remove) == 0)
             condition = (condition + 1) * check
 
         return X_samp, y_samp
-- 
2.43.0


From fbbe3ff40ecd1a7b9a88e45df45a9bfff08dd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 109/110] fix: NRSBoundary_SMOTE survives when no conflict-free
 sample can be drawn

---
 smote_variants/oversampling/_nrsboundary_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_nrsboundary_smote.py b/smote_variants/oversampling/_nrsboundary_smote.py
index 61e791a..2fbd513 100755
--- a/smote_variants/oversampling/_nrsboundary_smote.py
+++ b/smote_variants/oversampling/_nrsboundary_smote.py
@@ -234,7 +234,7 @@ class NRSBoundary_SMOTE(OverSamplingSimplex):
 
             deltas = deltas - deltas_diff
 
-        return np.vstack(samples)[: np.min([len(samples), n_to_sample])]
+        return samples[: np.min([len(samples), n_to_sample])]
 
     def sampling_algorithm(self, X, y):
         """
-- 
2.43.0


From 01f49f7cb0f815185597db12eb4b5183f993d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 110/110] fix: SSO uses at least two centers

---
 smote_variants/oversampling/_sso.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index 10aa861..6f46659 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -267,7 +267,9 @@ class SSO(OverSampling):
                                                     vectors
         """
         # applying kmeans clustering to find the hidden neurons
-        h = min([self.h, len(X_min)])  # pylint: disable=invalid-name
+        # the spread of a center is the distance from its nearest neighbor,
+        # thus, at least two centers are needed
+        h = max([2, min([self.h, len(X_min)])])  # pylint: disable=invalid-name
         kmeans = KMeans(n_clusters=h, n_init='auto', random_state=self._random_state_init)
         kmeans.fit(X)
 
-- 
2.43.0

