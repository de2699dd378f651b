From 15c9231c044805a9a92a47125707c35cfe50cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:00 +0000
Subject: [PATCH 01/95] fix: set_error_id_local stores what get_error_id_local
 returns

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b4543b8..9837d30 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -624,7 +624,7 @@ class sample_set_base(object):
         :param error_id: array of error identifiers
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
-        self._error_local = error_id
+        self._error_id_local = error_id
 
     def get_error_id_local(self):
         """
-- 
2.43.0


From 7d12d35a864842b94d729fce25d051353cdaeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:00 +0000
Subject: [PATCH 02/95] fix: normalize_domain no longer normalises arrays that
 share memory twice

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9837d30..e8c8985 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -354,7 +354,7 @@ class sample_set_base(object):
             for obj in rescale_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val *= (self._domain[:, 1] - self._domain[:, 0])
+                    val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
@@ -365,7 +365,7 @@ class sample_set_base(object):
             for obj in shift_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val -= self._domain[:, 0]
+                    val = val - self._domain[:, 0]
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
-- 
2.43.0


From 466c12b0946d48822399d5eede41578cd51dc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:00 +0000
Subject: [PATCH 03/95] fix: discretization.global_to_local localises the
 emulated output set

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index e8c8985..5b99047 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2846,4 +2846,4 @@ class discretization(object):
         if self._emulated_input_sample_set is not None:
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
-            self._emulated_output_sample_set.global_to_local
+            self._emulated_output_sample_set.global_to_local()
-- 
2.43.0


From 17fcfbb676b0c425df5e4f4219d437ce34e2084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:13 +0000
Subject: [PATCH 04/95] fix: a Voronoi query rebuilds its tree when the values
 have changed

---
 bet/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 5b99047..d39f01f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1403,7 +1403,8 @@ class voronoi_sample_set(sample_set_base):
         :rtype: tuple
         :returns: (dist, ptr)
         """
-        if self._kdtree is None:
+        if self._kdtree is None or (self._values is not None and not
+                                    np.array_equal(self._kdtree.data, self._values)):
             self.set_kdtree()
         else:
             self.check_num()
-- 
2.43.0


From 2f54f34eda44b52a89c2b3b5a3fa3e4ca228b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:13 +0000
Subject: [PATCH 05/95] fix: voronoi marginal PDF is evaluated at the
 coordinates of its own index

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index d39f01f..3b1150c 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -153,7 +153,7 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         logging.warning("Using kernel density estimate to estimate marginal PDF.")
         sam_set = prob_parameters
         kde = gaussian_kde(sam_set.get_values()[:, i], weights=sam_set.get_probabilities())
-        return kde(vals.T)
+        return kde(x)
     else:
         raise wrong_input("This type of probability density is not yet supported.")
 
-- 
2.43.0


From 2b2c346d589d8202be42ae0bf8c7f15dd4db6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:13 +0000
Subject: [PATCH 06/95] fix: exact_volume_1D works for a single sample

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 3b1150c..a7e82c2 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1425,7 +1425,7 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 1D domains.")
 
         # sort the samples
-        sort_ind = np.squeeze(np.argsort(self._values, 0))
+        sort_ind = np.argsort(self._values[:, 0])
         sorted_samples = self._values[sort_ind]
         domain_width = self._domain[:, 1] - self._domain[:, 0]
 
@@ -1437,7 +1437,7 @@ class voronoi_sample_set(sample_set_base):
                                 [self._domain[:, 1]]))
         # calculate difference between right and left of each cell
         # and renormalize
-        sorted_lam_vol = np.squeeze(edges[1:, :] - edges[:-1, :])
+        sorted_lam_vol = (edges[1:, :] - edges[:-1, :])[:, 0]
         lam_vol = np.zeros(sorted_lam_vol.shape)
         lam_vol[sort_ind] = sorted_lam_vol
         lam_vol = lam_vol / domain_width
-- 
2.43.0


From e8661869f2300a19bd3d998a2349b12e5771457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 07/95] fix: equality of sample sets and discretizations
 compares contents without raising

---
 bet/sample.py | 74 +++++++++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a7e82c2..4b1c123 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -62,6 +62,39 @@ class wrong_input(Exception):
     Exception for when the input is of the wrong type.
     """
 
+def equal_fields(first, second):
+    """
+    Compare two attributes of a sample set or discretization by their contents, where an array is
+    never equal to an attribute that is not set and NaNs (as in the remainder of a
+    :class:`~bet.sample.ball_sample_set`) are equal to each other.
+
+    :param first: first attribute
+    :param second: second attribute
+    :return: True for equality and False for not
+    :rtype: bool
+    """
+    from scipy.stats import gaussian_kde
+    if isinstance(first, np.ndarray) or isinstance(second, np.ndarray):
+        if first is None or second is None or np.shape(first) != np.shape(second):
+            return False
+        first, second = np.asarray(first), np.asarray(second)
+        return bool(np.all((first == second) | ((first != first) & (second != second))))
+    elif first is None or second is None:
+        return first is second
+    elif type(first) is not type(second):
+        return not isinstance(first, sample_set_base) and bool(first == second)
+    elif isinstance(first, (list, tuple)):
+        return len(first) == len(second) and all(map(equal_fields, first, second))
+    elif isinstance(first, dict):
+        return first.keys() == second.keys() and \
+            all(equal_fields(first[key], second[key]) for key in first)
+    elif isinstance(first, gaussian_kde):
+        return all(equal_fields(getattr(first, name), getattr(second, name))
+                   for name in ('dataset', 'weights', 'covariance'))
+    else:
+        return bool(first == second)
+
+
 def evaluate_pdf(prob_type, prob_parameters, vals):
     """
     Evaluate the probability density function defined by `prob_type` and `prob_parameters`
@@ -302,29 +335,8 @@ class sample_set_base(object):
         if self.__class__ == other.__class__:
             fields = self.meta_fields
             for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif field == "_cluster_maps":
-                    cluster_maps = getattr(self, field)
-                    cluster_maps_other = getattr(other, field)
-                    if type(cluster_maps_other) != type(cluster_maps):
-                        return False
-                    if type(cluster_maps) is list:
-                        for k in range(len(cluster_maps)):
-                            if not np.array_equal(cluster_maps[k], cluster_maps_other[k]):
-                                return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if type(compare) is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
+                if not equal_fields(getattr(self, field), getattr(other, field)):
+                    return False
             return True
         else:
             raise TypeError('Comparing object is not of the same type.')
@@ -2314,20 +2326,8 @@ class discretization(object):
         if self.__class__ == other.__class__:
             fields = self.sample_set_names + self.vector_names
             for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if compare is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
+                if not equal_fields(getattr(self, field), getattr(other, field)):
+                    return False
             return True
         else:
             raise TypeError('Comparing object is not of the same type.')
-- 
2.43.0


From 7caa98e2deae5999f7d4c08689c4a1faedbbd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:21 +0000
Subject: [PATCH 08/95] fix: pointers of a discretization do not outlive the
 sets they point between

---
 bet/calculateP/calculateP.py | 2 +-
 bet/sample.py                | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 210b42e..53c173d 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -38,7 +38,7 @@ def prob_on_emulated_samples(discretization, globalize=True):
     discretization._emulated_input_sample_set.check_num()
 
     # Check for necessary properties
-    if discretization._io_ptr_local is None:
+    if discretization._io_ptr_local is None or discretization._io_ptr is None:
         discretization.set_io_ptr(globalize=True)
     if discretization._emulated_ii_ptr_local is None:
         discretization.set_emulated_ii_ptr(globalize=False)
diff --git a/bet/sample.py b/bet/sample.py
index 4b1c123..201d43a 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2524,6 +2524,7 @@ class discretization(object):
         """
         if isinstance(input_sample_set, sample_set_base):
             self._input_sample_set = input_sample_set
+            self._emulated_ii_ptr = self._emulated_ii_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2549,6 +2550,7 @@ class discretization(object):
         """
         if isinstance(output_sample_set, sample_set_base):
             self._output_sample_set = output_sample_set
+            self._io_ptr = self._io_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2613,7 +2615,10 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
-        if self._output_sample_set._values_local is not None:
+        self._io_ptr = self._io_ptr_local = None
+        self._emulated_oo_ptr = self._emulated_oo_ptr_local = None
+        if self._output_sample_set is not None and \
+                self._output_sample_set._values_local is not None:
             if output_probability_set._values is not None:
                 self.set_io_ptr(globalize=False)
 
@@ -2653,6 +2658,7 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._emulated_oo_ptr = self._emulated_oo_ptr_local = None
 
     def get_emulated_input_sample_set(self):
         """
@@ -2686,6 +2692,7 @@ class discretization(object):
                 self._emulated_input_sample_set = emulated_input_sample_set
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._emulated_ii_ptr = self._emulated_ii_ptr_local = None
 
     def estimate_input_volume_emulated(self):
         """
-- 
2.43.0


From 08a0e7969ab5138a161667e3aab94547e590df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:21 +0000
Subject: [PATCH 09/95] fix: prob and prob_from_* use volumes and probabilities
 that are only set globally

---
 bet/calculateP/calculateP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 53c173d..dfbac08 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -86,7 +86,8 @@ def prob(discretization, globalize=True):
         discretization.set_io_ptr(globalize=False)
 
     # Calculate Probabilities
-    if discretization._input_sample_set._values_local is None:
+    if discretization._input_sample_set._values_local is None or \
+            discretization._input_sample_set._volumes_local is None:
         discretization._input_sample_set.global_to_local()
     P_local = np.zeros((len(discretization._io_ptr_local),))
     for i in range(op_num):
@@ -228,7 +229,7 @@ def prob_from_sample_set(set_old, set_new):
         raise samp.dim_not_matching("Dimensions of sets are not equal.")
 
     # Map old points new sets
-    if set_old._values_local is None:
+    if set_old._values_local is None or set_old._probabilities_local is None:
         set_old.global_to_local()
     (_, ptr) = set_new.query(set_old._values_local)
     ptr = ptr.flat[:]
@@ -269,7 +270,7 @@ def prob_from_discretization_input(disc, set_new):
     else:
         em_set = disc._emulated_input_sample_set
 
-    if em_set._values_local is None:
+    if em_set._values_local is None or em_set._probabilities_local is None:
         em_set.global_to_local()
     if em_set._probabilities_local is None:
         raise AttributeError("Probabilities must be pre-calculated.")
-- 
2.43.0


From 33a5d8bf909058a60d43552ecbe23a2515b408d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:30 +0000
Subject: [PATCH 10/95] fix: rectangle and ball queries with k > 2 return every
 cell at most once

---
 bet/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 201d43a..a453d9d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2007,6 +2007,7 @@ class rectangle_sample_set(sample_set_base):
                         np.not_equal(pt[:, j - 1], i))
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
@@ -2178,6 +2179,7 @@ class ball_sample_set(sample_set_base):
                         np.not_equal(pt[:, j - 1], i))
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
-- 
2.43.0


From 7754d0a3c41670f581d750d32bf1aea71f8adcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:52 +0000
Subject: [PATCH 11/95] fix: estimating radii works when a cell receives no
 Monte Carlo point

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a453d9d..4367c72 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1589,7 +1589,7 @@ class voronoi_sample_set(sample_set_base):
         for i in range(num):
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1), initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1651,7 +1651,7 @@ class voronoi_sample_set(sample_set_base):
             vol[i] = np.sum(np.equal(emulate_ptr, i))
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1), initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
-- 
2.43.0


From 7228ed230cac5023094764bbc494d240b7e46cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:53 +0000
Subject: [PATCH 12/95] fix: estimate_local_volume measures pairwise distances
 in the p-norm of the set

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 4367c72..01648b7 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1729,11 +1729,11 @@ class voronoi_sample_set(sample_set_base):
         if np.sum(sample_radii <= 0) > 0:
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
-                pairwise_distance = spatial.distance.pdist(samples,
+                pairwise_distance = spatial.distance.pdist(samples, 'minkowski',
                                                            p=self._p_norm)
             else:
                 pairwise_distance = spatial.distance.pdist(samples,
-                                                           p='chebyshev')
+                                                           'chebyshev')
             pairwise_distance = spatial.distance.squareform(pairwise_distance)
             pairwise_distance_ma = np.ma.masked_less_equal(pairwise_distance,
                                                            0.)
-- 
2.43.0


From 55c4c0d2e45d8dafb27e7a472eb0499b58ed0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:33 +0000
Subject: [PATCH 13/95] fix: simple functions drop pointers to the output
 probability set they replace

---
 bet/calculateP/simpleFunP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index af76e47..7fde4be 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -249,7 +249,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     different set of parameter samples and model solves.
     '''
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -420,7 +420,7 @@ def regular_partition_uniform_distribution_rectangle_size(data_set, Q_ref=None,
     s_set.set_probabilities(prob)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -551,7 +551,7 @@ def uniform_partition_uniform_distribution_data_samples(data_set):
     s_set.set_probabilities(np.ones((num,), dtype=np.float) / num)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -648,7 +648,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -733,7 +733,7 @@ def uniform_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -840,6 +840,6 @@ def user_partition_user_distribution(data_set, data_partition_set,
     s_set.set_probabilities(rho_D_M)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
-- 
2.43.0


From 65428a57a49098e87d720040cd823bb8e4b721be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:44 +0000
Subject: [PATCH 14/95] fix: a uniform partition accepts rect_size as the list
 it documents

---
 bet/calculateP/simpleFunP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 7fde4be..e8ea479 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -172,8 +172,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
 
     if rect_size is None:
         raise wrong_argument_type("Rectangle size required.")
-    elif not isinstance(rect_size, collections.abc.Iterable):
-        rect_size = rect_size * np.ones((dim,))
+    rect_size = rect_size * np.ones((dim,))
     if np.any(np.less_equal(rect_size, 0)):
         msg = 'rect_size must be greater than 0'
         raise wrong_argument_type(msg)
-- 
2.43.0


From dc37812c63ada05595d7e57d23a582a25f99b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:44 +0000
Subject: [PATCH 15/95] fix: normal simple functions take the dimension of an
 array data_set

---
 bet/calculateP/simpleFunP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index e8ea479..31fc556 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -29,6 +29,8 @@ def check_type(val, data_set=None):
         dim = data_set._output_sample_set.get_dim()
     elif isinstance(data_set, samp.sample_set_base):
         dim = data_set.get_dim()
+    elif isinstance(data_set, np.ndarray) and data_set.ndim > 1:
+        dim = data_set.shape[1]
     else:
         dim = 1
     if isinstance(val, float) or isinstance(val, int):
-- 
2.43.0


From 64e79d2b774870bb969fe01f5630e067887cb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:44 +0000
Subject: [PATCH 16/95] fix: bins of a normal partition get the mass of the
 normal distribution in them

---
 bet/calculateP/simpleFunP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 31fc556..c79c449 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -640,8 +640,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     cvolumes = np.copy(volumes)
     comm.Allreduce([volumes, MPI.DOUBLE], [cvolumes, MPI.DOUBLE], op=MPI.SUM)
     volumes = cvolumes
-    rho_D_M = count_neighbors.astype(np.float64) * volumes
-    rho_D_M = rho_D_M / np.sum(rho_D_M)
+    rho_D_M = count_neighbors.astype(np.float64) / float(num_d_emulate)
     s_set.set_probabilities(rho_D_M)
     s_set.set_volumes(volumes)
 
-- 
2.43.0


From 0f7de6359f51cf9db7f456814244e6afcae32026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 17/95] fix: the PDF of a Voronoi set uses its current global
 or local probabilities

---
 bet/sample.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 01648b7..b980fbf 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -948,11 +948,13 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._densities_local is None:
-                if self._volumes_local is None:
-                    logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
-                    self.estimate_volume_mc(globalize=False)
-                self.set_densities_local(self._probabilities_local/self._volumes_local)
+            if self._probabilities_local is None or \
+                    (self._volumes_local is None and self._volumes is not None):
+                self.global_to_local()
+            if self._volumes_local is None:
+                logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+                self.estimate_volume_mc(globalize=False)
+            self.set_densities_local()
             self.local_to_global()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
-- 
2.43.0


From 6c4f204031e175f8d70a8606c3b7bc5e60d06125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 18/95] fix: local densities scale volume fractions by the
 volume of the domain

---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b980fbf..fe34da6 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1182,8 +1182,12 @@ class sample_set_base(object):
         else:
             msg = "Setting densities with probability/volume."
             logging.warning(msg)
+            if self._domain is None:
+                total_vol = 1.0
+            else:
+                total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
-            vols = self._volumes_local
+            vols = self._volumes_local * total_vol
             self._densities_local = probs / vols
 
     def get_densities_local(self):
-- 
2.43.0


From 44699d77948a7ca92307bee5413ce0891a19aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 19/95] fix: density-based inversion tolerates cluster labels
 that no sample has

---
 bet/calculateP/calculateR.py | 8 ++++++--
 bet/sample.py                | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 05bf6cb..144442f 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -187,6 +187,8 @@ def invert_rejection_sampling(discretization, bw_method=None):
     discretization.get_input_sample_set().local_to_global()
     new_vals = []
     for i in range(num_clusters):
+        if r[i] is None:
+            continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
@@ -309,7 +311,8 @@ def invert_to_multivariate_gaussian(discretization, bw_method=None):
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     mean, cov = weighted_mean_and_cov(params, total_weights)
     means = [mean]
     covariances = [cov]
@@ -380,7 +383,8 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     total_weights = np.round(num_reweighted * total_weights/np.sum(total_weights)).astype(int)
     reweighted_vals = np.repeat(params, total_weights, axis=0)
 
diff --git a/bet/sample.py b/bet/sample.py
index fe34da6..36318af 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -126,6 +126,8 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         mar = np.zeros((vals.shape[0],))
         num_clusters = len(cluster_weights)
         for i in range(num_clusters):
+            if means[i] is None:
+                continue
             mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
         return mar
     elif prob_type == "voronoi":
@@ -164,7 +166,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         num_clusters = len(cluster_weights)
         mar = np.zeros(x.shape[0])
         for j in range(num_clusters):
-            mar += param_marginals[i][j](x) * cluster_weights[j]
+            if param_marginals[i][j] is not None:
+                mar += param_marginals[i][j](x) * cluster_weights[j]
         return mar
     elif prob_type == "rv":
         import scipy.stats as stats
@@ -179,6 +182,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         mar = np.zeros(x.shape)
         num_clusters = len(cluster_weights)
         for j in range(num_clusters):
+            if means[j] is None:
+                continue
             mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
         return mar
     elif prob_type == 'voronoi':
-- 
2.43.0


From 2eb68d01286a3888a89373ed56c7a374ea132d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 20/95] fix: KDEs of cluster maps exist when there is a single
 cluster

---
 bet/calculateP/calculateR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 144442f..943180b 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -48,7 +48,7 @@ def generate_output_kdes(discretization, bw_method=None):
     obs_kdes = []
     for i in range(num_clusters):
         if predict_set.get_cluster_maps() is not None:
-            if len(predict_set.get_cluster_maps()) > 1:
+            if len(predict_set.get_cluster_maps()[i]) > 1:
                 if predict_set.get_weights_init() is None:
                     predict_kdes.append(gaussian_kde(predict_set.get_cluster_maps()[i].T, bw_method=bw_method))
                 else:
@@ -71,7 +71,7 @@ def generate_output_kdes(discretization, bw_method=None):
                 predict_kdes.append(None)
 
         if obs_set.get_cluster_maps() is not None:
-            if len(obs_set.get_cluster_maps()) > 1:
+            if len(obs_set.get_cluster_maps()[i]) > 1:
                 obs_kdes.append(gaussian_kde(obs_set.get_cluster_maps()[i].T, bw_method=bw_method))
             else:
                 obs_kdes.append(None)
-- 
2.43.0


From 0cc077a14299e57313e236d352b7a6b29fd53d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 21/95] fix: fitted shape parameters carry the names their
 distribution uses

---
 bet/calculateP/calculateR.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 943180b..276d636 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -393,18 +393,9 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
         pp = [rv[i][0], {}]
         rv_continuous = getattr(stats, rv[i][0])
         A = rv_continuous.fit(reweighted_vals[:, i], **rv[i][1])
-        if len(A) == 2:
-            pp[1]['loc'] = A[0]
-            pp[1]['scale'] = A[1]
-        elif len(A) == 3:
-            pp[1]['a'] = A[0]
-            pp[1]['loc'] = A[1]
-            pp[1]['scale'] = A[2]
-        elif len(A) == 4:
-            pp[1]['a'] = A[0]
-            pp[1]['b'] = A[1]
-            pp[1]['loc'] = A[2]
-            pp[1]['scale'] = A[3]
+        if len(A) in (2, 3, 4):
+            shapes = rv_continuous.shapes.split(', ') if rv_continuous.shapes else []
+            pp[1].update(zip(shapes + ['loc', 'scale'], A))
         else:
             raise bet.sample.wrong_input("Type of random variable is not currently supported.")
         prob_params.append(pp)
-- 
2.43.0


From be9b250c2ef73279e9705522e9cf4ea400b005c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 22/95] fix: discretizations localise and globalise their
 observed set

---
 bet/sample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 36318af..93e844f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2852,6 +2852,8 @@ class discretization(object):
             self._emulated_input_sample_set.local_to_global()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.local_to_global()
+        if self._output_observed_set is not None:
+            self._output_observed_set.local_to_global()
 
     def global_to_local(self):
         """
@@ -2868,3 +2870,5 @@ class discretization(object):
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.global_to_local()
+        if self._output_observed_set is not None:
+            self._output_observed_set.global_to_local()
-- 
2.43.0


From ee5f9fe1cdee28d4a3452db0fa3eafea00cbe52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 23/95] fix: clipping and merging a discretization keep its
 observed set

---
 bet/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 93e844f..ce36758 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2760,7 +2760,8 @@ class discretization(object):
                               output_sample_set=co,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=self._emulated_input_sample_set,
-                              emulated_output_sample_set=self._emulated_output_sample_set)
+                              emulated_output_sample_set=self._emulated_output_sample_set,
+                              output_observed_set=self._output_observed_set)
 
     def merge(self, disc):
         """
@@ -2784,7 +2785,8 @@ class discretization(object):
                               output_sample_set=mo,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=mei,
-                              emulated_output_sample_set=meo)
+                              emulated_output_sample_set=meo,
+                              output_observed_set=self._output_observed_set)
 
     def choose_inputs_outputs(self,
                               inputs=None,
-- 
2.43.0


From 764a351e55a1d94430589b4de75a620cf90804af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 24/95] fix: discretizations without emulated sets can be
 merged

---
 bet/sample.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index ce36758..a437587 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2776,10 +2776,16 @@ class discretization(object):
         """
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
-        mei = self._emulated_input_sample_set.merge(disc.
-                                                    _emulated_input_sample_set)
-        meo = self._emulated_output_sample_set.merge(disc.
-                                                     _emulated_output_sample_set)
+        mei = self._emulated_input_sample_set
+        if mei is None:
+            mei = disc._emulated_input_sample_set
+        elif disc._emulated_input_sample_set is not None:
+            mei = mei.merge(disc._emulated_input_sample_set)
+        meo = self._emulated_output_sample_set
+        if meo is None:
+            meo = disc._emulated_output_sample_set
+        elif disc._emulated_output_sample_set is not None:
+            meo = meo.merge(disc._emulated_output_sample_set)
 
         return discretization(input_sample_set=mi,
                               output_sample_set=mo,
-- 
2.43.0


From e99bc8fc2df8082adbf12843aafb3ff08e4c581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 25/95] fix: choose_inputs_outputs keeps every index it is not
 asked to slice

---
 bet/sample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index a437587..1ca59c8 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2811,6 +2811,11 @@ class discretization(object):
                       '_error_estimates', '_error_estimates_local']
         slice_list2 = ['_jacobians', '_jacobians_local']
 
+        if inputs is None:
+            inputs = list(range(self._input_sample_set.get_dim()))
+        if outputs is None:
+            outputs = list(range(self._output_sample_set.get_dim()))
+
         input_ss = sample_set(len(inputs))
         output_ss = sample_set(len(outputs))
         input_ss.set_p_norm(self._input_sample_set._p_norm)
-- 
2.43.0


From b262dd2940a7fdd7a2eb1352ff9ad3fa75c10447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 26/95] fix: merging sample sets keeps the p-norm that defines
 their cells

---
 bet/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/sample.py b/bet/sample.py
index 1ca59c8..803e91b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1832,6 +1832,7 @@ class voronoi_sample_set(sample_set_base):
 
         # create merged set
         mset = voronoi_sample_set(self._dim)
+        mset.set_p_norm(self._p_norm)
 
         # set domain
         if self._domain is not None:
-- 
2.43.0


From bc7a678d96bd49a0acdf2aebf131f4b5f8521ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:01 +0000
Subject: [PATCH 27/95] fix: clipping a sample set clips its weights and its
 arrays that are only local

---
 bet/sample.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 803e91b..f4ca575 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -721,8 +721,13 @@ class sample_set_base(object):
         sset.check_num()
         if sset._values is None:
             sset.local_to_global()
-        for array_name in self.array_names:
+        for array_name in self.array_names + ['_weights', '_weights_init']:
             current_array = getattr(sset, array_name)
+            if current_array is None and \
+                    getattr(sset, array_name + '_local', None) is not None:
+                current_array = util.get_global_values(
+                    getattr(sset, array_name + '_local'))
+                setattr(sset, array_name + '_local', None)
             if current_array is not None:
                 new_array = current_array[0:cnum]
                 setattr(sset, array_name, new_array)
-- 
2.43.0


From b2e61e7f48efeb52dda94aae147197bffb0ca356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 28/95] fix: the reference value is mapped by the model like
 any other sample

---
 bet/sampling/basicSampling.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index efb0f48..30d859a 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -492,19 +492,12 @@ class sampler(object):
 
         if lam_ref is not None:
             try:
-                if not isinstance(lam_ref, collections.abc.Iterable):
-                    lam_ref = np.array([lam_ref])
-                Q_ref = self.lb_model(lam_ref)
-                output_sample_set.set_reference_value(Q_ref)
+                q_ref = self.lb_model(np.reshape(lam_ref, (1, -1)))
+                if isinstance(q_ref, tuple):
+                    q_ref = q_ref[0]
+                output_sample_set.set_reference_value(np.reshape(q_ref, (output_dim,)))
             except ValueError:
-                try:
-                    msg = "Model not mapping reference value as expected."
-                    msg += "Attempting reshape..."
-                    logging.log(20, msg)
-                    q_ref = self.lb_model(lam_ref.reshape(1, -1))
-                    output_sample_set.set_reference_value(q_ref)
-                except ValueError:
-                    logging.log(20, 'Unable to map reference value.')
+                logging.log(20, 'Unable to map reference value.')
 
         if self.error_estimates:
             output_sample_set.set_error_estimates_local(local_output_ee)
-- 
2.43.0


From 1f2ff9b8a581085a9b2196af64e7e121d8bbf405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 29/95] fix: all processes split one Latin hypercube design

---
 bet/sampling/basicSampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 30d859a..88e8fd0 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -223,7 +223,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     # update the bounds based on the number of samples
     input_sample_set.update_bounds(num_samples)
     input_values = np.copy(input_sample_set._width)
-    input_values = input_values * lhs(dim, num_samples, criterion)
+    design = lhs(dim, num_samples, criterion) if comm.rank == 0 else None
+    input_values = input_values * comm.bcast(design, root=0)
     input_values = input_values + input_sample_set._left
     input_sample_set.set_values_local(np.array_split(input_values, comm.size)[comm.rank])
 
-- 
2.43.0


From f48d28cf6569f7a3a144e9dc9c94f3dcb2928bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 30/95] fix: samples from KDE marginals are transposed whatever
 their number

---
 bet/sampling/basicSampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 88e8fd0..ff6cd4b 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -63,7 +63,7 @@ def sample_from_updated(input_set, num_samples, globalize=True):
             for j in range(input_set.get_dim()):
                 v_inner.append(param_marginals[j][i].resample(num_samples_local))
             v_outer.append(np.vstack(v_inner))
-        vals_local = np.hstack(v_outer)
+        vals_local = np.hstack(v_outer).transpose()
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('kde')
         new_set.set_prob_parameters_init((param_marginals, cluster_weights))
-- 
2.43.0


From 42559ac66dac933a9536486ce2e4833d53e66e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 31/95] fix: Gaussian mixtures can be sampled in one dimension
 and one sample at a time

---
 bet/sampling/basicSampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index ff6cd4b..6484103 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -77,7 +77,8 @@ def sample_from_updated(input_set, num_samples, globalize=True):
             num_samples_clust = round(w * num_samples)
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
+            vals = stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local)
+            v_outer.append(np.reshape(vals, (num_samples_local, input_set.get_dim())))
         vals_local = np.vstack(v_outer)
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('gmm')
-- 
2.43.0


From 70b245285e717691e1975b86e7981e2865d14499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 32/95] fix: resampling a clustered measure returns the number
 of samples asked for

---
 bet/sampling/basicSampling.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 6484103..80bc5a7 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -30,6 +30,19 @@ class bad_object(Exception):
     """
 
 
+def samples_per_cluster(cluster_weights, num_samples):
+    """
+    Divide a number of samples over clusters in proportion to their weights.
+
+    :param list cluster_weights: weights of the clusters, which sum to 1
+    :param int num_samples: number of samples to divide
+    :rtype: list
+    :returns: number of samples of each cluster, which sum to ``num_samples``
+    """
+    ends = [int(round(end * num_samples)) for end in np.cumsum(cluster_weights)]
+    return [end - start for start, end in zip([0] + ends[:-1], ends)]
+
+
 def sample_from_updated(input_set, num_samples, globalize=True):
     """
     Create a new sample set from resampling from the updated probability measure of another sample set.
@@ -55,9 +68,10 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'kde':
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
+        for i, num_samples_clust in enumerate(samples_per_cluster(cluster_weights, num_samples)):
             v_inner = []
-            num_samples_clust = round(w*num_samples)
+            if num_samples_clust == 0:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             for j in range(input_set.get_dim()):
@@ -73,8 +87,9 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'gmm':
         means, covariances, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
-            num_samples_clust = round(w * num_samples)
+        for i, num_samples_clust in enumerate(samples_per_cluster(cluster_weights, num_samples)):
+            if num_samples_clust == 0:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             vals = stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local)
-- 
2.43.0


From 7ba7b9a822004f431fbe1353366ee3a5a6a9d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 33/95] fix: samplers refuse improper objects and model outputs
 with bad_object

---
 bet/sampling/basicSampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 80bc5a7..51cf9ab 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -228,6 +228,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     elif isinstance(input_obj, np.ndarray):
         input_sample_set = sample.sample_set(input_obj.shape[0])
         input_sample_set.set_domain(input_obj)
+    else:
+        raise bad_object("Improper sample object")
 
     dim = input_sample_set.get_dim()
     if input_sample_set.get_domain() is None:
@@ -494,6 +496,8 @@ class sampler(object):
             elif len(local_output) == 3:
                 (local_output_values, local_output_ee, local_output_jac) = \
                     local_output
+            else:
+                raise bad_object("lb_model is not returning the proper number of outputs")
         else:
             raise bad_object("lb_model is not returning the proper type")
 
-- 
2.43.0


From 3fa09cc1371e30de422fbcaf2ec3c0a6748f745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:27 +0000
Subject: [PATCH 34/95] fix: load_object finds parallel files in other
 directories

---
 bet/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index ca0f49e..a97bb64 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -269,7 +269,8 @@ def load_object(file_name, localize=False):
     if file_name.startswith('proc_'):
         # logging.warning("Avoid starting filenames with 'proc_'. Unable to localize.")
         localize = False
-    elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
+    elif not os.path.exists(file_name+'.p') and os.path.exists(
+            os.path.join(os.path.dirname(file_name), 'proc0_'+os.path.basename(file_name)+'.p')):
         return load_object_parallel(file_name)
     loaded_set = pickle.load(open(file_name+'.p', "rb"))
     if localize:
-- 
2.43.0


From 06a4ea3e4ee1c3315e2fb8a63041ad6877fafc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:27 +0000
Subject: [PATCH 35/95] fix: load_object_parallel counts the files of its own
 object only

---
 bet/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index a97bb64..8b40749 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -289,8 +289,10 @@ def load_object_parallel(file_name):
     """
     save_dir = os.path.dirname(file_name)
     base_name = os.path.basename(file_name)
-    files = glob.glob(os.path.join(save_dir, "proc*_{}".format(base_name+'.p')))
-    if len(files) == comm.size:
+    num_files = 0
+    while os.path.exists(os.path.join(save_dir, "proc{}_{}.p".format(num_files, base_name))):
+        num_files += 1
+    if num_files == comm.size:
         logging.info("Loading sample set using parallel files (same nproc)")
         # if the number of processors is the same then set mdat to
         # be the one with the matching processor number (doesn't
-- 
2.43.0


From 4ec90cb20ccc15c8c6fe47dc59133e621aea9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:27 +0000
Subject: [PATCH 36/95] fix: only one process writes the file of a globalized
 object

---
 bet/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index 8b40749..48a457b 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -249,7 +249,8 @@ def save_object(save_set, file_name, globalize=True):
     if globalize:
         save_set.local_to_global()
     comm.barrier()
-    pickle.dump(save_set, open(local_file_name + '.p', "wb"))
+    if comm.rank == 0 or not globalize:
+        pickle.dump(save_set, open(local_file_name + '.p', "wb"))
     comm.barrier()
     return local_file_name
 
-- 
2.43.0


From 8c14a4789118de9167079e9a60694d8327131386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 37/95] fix: normalising the domain rescales the widths of the
 cells

---
 bet/sample.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index f4ca575..3408be4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -374,6 +374,12 @@ class sample_set_base(object):
                     val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val / (self._domain[:, 1] - self._domain[:, 0])
+                    setattr(self, obj, val)
+
             shift_list = ['_values', '_values_local',
                           '_error_estimates', '_error_estimates_local',
                           '_left', '_left_local',
@@ -413,6 +419,14 @@ class sample_set_base(object):
                          self._domain_original[:, 0])
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val * \
+                        (self._domain_original[:, 1] -
+                         self._domain_original[:, 0])
+                    setattr(self, obj, val)
+
             shift_list = ['_values', '_values_local',
                           '_error_estimates', '_error_estimates_local',
                           '_left', '_left_local',
-- 
2.43.0


From 2f9a3f660af0654e174397fecfd484da733c1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:10 +0000
Subject: [PATCH 38/95] fix: rejection sampling accepts the same samples on
 every process

---
 bet/calculateP/calculateR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 276d636..a69c95d 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -13,6 +13,7 @@ to update an initial density on the parameter space.
 
 """
 import bet.sample
+from bet.Comm import comm
 import numpy as np
 import logging
 
@@ -190,6 +191,7 @@ def invert_rejection_sampling(discretization, bw_method=None):
         if r[i] is None:
             continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
+        check = comm.bcast(check, root=0)  # every process accepts the same samples
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
         new_vals.append(discretization.get_input_sample_set().get_values()[lam_ptr[i][idx]])
-- 
2.43.0


From 7988276f01f0b2c876a8229008567d5fa6ed2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:13 +0000
Subject: [PATCH 39/95] fix: scatter works without mpi4py on current Pythons

---
 bet/Comm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index 0934aec..ca69d71 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -5,7 +5,7 @@ This module provides a workaround for people without mpi4py installed
 to run BET.
 """
 
-import collections
+import collections.abc
 
 
 class comm_for_no_mpi4py(object):
@@ -94,7 +94,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
-        if isinstance(val1, collections.Iterable) and len(val1) == 1:
+        if isinstance(val1, collections.abc.Iterable) and len(val1) == 1:
             val1 = val1[0]
         return val1
 
-- 
2.43.0


From ae2d896729b71768287f522025bdc8fcbb212973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 40/95] fix: singular matrices have an infinite condition
 number and keep their singular values

---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 82b12f1..df3aa39 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -184,9 +184,8 @@ def calculate_avg_condnum(input_set, qoi_set=None):
     if np.sum(indz) == singvals.shape[0]:
         hmean_condnum = np.inf
     else:
-        singvals[indz, 0] = np.inf
-        singvals[indz, -1] = 1
-        condnums = singvals[:, 0] / singvals[:, -1]
+        condnums = np.inf * np.ones((singvals.shape[0],))
+        condnums[~indz] = singvals[~indz, 0] / singvals[~indz, -1]
         hmean_condnum = stats.hmean(condnums)
 
     return hmean_condnum, singvals
-- 
2.43.0


From 4ec62a43a4bbdb60e3622a45f5998904bf6c4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 41/95] fix: singular values of the optimal QoIs stay with
 their sets on several processes

---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index df3aa39..31c3ea7 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -327,14 +327,13 @@ def chooseOptQoIs_verbose(input_set, qoiIndices=None, num_qois_return=None,
     # Gather the best sets and skewness values from each processor
     measure_skewness_indices_mat = np.array(comm.gather(
         measure_skewness_indices_mat, root=0))
-    optsingvals_tensor = np.array(comm.gather(optsingvals_tensor, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness values from all processors
     if comm.rank == 0:
         measure_skewness_indices_mat = measure_skewness_indices_mat.reshape(
             num_optsets_return * comm.size, num_qois_return + 1)
-        optsingvals_tensor = optsingvals_tensor.reshape(num_centers,
-                                                        num_qois_return, num_optsets_return * comm.size)
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
         order = measure_skewness_indices_mat[:, 0].argsort()
 
         measure_skewness_indices_mat = measure_skewness_indices_mat[order]
-- 
2.43.0


From 7c17deb2a3458589c3c621d38406396e13dce515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 42/95] fix: find_good_sets keeps sets of equal quality and
 their singular values

---
 bet/sensitivity/chooseQoIs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 31c3ea7..8884d3f 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -540,6 +540,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     # Gather the best sets and skewness values from each processor
     good_sets = comm.gather(good_sets, root=0)
     best_sets = np.array(comm.gather(best_sets, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
     count_qois = np.array(comm.gather(count_qois, root=0))
 
     # Find the num_optsets_return smallest skewness from all processors
@@ -548,10 +549,9 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         # Organize the best sets
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
-        [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
-        best_sets = best_sets[uniq_inds_best, :]
-        best_sets = best_sets[best_sets[:, 0].argsort()]
-        best_sets = best_sets[:num_optsets_return, :]
+        order = best_sets[:, 0].argsort(kind='mergesort')[:num_optsets_return]
+        best_sets = best_sets[order, :]
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)[:, :, order]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
@@ -567,6 +567,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     comm.Barrier()
     best_sets = comm.bcast(best_sets, root=0)
     good_sets = comm.bcast(good_sets, root=0)
+    optsingvals_tensor = comm.bcast(optsingvals_tensor, root=0)
 
     return (good_sets[1:].astype(int), best_sets, optsingvals_tensor)
 
-- 
2.43.0


From be63d0aadc3e9d79dc68cec4e63cb7ec0cd0f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 43/95] fix: radial basis functions are chosen by the value of
 the kernel's name

---
 bet/sensitivity/gradients.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index bb83a34..d953fe3 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -229,13 +229,13 @@ def radial_basis_function(r, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbf = (1 + (ep * r) + (ep * r)**2 / 3) * np.exp(-ep * r)
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbf = np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbf = (1 + (ep * r)**2)**(0.5)
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbf = 1 / ((1 + (ep * r)**2)**(0.5))
     else:
         raise ValueError("The kernel chosen is not currently available.")
@@ -264,13 +264,13 @@ def radial_basis_function_dxi(r, xi, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbfdxi = -2 * ep**2 * xi * np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbfdxi = (ep**2 * xi) / ((1 + (ep * r)**2)**(0.5))
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbfdxi = -(ep**2 * xi) / ((1 + (ep * r)**2)**(1.5))
     else:
         raise ValueError("The kernel chosen is not currently available")
-- 
2.43.0


From f004d234cd5c691065bb6d76fd3b01d10fb85cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 44/95] fix: RBF gradients use the shape parameter in the
 interpolation conditions too

---
 bet/sensitivity/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index d953fe3..e1ccd71 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -350,7 +350,7 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Solve for the rbf weights using interpolation conditions and
         # evaluate the partial derivatives
         rbf_mat_values = \
-            np.linalg.solve(radial_basis_function(distMat, RBF),
+            np.linalg.solve(radial_basis_function(distMat, RBF, ep),
                             radial_basis_function_dxi(r, diffVec, RBF, ep)
                             .transpose()).transpose()
 
-- 
2.43.0


From d681f7de926f60c9cc4cabf72b6d58040c555613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 45/95] fix: RBF gradients measure distances in the norm of the
 basis functions

---
 bet/sensitivity/gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index e1ccd71..032b847 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -335,13 +335,14 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
     # then evaluate the partial derivative of that interpolant at the desired
     # point.
     for c in range(num_centers):
-        # Find the k nearest neighbors and their distances to centers[c,:]
-        [r, nearest] = cluster_discretization._input_sample_set.query(
+        # Find the k nearest neighbors to centers[c,:]
+        [_, nearest] = cluster_discretization._input_sample_set.query(
             centers[c, :], k=num_neighbors)
-        r = np.tile(r, (input_dim, 1))
 
-        # Compute the linf distances to each of the nearest neighbors
+        # Compute the differences in each dimension and the l2 distances to
+        # each of the nearest neighbors
         diffVec = (centers[c, :] - samples[nearest, :]).transpose()
+        r = np.tile(np.linalg.norm(diffVec, axis=0), (input_dim, 1))
 
         # Compute the l2 distances between pairs of nearest neighbors
         distMat = spatial.distance_matrix(
-- 
2.43.0


From 59d3f94201d19cac609fe96f523da3b62680a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 46/95] fix: centered differences return the outputs of the
 centers

---
 bet/sensitivity/gradients.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 032b847..95407b5 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -512,7 +512,8 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
     radii_vec = util.fix_dimensions_vector_2darray(radii_vec.diagonal())
 
     # Clean the data
-    data = util.clean_data(data[num_centers:])
+    data = util.clean_data(data)
+    cluster_data = data[num_centers:]
     gradient_tensor = np.zeros([num_centers, output_dim, input_dim])
 
     radii_vec = np.tile(np.repeat(radii_vec, output_dim, axis=1), [num_centers,
@@ -523,7 +524,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
                      input_dim) + np.tile(np.arange(0, input_dim), num_centers)
     inds = np.array([inds, inds + input_dim]).transpose()
 
-    gradient_mat = (data[inds[:, 0]] - data[inds[:, 1]]) * (0.5 / radii_vec)
+    gradient_mat = (cluster_data[inds[:, 0]] - cluster_data[inds[:, 1]]) * (0.5 / radii_vec)
 
     # Reshape and organize
     gradient_tensor = np.reshape(gradient_mat.transpose(), [output_dim,
-- 
2.43.0


From 1585403b09fd7e8ff921717047d12abacaceb153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 47/95] fix: clean_data leaves the data it is given unchanged

---
 bet/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/util.py b/bet/util.py
index 48a457b..9cf0af9 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -219,6 +219,7 @@ def clean_data(data):
     :returns: array of shape (data.shape)
 
     """
+    data = np.array(data)
     data[np.isnan(data)] = 0.0
     data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
 
-- 
2.43.0


From a10e9988c8567bffe1b1479f87dc8147960c57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 48/95] fix: the Lp generalized normal for p = inf is uniform
 on the box

---
 bet/sampling/LpGeneralizedSamples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/sampling/LpGeneralizedSamples.py b/bet/sampling/LpGeneralizedSamples.py
index 0dabc95..e8a4e38 100644
--- a/bet/sampling/LpGeneralizedSamples.py
+++ b/bet/sampling/LpGeneralizedSamples.py
@@ -31,8 +31,12 @@ def Lp_generalized_normal(dim, num, p=2, scale=1.0, loc=None):
     num = int(num)
     dim = int(dim)
     p = float(p)
-    z = np.random.gamma(1. / p, scale=scale, size=(num, dim))
-    z = np.abs(z)**(1. / p)
+    if not np.isinf(p):
+        z = np.random.gamma(1. / p, scale=scale, size=(num, dim))
+        z = np.abs(z)**(1. / p)
+    else:
+        # the limit is uniform on [-1, 1] in every dimension
+        z = np.random.random((num, dim))
     samples = z * np.sign(np.random.randn(num, dim))
     if loc is not None:
         samples = samples + loc
-- 
2.43.0


From f7680bf8bcf02754d6a8106eb63d8743bc9003d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:19 +0000
Subject: [PATCH 49/95] fix: neighbours of one-dimensional cells are the
 adjacent samples

---
 bet/calculateP/calculateError.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index eb87b01..6f3fbe7 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -62,8 +62,8 @@ def cell_connectivity_exact(disc):
         disc.set_io_ptr()
 
     if disc._input_sample_set._dim == 1:
-        # Adding contours on the left
-        s_sort = disc._input_sample_set._values.flat[:].argsort()
+        # Adding contours on the left, s_sort is the rank of each sample
+        s_sort = disc._input_sample_set._values.flat[:].argsort().argsort()
         neiList = defaultdict(set)
         for p in range(num):
             order = s_sort[p]
-- 
2.43.0


From da02906b1c0c3c0650a643de2ed4d0952985b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:19 +0000
Subject: [PATCH 50/95] fix: cell connectivity works with current SciPy

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 6f3fbe7..92a39c2 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -78,7 +78,7 @@ def cell_connectivity_exact(disc):
 
         # Find neighbors
         neiList = defaultdict(set)
-        for p in tri.vertices:
+        for p in tri.simplices:
             for i, j in itertools.combinations(p, 2):
                 neiList[i].add(disc._io_ptr[j])
                 neiList[j].add(disc._io_ptr[i])
-- 
2.43.0


From 6461794f2a82a6ddaa34427c57821820dc6b8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:19 +0000
Subject: [PATCH 51/95] fix: sampling error bounds of contour events do not
 depend on earlier calls

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 92a39c2..7a1408e 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -212,7 +212,7 @@ class sampling_error(object):
                 lam_vol = np.zeros((self.num,))
                 indices = np.equal(self.disc._io_ptr, i)
                 lam_vol[indices] = self.disc._input_sample_set._volumes[indices]
-                if i in self.B_N:
+                if len(self.B_N[i]) > 0:
                     # val1 = :math:`\mu_{\Lambda}(B_{i,N})`
                     val1 = np.sum(self.disc._input_sample_set._volumes[self.
                                                                        B_N[i]])
-- 
2.43.0


From 784f8901cd33bbccf553da421ab3d47d3da2b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:19 +0000
Subject: [PATCH 52/95] fix: the error of a region is infinite, as with MC,
 when a contour event is empty

---
 bet/calculateP/calculateError.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 7a1408e..9cf1c6c 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -533,8 +533,11 @@ class model_error(object):
                 JiAe = comm.allreduce(JiAe_local, op=MPI.SUM)
                 Jie_local = float(np.sum(in_Ai2))
                 Jie = comm.allreduce(Jie_local, op=MPI.SUM)
-                er_est += self.disc._output_probability_set._probabilities[i]\
-                    * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
+                if Ji * Jie == 0:
+                    er_est += np.inf
+                else:
+                    er_est += self.disc._output_probability_set._probabilities[i]\
+                        * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
 
         return er_est
 
-- 
2.43.0


From d24058601a14b31109ad5217279e60774cf2318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 53/95] fix: error estimates use volumes that are only local

---
 bet/calculateP/calculateError.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 9cf1c6c..acdaae6 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -196,7 +196,9 @@ class sampling_error(object):
         low_list = []
         # Check for and possibly calculate volumes
         if self.disc._input_sample_set._volumes is None:
-            if self.disc._emulated_input_sample_set is not None:
+            if self.disc._input_sample_set._volumes_local is not None:
+                self.disc._input_sample_set.local_to_global()
+            elif self.disc._emulated_input_sample_set is not None:
                 logging.warning("Using emulated points to estimate volumes.")
                 self.disc._input_sample_set.estimate_volume_emulated(self.
                                                                      disc._emulated_input_sample_set)
@@ -412,7 +414,9 @@ class model_error(object):
         """
         # Calculate volumes if necessary
         if self.disc._input_sample_set._volumes is None:
-            if self.disc._emulated_input_sample_set is not None:
+            if self.disc._input_sample_set._volumes_local is not None:
+                self.disc._input_sample_set.local_to_global()
+            elif self.disc._emulated_input_sample_set is not None:
                 logging.warning("Using emulated points to estimate volumes.")
                 self.disc._input_sample_set.estimate_volume_emulated(self.
                                                                      disc._emulated_input_sample_set)
-- 
2.43.0


From bd98bbe80ef08b7bb39d9e2476b1b2b710fe5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 54/95] fix: piecewise linear surrogates extrapolate in the
 direction of the samples

---
 bet/surrogates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 47faff8..1e6364c 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -96,9 +96,9 @@ class piecewise_polynomial_surrogate(object):
 
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
-            diff_local = self.input_disc._input_sample_set._values[
-                self.dummy_disc._emulated_ii_ptr_local] - \
-                input_sample_set._values_local
+            diff_local = input_sample_set._values_local - \
+                self.input_disc._input_sample_set._values[
+                    self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
             new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
-- 
2.43.0


From 450b78d4918c5e092af1a059710e5affb5878c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 55/95] fix: sorting by density keeps every sample of positive
 probability

---
 bet/postProcess/postTools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 251aeea..046337c 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -54,11 +54,12 @@ def sort_by_rho(sample_set):
     else:
         raise bad_object("Improper sample object")
 
-    nnz = np.sum(P_samples > 0)
     if lam_vol is None:
-        indices = np.argsort(P_samples)[::-1][0:nnz]
+        indices = np.argsort(P_samples)[::-1]
     else:
-        indices = np.argsort(P_samples / lam_vol)[::-1][0:nnz]
+        indices = np.argsort(P_samples / lam_vol)[::-1]
+    # keep the samples of positive probability
+    indices = indices[P_samples[indices] > 0]
     P_samples = P_samples[indices]
     samples = samples[indices, :]
     if lam_vol is not None:
-- 
2.43.0


From 9b6eb20d50b332815eb08b0057af5249a2e67d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 56/95] fix: samples can be selected by probability without
 sorting

---
 bet/postProcess/postTools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 046337c..8e87e17 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -137,6 +137,8 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
             P_samples = sample_set.get_probabilities()
             lam_vol = sample_set.get_volumes()
             data = None
+    else:
+        indices = np.arange(P_samples.shape[0])
     if descending:
         P_samples = P_samples[::-1]
         samples = samples[::-1]
@@ -147,7 +149,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(np.logical_and(0.0 < P_sum, P_sum <= percentile))
+    num_samples = np.sum(P_sum <= percentile)
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From 3757092156bfc4cc16b511fdaf129c0916899047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 57/95] fix: total variation distances work with current SciPy

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 6e47517..da1d0a7 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -165,7 +165,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
         elif functional in ['norm']:
@@ -248,7 +248,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(pdfs1, pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-- 
2.43.0


From d8d005271bcc1e5b489c9753588f596cff6774cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 58/95] fix: comparison points fill the box containing both
 sets in every direction

---
 bet/postProcess/compareP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index da1d0a7..3398e1c 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -106,8 +106,9 @@ class compare:
                 rv_loc = ['uniform', {}]
                 delt = compare_factor * (maxes[i] - mins[i])
                 rv_loc[1]['loc'] = mins[i] - delt
-                rv_loc[1]['scale'] = maxes[i] - mins[i] + delt
-            unif_set = bsam.random_sample_set(rv=rv_loc, input_obj=self.set1.get_dim(),
+                rv_loc[1]['scale'] = maxes[i] - mins[i] + 2.0 * delt
+                rv.append(rv_loc)
+            unif_set = bsam.random_sample_set(rv=rv, input_obj=self.set1.get_dim(),
                                               num_samples=compare_set)
             self.compare_vals = unif_set.get_values()
         else:
-- 
2.43.0


From 76d29b5afb3ab6b95d440ce341f67b32102c19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 59/95] fix: distances are evaluated at the current comparison
 points

---
 bet/postProcess/compareP.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 3398e1c..0284207 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -82,6 +82,9 @@ class compare:
             0 by default.
         :type compare_factor: float
         """
+        # Densities at earlier comparison points are not valid anymore.
+        self.pdfs1 = None
+        self.pdfs2 = None
         # Extract values to evaluate the probability measures.
         if isinstance(compare_set, samp.sample_set):
             if compare_set.get_dim() == self.set1.get_dim():
-- 
2.43.0


From 48824cc9283d074404852954266d9cd1415d1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 60/95] fix: normalized distances leave the evaluated densities
 as they are

---
 bet/postProcess/compareP.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 0284207..a3ce895 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -160,31 +160,33 @@ class compare:
         if self.pdfs1 is None or self.pdfs2 is None:
             self.evaluate_pdfs()
         if normalize:
-            self.pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
-            self.pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
+            pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
+            pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
             factor = 1.0
         else:
-            factor = 1.0 / (self.pdfs1.shape[0])
+            pdfs1 = self.pdfs1
+            pdfs2 = self.pdfs2
+            factor = 1.0 / (pdfs1.shape[0])
 
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
+            dist = factor * ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-            dist = factor * ds.norm(self.pdfs1 - self.pdfs2, **kwargs)
+            dist = factor * ds.norm(pdfs1 - pdfs2, **kwargs)
         elif functional in ['euclidean', '2-norm', '2']:
-            dist = (factor ** 0.5) * ds.minkowski(self.pdfs1, self.pdfs2, 2, **kwargs)
+            dist = (factor ** 0.5) * ds.minkowski(pdfs1, pdfs2, 2, **kwargs)
         elif functional in ['sqhell', 'sqhellinger']:
-            dist = factor * ds.sqeuclidean(np.sqrt(self.pdfs1), np.sqrt(self.pdfs2)) / 2.0
+            dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
             return np.sqrt(self.distance('sqhell'))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
-            dist = kl_div(self.pdfs1, self.pdfs2, **kwargs)
+            dist = kl_div(pdfs1, pdfs2, **kwargs)
         else:
-            dist = functional(self.pdfs1, self.pdfs2, **kwargs)
+            dist = functional(pdfs1, pdfs2, **kwargs)
         return dist
 
     def distance_marginal(self, i, interval=None, num_points=1000, compare_factor=0.0, normalize=False,
-- 
2.43.0


From 49ff7fa63fb259421d9a84a4998ed1f965a62e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 61/95] fix: the Hellinger distance honours normalize

---
 bet/postProcess/compareP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index a3ce895..574eed2 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -181,7 +181,7 @@ class compare:
         elif functional in ['sqhell', 'sqhellinger']:
             dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
-            return np.sqrt(self.distance('sqhell'))
+            return np.sqrt(self.distance('sqhell', normalize=normalize))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
             dist = kl_div(pdfs1, pdfs2, **kwargs)
-- 
2.43.0


From 6c247c2d14448bdb6da51e74e088d733d7458a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 62/95] fix: marginals are compared on an interval containing
 both domains

---
 bet/postProcess/compareP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 574eed2..8071259 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -221,8 +221,8 @@ class compare:
         x = None
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
@@ -301,8 +301,8 @@ class compare:
         from scipy.integrate import quadrature
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
-- 
2.43.0


From 992f6d7ae60fcb688e6734140122d4cc853712c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 63/95] fix: marginals of sets with different numbers of
 samples can be compared

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 8071259..12d3903 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -227,7 +227,7 @@ class compare:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
             if x is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
@@ -307,7 +307,7 @@ class compare:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
             if interval is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
-- 
2.43.0


From a073daa45d4f993018a8695c3d7d56c6871ab7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 64/95] fix: smoothing does not displace marginals

---
 bet/postProcess/plotP.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 26fe098..b93771f 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -380,7 +380,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft, fft
+    from scipy.fftpack import fftfreq, ifft, fft
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -390,16 +390,13 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         nx = len(bins[i]) - 1
         dx = bins[i][1] - bins[i][0]
         augx = int(math.ceil(3 * sigma[i] / dx))
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        kernel = np.exp(-(x_kernel / sigma[i])**2)
-        aug_kernel = np.zeros((nx + 2 * augx,))
+        # kernel at the distances between bins, centered at the first entry
+        x_kernel = fftfreq(nx + 2 * augx, 1.0 / ((nx + 2 * augx) * dx))
+        aug_kernel = np.exp(-(x_kernel / sigma[i])**2)
         aug_marginals = np.zeros((nx + 2 * augx,))
 
-        aug_kernel[augx:augx + nx] = kernel
         aug_marginals[augx:augx + nx] = marginals[i]
 
-        aug_kernel = fftshift(aug_kernel)
-
         aug_marginals_smooth = np.real(
             ifft(fft(aug_kernel) * fft(aug_marginals)))
         marginals_smooth[i] = aug_marginals_smooth[augx:augx + nx]
@@ -422,7 +419,7 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft2, fft2
+    from scipy.fftpack import fftfreq, ifft2, fft2
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -437,19 +434,16 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         augx = int(math.ceil(3 * sigma[i] / dx))
         augy = int(math.ceil(3 * sigma[j] / dy))
 
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        y_kernel = np.linspace(-ny * dy / 2, ny * dy / 2, ny)
+        # kernel at the distances between bins, centered at the first entry
+        x_kernel = fftfreq(nx + 2 * augx, 1.0 / ((nx + 2 * augx) * dx))
+        y_kernel = fftfreq(ny + 2 * augy, 1.0 / ((ny + 2 * augy) * dy))
         X, Y = np.meshgrid(x_kernel, y_kernel, indexing='ij')
 
-        kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
-        aug_kernel = np.zeros((nx + 2 * augx, ny + 2 * augy))
+        aug_kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
         aug_marginals = np.zeros((nx + 2 * augx, ny + 2 * augy))
 
-        aug_kernel[augx:augx + nx, augy:augy + ny] = kernel
         aug_marginals[augx:augx + nx, augy:augy + ny] = marginals[(i, j)]
 
-        aug_kernel = fftshift(aug_kernel, 0)
-        aug_kernel = fftshift(aug_kernel, 1)
         aug_marginals_smooth = ifft2(fft2(aug_kernel) * fft2(aug_marginals))
         aug_marginals_smooth = np.real(aug_marginals_smooth)
         marginals_smooth[(i, j)] = aug_marginals_smooth[augx:augx + nx,
-- 
2.43.0


From 512d77240eb91657119e1b7218797e197e4d1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 65/95] fix: surface plots of marginals work with current
 matplotlib

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index b93771f..dfcc407 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -340,7 +340,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
                 fig = plt.figure(k)
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
                 X, Y = np.meshgrid(X, Y, indexing='ij')
-- 
2.43.0


From 9346aaa74965f747d8d8878128c0c242fd63916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 66/95] fix: marginal densities are plotted at the number of
 points asked for

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index dfcc407..47ca2f4 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -641,7 +641,7 @@ def plot_1d_marginal_densities(sets, i, interval=None, num_points=1000, label=No
             if max1 > x_max:
                 x_max = max1
         delt = 0.25 * (x_max - x_min)
-        x = np.linspace(x_min - delt, x_max + delt, 100)
+        x = np.linspace(x_min - delt, x_max + delt, num_points)
     else:
         x = np.linspace(interval[0], interval[1], num_points)
 
-- 
2.43.0


From c5c31569adebfba486fb6a20189aa774dc00241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 67/95] fix: one-dimensional Voronoi plots show the probability
 of each cell

---
 bet/postProcess/plotVoronoi.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 82a429a..30d6061 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -85,10 +85,9 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         lam_ref = sample_obj._reference_value
 
     # Form 1D Voronoi
-    ind_sort = np.argsort(sample_obj._values, axis=0)
-    ends = 0.5 * (sample_obj._values[ind_sort]
-                  [1::] + sample_obj._values[ind_sort][0:-1])
-    ends = ends[:, 0, 0]
+    ind_sort = np.argsort(sample_obj._values[:, 0])
+    values_sort = sample_obj._values[ind_sort, 0]
+    ends = 0.5 * (values_sort[1::] + values_sort[0:-1])
     mins = np.array([sample_obj._domain[0][0]] + list(ends))
     maxes = np.array(list(ends) + [sample_obj._domain[0][1]])
 
@@ -97,10 +96,10 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig = plt.figure(0, constrained_layout=True)
         if density:
             plt.hlines(
-                sample_obj._probabilities[ind_sort[0]] / (maxes - mins), mins, maxes)
+                sample_obj._probabilities[ind_sort] / (maxes - mins), mins, maxes)
             plt.ylabel(r'$\rho_{\lambda}$', fontsize=20)
         else:
-            plt.hlines(sample_obj._probabilities[ind_sort[0]], mins, maxes)
+            plt.hlines(sample_obj._probabilities[ind_sort], mins, maxes)
             plt.ylabel(r'$P_{\Lambda}(\mathcal{V}_i)$', fontsize=20)
 
         if lam_ref is not None:
-- 
2.43.0


From 88813d8e652d955f276aeaca38e169cecc1435d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 68/95] fix: Voronoi plots label both axes

---
 bet/postProcess/plotVoronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 30d6061..56d5e4a 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -207,7 +207,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
             label2 = r'$\lambda_2$'
         else:
             label1 = lambda_label[0]
-            label1 = lambda_label[1]
+            label2 = lambda_label[1]
         plt.xlabel(label1, fontsize=20)
         plt.ylabel(label2, fontsize=20)
 
-- 
2.43.0


From adbefdcea8de1199bdb389858766fff9216543ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 69/95] fix: Voronoi plots do not draw over earlier ones

---
 bet/postProcess/plotVoronoi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 56d5e4a..f103715 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -114,6 +114,8 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close()
 
 
 def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
@@ -226,6 +228,8 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close()
 
 
 def voronoi_finite_polygons_2d(vor, radius=None):
-- 
2.43.0


From 769472ff16a4ef8c2c03e67793034b109aabdc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 70/95] fix: three-dimensional scatter plots of discretizations

---
 bet/postProcess/plotDomains.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 0b5688e..5b2660e 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -393,9 +393,9 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_input(sample_obj, sample_nos, color,
-                     ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                     filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
@@ -454,9 +454,9 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_output(sample_obj, sample_nos, color,
-                      ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                      filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
-- 
2.43.0


From 3e72195294003c069a87c30bafe308b958d4e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 71/95] fix: scatter plots of all pairs of coordinates of
 discretizations

---
 bet/postProcess/plotDomains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 5b2660e..3193936 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -912,7 +912,7 @@ def scatter_2D_multi(sample_obj, color=None, ref_sample=None,
 
 def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
                            img_folder='figs/', filename="scatter2Dm_input",
-                           label_char=r'$\lambda', showdim=None, file_extension=".png"):
+                           label_char=r'$\lambda', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
@@ -947,6 +947,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
+    cbar_label = None
     if color is "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
@@ -1006,6 +1007,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
+    cbar_label = None
     if color is "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-- 
2.43.0


From ddfb609ba22399b289085ec8bf2e0eb2eb5fb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 72/95] fix: data domains are only saved when asked

---
 bet/postProcess/plotDomains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 3193936..a0ad3e0 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -797,8 +797,9 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
     else:
         full_filenames1 = filenames[1]
 
-    plt.savefig(full_filenames0, bbox_inches='tight', transparent=True,
-                pad_inches=.2)
+    if save:
+        plt.savefig(full_filenames0, bbox_inches='tight', transparent=True,
+                    pad_inches=.2)
     # Add truth markers
     if Q_ref is not None:
         for i in range(Q_ref.shape[0]):
-- 
2.43.0


From ff64f2f803adefec48ac2adc57716dba2903b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:33 +0000
Subject: [PATCH 73/95] fix: values of the wrong dimension do not replace those
 of the set

---
 bet/sample.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 3408be4..46fa3e2 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -849,9 +849,10 @@ class sample_set_base(object):
         :type values: :class:`numpy.ndarray` of shape (num, dim)
 
         """
-        self._values = util.fix_dimensions_data(values, self._dim)
-        if self._values.shape[1] != self._dim:
+        values = util.fix_dimensions_data(values, self._dim)
+        if values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values = values
 
     def get_values(self):
         """
@@ -1120,10 +1121,11 @@ class sample_set_base(object):
         :type values_local: :class:`numpy.ndarray` of shape (local_num, dim)
 
         """
-        self._values_local = util.fix_dimensions_data(values_local, self._dim)
-        if len(self._values_local.shape) > 1 and \
-                self._values_local.shape[1] != self._dim:
+        values_local = util.fix_dimensions_data(values_local, self._dim)
+        if len(values_local.shape) > 1 and \
+                values_local.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values_local = values_local
 
     def set_kdtree(self):
         """
-- 
2.43.0


From 6b6fa8b3be7f786f250450760610163414ce9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:33 +0000
Subject: [PATCH 74/95] fix: a domain without exactly two bounds per dimension
 is refused

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 46fa3e2..e26880f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -872,7 +872,7 @@ class sample_set_base(object):
         :type domain: :class:`numpy.ndarray` of shape (dim, 2)
 
         """
-        if (domain.shape[0], 2) != (self._dim, 2):
+        if domain.shape != (self._dim, 2):
             raise dim_not_matching("dimension of values incorrect")
         else:
             self._domain = domain
-- 
2.43.0


From f455c91afa72c961f1eb91dd92b834a766a36dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:48 +0000
Subject: [PATCH 75/95] fix: fix_dimensions_domain takes domains of several
 dimensions as lists

---
 bet/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 9cf0af9..3f99a1f 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -161,11 +161,8 @@ def fix_dimensions_domain(domain):
 
     """
     if not isinstance(domain, np.ndarray):
-        if len(domain) == 2:
-            domain = np.expand_dims(domain, axis=0)
-        else:
-            raise TypeError("The length must be at least 2.")
-    elif len(domain.shape) == 1 and domain.shape[0] == 2:
+        domain = np.array(domain)
+    if len(domain.shape) == 1 and domain.shape[0] == 2:
         domain = np.expand_dims(domain, axis=0)
     elif len(domain.shape) == 2 and domain.shape[1] == 2:
         pass  # The shape is already correct!
-- 
2.43.0


From be66315dc7baa23e933a888c7a57460c9898be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:57 +0000
Subject: [PATCH 76/95] fix: the bounding box of a set is that of the values it
 has now

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index e26880f..23ad7bf 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -837,7 +837,7 @@ class sample_set_base(object):
         """
         Get the bounding box of the values.
         """
-        if self._bounding_box is None:
+        if self._bounding_box is None or self._values is not None:
             self.set_bounding_box()
         return self._bounding_box
 
-- 
2.43.0


From 100bc2efe50cedcf04ccf2a90eaf7a62f000ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:16 +0000
Subject: [PATCH 77/95] fix: the names of colors in scatter plots need not be
 the same string object

---
 bet/postProcess/plotDomains.py | 60 +++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index a0ad3e0..7802e7d 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -169,19 +169,19 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -228,19 +228,19 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -377,19 +377,19 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -438,19 +438,19 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -949,19 +949,19 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
     sample_obj = my_disc.get_input_sample_set()
 
     cbar_label = None
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -1009,19 +1009,19 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
     sample_obj = my_disc.get_output_sample_set()
 
     cbar_label = None
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-- 
2.43.0


From 137d522fbe19e3f5251ff3bb15bdb51d02b0469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:36 +0000
Subject: [PATCH 78/95] fix: color bar labels of normalized radii can be
 typeset

---
 bet/postProcess/plotDomains.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 7802e7d..7725951 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -179,7 +179,7 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
@@ -238,7 +238,7 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
@@ -387,7 +387,7 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
@@ -448,7 +448,7 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
@@ -959,7 +959,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
@@ -1019,7 +1019,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color in ("error_id", "error id"):
         cbar_label = 'error id'
-- 
2.43.0


From 61e9367170bf0f8203156bf50e7a21938dccbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 79/95] fix: queries see values that were changed in place

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 23ad7bf..79571a1 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1131,7 +1131,7 @@ class sample_set_base(object):
         """
         Creates a :class:`scipy.spatial.KDTree` for this set of samples.
         """
-        self._kdtree = spatial.KDTree(self._values)
+        self._kdtree = spatial.KDTree(np.copy(self._values))
         self._kdtree_values = self._kdtree.data
 
     def get_kdtree(self):
-- 
2.43.0


From ec8fed731c7cfb787dbf6c6d5c576357b3e2d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:40 +0000
Subject: [PATCH 80/95] fix: small domains that differ are not merged

---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 79571a1..b835d91 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1847,7 +1847,11 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching(msg)
         # check domain
         if self._domain is not None and sset._domain is not None:
-            if not np.allclose(self._domain, sset._domain):
+            # relative to the extent of the domain, which may be tiny
+            tol = 1e-8 * min(1.0, np.min(self._domain[:, 1] -
+                                         self._domain[:, 0]))
+            if not np.allclose(self._domain, sset._domain, rtol=1e-8,
+                               atol=tol):
                 msg = "These sample sets have different domains."
                 raise domain_not_matching(msg)
 
-- 
2.43.0


From 36b87ddeaae33560c888b2a81cd11b133f3be927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:18 +0000
Subject: [PATCH 81/95] fix: zero gradients make a set of QoIs infinitely
 skewed

---
 bet/sensitivity/chooseQoIs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 8884d3f..4a88da5 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -138,6 +138,10 @@ def calculate_avg_skewness(input_set, qoi_set=None):
     # to begin with, so skewness is infinity.
     skewgi[normgiperp == np.inf] = np.inf
 
+    # A zero vector is never GD from the rest, even if the singular values
+    # computed for it are only zero up to rounding.
+    skewgi[np.any(normgi == 0, axis=1)] = np.inf
+
     # The local skewness is the max skewness of each vector relative the rest
     skewG = np.max(skewgi, axis=1)
     skewG[np.isnan(skewG)] = np.inf
-- 
2.43.0


From dd2a79b45ee5e4a66b78f7d35cbdd14cb4d837fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 82/95] fix: pointers set locally leave no stale global
 pointers behind

---
 bet/sample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index b835d91..c5310b2 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2432,6 +2432,8 @@ class discretization(object):
 
         if globalize:
             self._io_ptr = util.get_global_values(self._io_ptr_local)
+        else:
+            self._io_ptr = None
 
     def get_io_ptr(self):
         """
@@ -2472,6 +2474,8 @@ class discretization(object):
         if globalize:
             self._emulated_ii_ptr = util.get_global_values(
                 self._emulated_ii_ptr_local)
+        else:
+            self._emulated_ii_ptr = None
 
     def get_emulated_ii_ptr(self):
         """
@@ -2513,6 +2517,8 @@ class discretization(object):
         if globalize:
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
+        else:
+            self._emulated_oo_ptr = None
 
     def get_emulated_oo_ptr(self):
         """
-- 
2.43.0


From fc12ef7bdcce8f84b5e80a2225c82037e2a1e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:54 +0000
Subject: [PATCH 83/95] fix: a set normalised twice can still be restored

---
 bet/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index c5310b2..6cf9a7c 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -392,8 +392,12 @@ class sample_set_base(object):
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
-            self._domain_original = np.copy(self._domain)
-            self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
+            unit_domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
+            # normalizing again keeps the original domain to return to
+            if self._domain_original is None or \
+                    not np.array_equal(self._domain, unit_domain):
+                self._domain_original = np.copy(self._domain)
+            self._domain = unit_domain
 
     def undo_normalize_domain(self):
         """
-- 
2.43.0


From 5652b770baa4a1d2be85f4a9489960e236f6576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:53 +0000
Subject: [PATCH 84/95] fix: Voronoi plots cover all of the domain, also for
 few or collinear samples

---
 bet/postProcess/plotVoronoi.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index f103715..82a61a2 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -180,9 +180,17 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
 
     # Form Voronoi
     if comm.rank == 0:
-        vor = Voronoi(sample_obj._values)
-        regions, vertices = voronoi_finite_polygons_2d(vor)
+        # Surround the samples and the domain by far away points, so that the
+        # cells of the samples are bounded and cover all of the domain.
         points = sample_obj._values
+        corners = np.vstack((points, np.transpose(sample_obj._domain)))
+        center = 0.5 * (corners.min(axis=0) + corners.max(axis=0))
+        far = 10.0 * np.max(corners.max(axis=0) - corners.min(axis=0))
+        far_points = center + far * np.array([[1.0, 0.0], [-1.0, 0.0],
+                                              [0.0, 1.0], [0.0, -1.0]])
+        vor = Voronoi(np.vstack((points, far_points)))
+        regions, vertices = voronoi_finite_polygons_2d(vor)
+        regions = regions[:points.shape[0]]
 
         # Make plot
         fig = plt.figure(0, constrained_layout=True)
-- 
2.43.0


From 5d4ece9dcf3994a0d1af057dac1f61b4540b3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:01 +0000
Subject: [PATCH 85/95] fix: a dot in the folder name does not drop the file
 extension of a plot

---
 bet/postProcess/plotDomains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 7725951..f781523 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -119,7 +119,7 @@ def scatter_2D(sample_obj, sample_nos=None, color=None, ref_sample=None,
         plt.autoscale(tight=True)
         plt.xlabel(xlabel)
         plt.ylabel(ylabel)
-        if "." not in filename:
+        if "." not in os.path.basename(filename):
             full_filename = filename + file_extension
         else:
             full_filename = filename
@@ -325,7 +325,7 @@ def scatter_3D(sample_obj, sample_nos=None, color=None, ref_sample=None,
     ax.set_ylabel(ylabel)
     ax.set_zlabel(zlabel)
     if save:
-        if "." not in filename:
+        if "." not in os.path.basename(filename):
             full_filename = filename + file_extension
         else:
             full_filename = filename
@@ -787,12 +787,12 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
     plt.xlabel(xlabel)
     plt.ylabel(ylabel)
 
-    if "." not in filenames[0]:
+    if "." not in os.path.basename(filenames[0]):
         full_filenames0 = filenames[0] + file_extension
     else:
         full_filenames0 = filenames[0]
 
-    if "." not in filenames[1]:
+    if "." not in os.path.basename(filenames[1]):
         full_filenames1 = filenames[1] + file_extension
     else:
         full_filenames1 = filenames[1]
-- 
2.43.0


From 95e9e098310c7a0905bca2470fed025928e95a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 86/95] fix: scatter_rhoD saves with the file extension it is
 given

---
 bet/postProcess/plotDomains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index f781523..18736be 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -548,7 +548,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
     if sample_obj.get_dim() == 2:
         scatter_2D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 2 and showdim == 2:
         temp_obj = sample.sample_set(2)
         for x, y in combinations(dim_nums, 2):
@@ -559,16 +559,16 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
             if ref_sample is not None:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample[[x - 1, y - 1]], save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
             else:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample, save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
     elif sample_obj.get_dim() == 3:
         zlabel = label_char + r'{' + str(dim_nums[2]) + '}$'
         scatter_3D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, zlabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 3 and showdim == 3:
         temp_obj = sample.sample_set(3)
         for x, y, z in combinations(dim_nums, 3):
-- 
2.43.0


From 87cd1a64bebbbd554a584cb843df6df3b7f0f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 87/95] fix: scatter_rhoD of an output set does not need a
 density

---
 bet/postProcess/plotDomains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 18736be..0ce77b5 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -510,7 +510,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
         else:
             sample_obj = sample_obj._output_sample_set
     elif isinstance(sample_obj, sample.sample_set_base):
-        if io_flag == 'output':
+        if io_flag == 'output' and rho_D is not None:
             rD = rho_D(sample_obj.get_values())
     else:
         raise bad_object("Improper sample object")
-- 
2.43.0


From 81b43e3957a57ba55a98851a3639266c729493aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 88/95] fix: the marginal K-L divergence by quadrature counts
 nothing where the first density vanishes

---
 bet/postProcess/compareP.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 12d3903..6b1f45a 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -345,8 +345,10 @@ class compare:
             return np.sqrt(self.distance_marginal_quad(i, interval, compare_factor=0,
                                                        functional="sqhell", **kwargs))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
+            from scipy.special import rel_entr
+
             def error(x):
-                return pdf1(x, i) * np.log(pdf1(x, i)/pdf2(x, i))
+                return rel_entr(pdf1(x, i), pdf2(x, i))
 
             return quadrature(error, interval[0], interval[1], **kwargs)[0]
         else:
-- 
2.43.0


From c6216d267bfcc01f0081092f6393ec784c87d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:00 +0000
Subject: [PATCH 89/95] fix: clusters without observed data get zero weight
 instead of failing

---
 bet/calculateP/calculateR.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index a69c95d..fc10c7d 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -100,6 +100,7 @@ def invert(discretization, bw_method=None):
     """
     predict_kdes, obs_kdes, num_clusters = generate_output_kdes(discretization, bw_method)
     predict_set = discretization.get_output_sample_set()
+    obs_set = discretization.get_output_observed_set()
 
     rs = []
     r = []
@@ -112,13 +113,14 @@ def invert(discretization, bw_method=None):
             vals = predict_set.get_values()[predict_pointer]
         else:
             vals = predict_set.get_cluster_maps()[i]
-        if len(predict_pointer) > 0:
+        # A cluster without observed data has no observed density, hence no weight.
+        if len(predict_pointer) > 0 and np.any(obs_set.get_region() == i):
             r.append(np.divide(obs_kdes[i](vals.T), predict_kdes[i](vals.T)))
             rs.append((r[i].mean()))
+            weights[predict_pointer] = r[i]
         else:
             r.append(None)
             rs.append(None)
-        weights[predict_pointer] = r[i]
         lam_ptr.append(predict_pointer)
     discretization.get_input_sample_set().set_weights(weights)
     return rs, r, lam_ptr
-- 
2.43.0


From 7c47e62378c9ec8680b6567be96006b967c16bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:24 +0000
Subject: [PATCH 90/95] fix: clipping a set cuts local arrays also when its
 values are only global

---
 bet/sample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 6cf9a7c..8437cec 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -737,6 +737,8 @@ class sample_set_base(object):
         """
         sset = self.copy()
         sset.check_num()
+        any_local = any(getattr(sset, array_name + '_local') is not None
+                        for array_name in self.array_names)
         if sset._values is None:
             sset.local_to_global()
         for array_name in self.array_names + ['_weights', '_weights_init']:
@@ -749,7 +751,7 @@ class sample_set_base(object):
             if current_array is not None:
                 new_array = current_array[0:cnum]
                 setattr(sset, array_name, new_array)
-        if sset._values_local is not None:
+        if any_local:
             sset.global_to_local()
         sset.set_kdtree()
         return sset
-- 
2.43.0


From 6e832154d7c1cacf7b58878451c388baf055ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:51 +0000
Subject: [PATCH 91/95] fix: exact volumes of rectangles and balls replace
 local volumes as well

---
 bet/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 8437cec..46ac22d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2068,6 +2068,7 @@ class rectangle_sample_set(sample_set_base):
         domain_width = self._domain[:, 1] - self._domain[:, 0]
         self._volumes[0:-1] = np.prod(self._width[0:-1] / domain_width, axis=1)
         self._volumes[-1] = 1.0 - np.sum(self._volumes[0:-1])
+        self.global_to_local()
 
 
 class ball_sample_set(sample_set_base):
@@ -2243,6 +2244,7 @@ class ball_sample_set(sample_set_base):
             scipy.special.gamma(1 + float(self._dim) / self._p_norm)
         self._volumes[0:-1] *= 1.0 / domain_vol
         self._volumes[-1] = 1.0 - np.sum(self._volumes[0:-1])
+        self.global_to_local()
 
 
 class cartesian_sample_set(rectangle_sample_set):
-- 
2.43.0


From 7477c4632b0f81b7553af02ee0da2d3f13af0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 92/95] fix: the buffer operations of the stand-in communicator
 left the receive buffer as it was

---
 bet/Comm.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bet/Comm.py b/bet/Comm.py
index ca69d71..90fb4fb 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -6,6 +6,24 @@ to run BET.
 """
 
 import collections.abc
+import numpy as np
+
+
+def _fill(val1, val2):
+    """
+    Copies a send buffer to a receive buffer, as the buffer operations do when
+    there is one process.
+
+    :param object val1: array, or list of an array and its type, to send
+    :param object val2: array, or list of an array and its type, to fill
+
+    """
+    if isinstance(val1, (list, tuple)) and val1:
+        val1 = val1[0]
+    if isinstance(val2, (list, tuple)) and val2:
+        val2 = val2[0]
+    if isinstance(val2, np.ndarray):
+        val2.flat[:np.size(val1)] = np.ravel(val1)
 
 
 class comm_for_no_mpi4py(object):
@@ -106,6 +124,7 @@ class comm_for_no_mpi4py(object):
         :returns: val
 
         """
+        _fill(val, val2)
         return val
 
     def Allreduce(self, val1, val2=None, op=None):
@@ -118,6 +137,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
+        _fill(val1, val2)
         return val1
 
     def Bcast(self, val, root=0):
@@ -141,6 +161,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
+        _fill(val1, val2)
         return val1
 
     def Barrier(self):
-- 
2.43.0


From 42346bdfd257dded2b18e695dd262e9f6df6ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:37 +0000
Subject: [PATCH 93/95] fix: exact 2D volumes of integer samples reflect them
 to the places between integers

---
 bet/sample.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 46ac22d..ad9809e 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1515,7 +1515,7 @@ class voronoi_sample_set(sample_set_base):
                              self._domain[0][0] +
                              side_ratio * (self._domain[0][1] -
                                            self._domain[0][0]))
-        points_new = self._values[add_points, :]
+        points_new = self._values[add_points, :].astype(float)
         points_new[:, 0] = self._domain[0][0] - \
             (points_new[:, 0] - self._domain[0][0])
         new_samp = np.vstack((new_samp, points_new))
@@ -1524,7 +1524,7 @@ class voronoi_sample_set(sample_set_base):
                                 self._domain[0][1] -
                                 side_ratio * (self._domain[0][1] -
                                               self._domain[0][0]))
-        points_new = self._values[add_points, :]
+        points_new = self._values[add_points, :].astype(float)
         points_new[:, 0] = self._domain[0][1] + \
             (-points_new[:, 0] + self._domain[0][1])
         new_samp = np.vstack((new_samp, points_new))
@@ -1533,7 +1533,7 @@ class voronoi_sample_set(sample_set_base):
                              self._domain[1][0] +
                              side_ratio * (self._domain[1][1] -
                                            self._domain[1][0]))
-        points_new = self._values[add_points, :]
+        points_new = self._values[add_points, :].astype(float)
         points_new[:, 1] = self._domain[1][0] - \
             (points_new[:, 1] - self._domain[1][0])
         new_samp = np.vstack((new_samp, points_new))
@@ -1542,7 +1542,7 @@ class voronoi_sample_set(sample_set_base):
                                 self._domain[1][1] -
                                 side_ratio * (self._domain[1][1] -
                                               self._domain[1][0]))
-        points_new = self._values[add_points, :]
+        points_new = self._values[add_points, :].astype(float)
         points_new[:, 1] = self._domain[1][1] + \
             (-points_new[:, 1] + self._domain[1][1])
         new_samp = np.vstack((new_samp, points_new))
-- 
2.43.0


From e90c461961a3a12f13805be8cb86d48fcf4063cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:37 +0000
Subject: [PATCH 94/95] fix: piecewise linear surrogates of integer outputs

---
 bet/surrogates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 1e6364c..dc4495e 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -101,7 +101,8 @@ class piecewise_polynomial_surrogate(object):
                     self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
-            new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
+            new_values_local = new_values_local + \
+                np.einsum('ijk,ik->ij', jac_local, diff_local)
             output_sample_set.set_values_local(new_values_local)
 
         # if they exist, define error estimates with piecewise constants
-- 
2.43.0


From 318dfd5564b14b416f49ef00056a1e1fb1e7ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:37 +0000
Subject: [PATCH 95/95] fix: model errors of integer outputs

---
 bet/calculateP/calculateError.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index acdaae6..699e983 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -397,7 +397,8 @@ class model_error(object):
         # Setup new discretization object adding error estimates
         #: :class:`bet.sample.discretiztion` from adding error estimates
         self.disc_new = disc.copy()
-        self.disc_new._output_sample_set._values_local += self.disc.\
+        self.disc_new._output_sample_set._values_local = self.disc.\
+            _output_sample_set._values_local + self.disc.\
             _output_sample_set._error_estimates_local
         self.disc_new.set_io_ptr(globalize=False)
         self.disc_new._io_ptr = None
-- 
2.43.0

