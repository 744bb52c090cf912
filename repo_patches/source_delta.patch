From 5afb52a3922be4a1161bf40ff2efa99c8c3cc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:08 +0000
Subject: [PATCH 01/66] fix: set_error_id_local stores the local error
 identifiers it is given

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b4543b8..9837d30 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -624,7 +624,7 @@ class sample_set_base(object):
         :param error_id: array of error identifiers
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
-        self._error_local = error_id
+        self._error_id_local = error_id
 
     def get_error_id_local(self):
         """
-- 
2.43.0


From f31c1cba2b3b7b420e7bc6154174bedc058a1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/66] fix: normalize_domain no longer rescales shared
 local/global arrays twice or alters the caller's arrays

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9837d30..e8c8985 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -354,7 +354,7 @@ class sample_set_base(object):
             for obj in rescale_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val *= (self._domain[:, 1] - self._domain[:, 0])
+                    val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
@@ -365,7 +365,7 @@ class sample_set_base(object):
             for obj in shift_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val -= self._domain[:, 0]
+                    val = val - self._domain[:, 0]
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
-- 
2.43.0


From 6c39c385510fae1968e8ef89a404c13dfaa18bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:20 +0000
Subject: [PATCH 03/66] fix: discard the cached search tree and bounding box
 when sample values change

---
 bet/sample.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index e8c8985..8890fd9 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -368,6 +368,7 @@ class sample_set_base(object):
                     val = val - self._domain[:, 0]
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
+            self._reset_value_caches()
 
             self._domain_original = np.copy(self._domain)
             self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
@@ -409,6 +410,7 @@ class sample_set_base(object):
 
                     val = val + self._domain_original[:, 0]
                     setattr(self, obj, val)
+            self._reset_value_caches()
 
             self._domain = np.copy(self._domain_original)
             self._domain_original = None
@@ -632,6 +634,16 @@ class sample_set_base(object):
         """
         return self._error_id_local
 
+    def _reset_value_caches(self):
+        """
+        Discards what was derived from the sample values (search tree and
+        bounding box), to be called whenever the values change.
+        """
+        self._kdtree = None
+        self._kdtree_values = None
+        self._kdtree_values_local = None
+        self._bounding_box = None
+
     def update_bounds(self, num=None):
         """
         Creates ``self._right``, ``self._left``, ``self._width``.
@@ -674,6 +686,7 @@ class sample_set_base(object):
         """
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
+        self._reset_value_caches()
 
     def append_values_local(self, values_local):
         """
@@ -711,6 +724,7 @@ class sample_set_base(object):
                 setattr(sset, array_name, new_array)
         if sset._values_local is not None:
             sset.global_to_local()
+        sset._reset_value_caches()
         sset.set_kdtree()
         return sset
 
@@ -814,6 +828,7 @@ class sample_set_base(object):
 
         """
         self._values = util.fix_dimensions_data(values, self._dim)
+        self._reset_value_caches()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
 
@@ -1233,6 +1248,8 @@ class sample_set_base(object):
             if current_array_local is not None:
                 setattr(self, array_name,
                         util.get_global_values(current_array_local))
+        if self._values_local is not None:
+            self._reset_value_caches()
 
     def query(self, x, k=1):
         """
-- 
2.43.0


From ef9ed629d5a5dfcffba0023a93514c3cd57e3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:50 +0000
Subject: [PATCH 04/66] fix: setting a global array keeps an existing local
 array in step

---
 bet/sample.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8890fd9..fef58ac 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -582,6 +582,7 @@ class sample_set_base(object):
         :type values: :class:`numpy.ndarray` of shape (some_num, dim)
         """
         self._region = region
+        self._update_local('_region')
 
     def get_region(self):
         """
@@ -612,6 +613,7 @@ class sample_set_base(object):
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
         self._error_id = error_id
+        self._update_local('_error_id')
 
     def get_error_id(self):
         """
@@ -644,6 +646,19 @@ class sample_set_base(object):
         self._kdtree_values_local = None
         self._bounding_box = None
 
+    def _update_local(self, array_name):
+        """
+        Brings an existing local array in step with its global array, so that
+        a later :meth:`local_to_global` does not restore outdated entries.
+
+        :param str array_name: name of the global array just changed
+        """
+        if getattr(self, array_name + "_local") is not None:
+            current_array = getattr(self, array_name)
+            if current_array is not None:
+                current_array = np.array_split(current_array, comm.size)[comm.rank]
+            setattr(self, array_name + "_local", current_array)
+
     def update_bounds(self, num=None):
         """
         Creates ``self._right``, ``self._left``, ``self._width``.
@@ -687,6 +702,7 @@ class sample_set_base(object):
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
         self._reset_value_caches()
+        self._update_local('_values')
 
     def append_values_local(self, values_local):
         """
@@ -831,6 +847,7 @@ class sample_set_base(object):
         self._reset_value_caches()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._update_local('_values')
 
     def get_values(self):
         """
@@ -874,6 +891,7 @@ class sample_set_base(object):
 
         """
         self._volumes = volumes
+        self._update_local('_volumes')
 
     def get_volumes(self):
         """
@@ -894,6 +912,7 @@ class sample_set_base(object):
 
         """
         self._probabilities = probabilities
+        self._update_local('_probabilities')
 
     def get_probabilities(self):
         """
@@ -924,6 +943,7 @@ class sample_set_base(object):
             probs = self._probabilities
             vols = self._volumes * total_vol
             self._densities = probs / vols
+        self._update_local('_densities')
 
     def get_densities(self):
         """
@@ -1025,6 +1045,7 @@ class sample_set_base(object):
 
         """
         self._jacobians = jacobians
+        self._update_local('_jacobians')
 
     def get_jacobians(self):
         """
@@ -1052,6 +1073,7 @@ class sample_set_base(object):
         """
         self._jacobians = np.concatenate((self._jacobians, new_jacobians),
                                          axis=0)
+        self._update_local('_jacobians')
 
     def set_error_estimates(self, error_estimates):
         """
@@ -1062,6 +1084,7 @@ class sample_set_base(object):
 
         """
         self._error_estimates = error_estimates
+        self._update_local('_error_estimates')
 
     def get_error_estimates(self):
         """
@@ -1088,6 +1111,7 @@ class sample_set_base(object):
         """
         self._error_estimates = np.concatenate((self._error_estimates,
                                                 new_error_estimates), axis=0)
+        self._update_local('_error_estimates')
 
     def set_values_local(self, values_local):
         """
@@ -1800,8 +1824,8 @@ class voronoi_sample_set(sample_set_base):
 
         # normalize by the volume of the input_domain
         domain_vol = np.sum(self.get_volumes())
-        self.set_volumes(self._volumes / domain_vol)
         self.set_volumes_local(self._volumes_local / domain_vol)
+        self.set_volumes(self._volumes / domain_vol)
 
     def merge(self, sset):
         """
-- 
2.43.0


From 5f57290eb391ef874ba6464b55d897f9964c01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:59 +0000
Subject: [PATCH 05/66] fix: exact cell connectivity uses Delaunay.simplices
 (Delaunay.vertices no longer exists)

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index eb87b01..a95ddb3 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -78,7 +78,7 @@ def cell_connectivity_exact(disc):
 
         # Find neighbors
         neiList = defaultdict(set)
-        for p in tri.vertices:
+        for p in tri.simplices:
             for i, j in itertools.combinations(p, 2):
                 neiList[i].add(disc._io_ptr[j])
                 neiList[j].add(disc._io_ptr[i])
-- 
2.43.0


From 2268f78dc8e1c0c264096260578a5a468c1348d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:54 +0000
Subject: [PATCH 06/66] fix: equality of sample sets and discretizations
 compares contents instead of failing on absent or nested attributes

---
 bet/sample.py | 83 ++++++++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index fef58ac..bc5934d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -62,6 +62,42 @@ class wrong_input(Exception):
     Exception for when the input is of the wrong type.
     """
 
+def _same_contents(first, second):
+    """
+    Decide whether two stored attributes hold the same contents.
+
+    :param first: first attribute
+    :param second: second attribute
+    :rtype: bool
+    :returns: True if the contents are identical, False otherwise
+    """
+    if first is second:
+        return True
+    if type(first) is not type(second):
+        if isinstance(first, np.ndarray) or isinstance(second, np.ndarray) or \
+                not (np.isscalar(first) and np.isscalar(second)):
+            return False
+        return bool(first == second)
+    if isinstance(first, np.ndarray):
+        if first.shape != second.shape:
+            return False
+        same = np.asarray(first == second)
+        if first.dtype.kind in 'fc' and second.dtype.kind in 'fc':
+            same = np.logical_or(same, np.logical_and(np.isnan(first), np.isnan(second)))
+        return bool(np.all(same))
+    if isinstance(first, (list, tuple)):
+        return len(first) == len(second) and \
+            all(_same_contents(a, b) for a, b in zip(first, second))
+    if isinstance(first, dict):
+        return first.keys() == second.keys() and \
+            all(_same_contents(first[key], second[key]) for key in first)
+    if callable(first) and hasattr(first, '__func__'):
+        return first.__func__ is second.__func__
+    if isinstance(first, scipy.stats.gaussian_kde):
+        return _same_contents(vars(first), vars(second))
+    return bool(first == second)
+
+
 def evaluate_pdf(prob_type, prob_parameters, vals):
     """
     Evaluate the probability density function defined by `prob_type` and `prob_parameters`
@@ -300,31 +336,9 @@ class sample_set_base(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.meta_fields
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif field == "_cluster_maps":
-                    cluster_maps = getattr(self, field)
-                    cluster_maps_other = getattr(other, field)
-                    if type(cluster_maps_other) != type(cluster_maps):
-                        return False
-                    if type(cluster_maps) is list:
-                        for k in range(len(cluster_maps)):
-                            if not np.array_equal(cluster_maps[k], cluster_maps_other[k]):
-                                return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if type(compare) is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
+            for field in self.meta_fields:
+                if not _same_contents(getattr(self, field), getattr(other, field)):
+                    return False
             return True
         else:
             raise TypeError('Comparing object is not of the same type.')
@@ -2352,22 +2366,9 @@ class discretization(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.sample_set_names + self.vector_names
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if compare is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
+            for field in self.sample_set_names + self.vector_names:
+                if not _same_contents(getattr(self, field), getattr(other, field)):
+                    return False
             return True
         else:
             raise TypeError('Comparing object is not of the same type.')
-- 
2.43.0


From d256ba9a237705db4d367ace9d61153c8facbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:56 +0000
Subject: [PATCH 07/66] fix: discretization local/global communication reaches
 the emulated output and observed sets

---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index bc5934d..488c956 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2873,6 +2873,8 @@ class discretization(object):
             self._emulated_input_sample_set.local_to_global()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.local_to_global()
+        if self._output_observed_set is not None:
+            self._output_observed_set.local_to_global()
 
     def global_to_local(self):
         """
@@ -2888,4 +2890,6 @@ class discretization(object):
         if self._emulated_input_sample_set is not None:
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
-            self._emulated_output_sample_set.global_to_local
+            self._emulated_output_sample_set.global_to_local()
+        if self._output_observed_set is not None:
+            self._output_observed_set.global_to_local()
-- 
2.43.0


From 244a7acaa31ed68144322edf7e058d621f11f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:21 +0000
Subject: [PATCH 08/66] fix: merging and clipping discretizations copes with
 absent emulated sets and keeps p-norm and observed set

---
 bet/sample.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 488c956..890bc08 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1863,6 +1863,7 @@ class voronoi_sample_set(sample_set_base):
 
         # create merged set
         mset = voronoi_sample_set(self._dim)
+        mset.set_p_norm(self._p_norm)
 
         # set domain
         if self._domain is not None:
@@ -2781,7 +2782,8 @@ class discretization(object):
                               output_sample_set=co,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=self._emulated_input_sample_set,
-                              emulated_output_sample_set=self._emulated_output_sample_set)
+                              emulated_output_sample_set=self._emulated_output_sample_set,
+                              output_observed_set=self._output_observed_set)
 
     def merge(self, disc):
         """
@@ -2796,16 +2798,30 @@ class discretization(object):
         """
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
-        mei = self._emulated_input_sample_set.merge(disc.
-                                                    _emulated_input_sample_set)
-        meo = self._emulated_output_sample_set.merge(disc.
-                                                     _emulated_output_sample_set)
+        mei = self._merge_optional(self._emulated_input_sample_set,
+                                   disc._emulated_input_sample_set)
+        meo = self._merge_optional(self._emulated_output_sample_set,
+                                   disc._emulated_output_sample_set)
 
         return discretization(input_sample_set=mi,
                               output_sample_set=mo,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=mei,
-                              emulated_output_sample_set=meo)
+                              emulated_output_sample_set=meo,
+                              output_observed_set=self._output_observed_set)
+
+    @staticmethod
+    def _merge_optional(set1, set2):
+        """
+        Merges two sample sets either of which may be missing.
+
+        :param set1: sample set or None
+        :param set2: sample set or None
+        :returns: the merged set, the one present, or None
+        """
+        if set1 is None or set2 is None:
+            return set2 if set1 is None else set1
+        return set1.merge(set2)
 
     def choose_inputs_outputs(self,
                               inputs=None,
-- 
2.43.0


From 05748a4eafa216244db32934eec7d495503e3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:22 +0000
Subject: [PATCH 09/66] fix: rectangle and ball queries for several neighbours
 list a cell only once

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 890bc08..a0bca5b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2047,7 +2047,7 @@ class rectangle_sample_set(sample_set_base):
                 else:
                     in_rec_now = np.logical_and(np.logical_and(
                         np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                        np.all(np.not_equal(pt[:, 0:j], i), axis=1))
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
         if k == 1:
@@ -2218,7 +2218,7 @@ class ball_sample_set(sample_set_base):
                 else:
                     in_rec_now = np.logical_and(np.logical_and(
                         np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                        np.all(np.not_equal(pt[:, 0:j], i), axis=1))
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
         if k == 1:
-- 
2.43.0


From 1561059b51233a320fca9b3b48affb6cc45990bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:24 +0000
Subject: [PATCH 10/66] fix: exact one-dimensional volumes for a set of a
 single sample

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a0bca5b..fa54119 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1479,7 +1479,7 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 1D domains.")
 
         # sort the samples
-        sort_ind = np.squeeze(np.argsort(self._values, 0))
+        sort_ind = np.argsort(self._values[:, 0])
         sorted_samples = self._values[sort_ind]
         domain_width = self._domain[:, 1] - self._domain[:, 0]
 
@@ -1491,7 +1491,7 @@ class voronoi_sample_set(sample_set_base):
                                 [self._domain[:, 1]]))
         # calculate difference between right and left of each cell
         # and renormalize
-        sorted_lam_vol = np.squeeze(edges[1:, :] - edges[:-1, :])
+        sorted_lam_vol = edges[1:, 0] - edges[:-1, 0]
         lam_vol = np.zeros(sorted_lam_vol.shape)
         lam_vol[sort_ind] = sorted_lam_vol
         lam_vol = lam_vol / domain_width
-- 
2.43.0


From c4b2971597ab99933b414603f49a41d4df3fdbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:18 +0000
Subject: [PATCH 11/66] fix: replacing a set of a discretization discards the
 pointers computed for the old one

---
 bet/calculateP/calculateP.py |  2 +-
 bet/sample.py                | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 210b42e..0e0cd58 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -38,7 +38,7 @@ def prob_on_emulated_samples(discretization, globalize=True):
     discretization._emulated_input_sample_set.check_num()
 
     # Check for necessary properties
-    if discretization._io_ptr_local is None:
+    if discretization._io_ptr is None:
         discretization.set_io_ptr(globalize=True)
     if discretization._emulated_ii_ptr_local is None:
         discretization.set_emulated_ii_ptr(globalize=False)
diff --git a/bet/sample.py b/bet/sample.py
index fa54119..85eb156 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2418,6 +2418,17 @@ class discretization(object):
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
 
+    def _reset_ptrs(self, *ptr_names):
+        """
+        Discards pointers that refer to a sample set which has been replaced.
+
+        :param ptr_names: names of the global pointers to discard along with
+            their local versions
+        """
+        for ptr_name in ptr_names:
+            setattr(self, ptr_name, None)
+            setattr(self, ptr_name + '_local', None)
+
     def set_io_ptr(self, globalize=True):
         """
 
@@ -2435,6 +2446,8 @@ class discretization(object):
 
         if globalize:
             self._io_ptr = util.get_global_values(self._io_ptr_local)
+        else:
+            self._io_ptr = None
 
     def get_io_ptr(self):
         """
@@ -2475,6 +2488,8 @@ class discretization(object):
         if globalize:
             self._emulated_ii_ptr = util.get_global_values(
                 self._emulated_ii_ptr_local)
+        else:
+            self._emulated_ii_ptr = None
 
     def get_emulated_ii_ptr(self):
         """
@@ -2516,6 +2531,8 @@ class discretization(object):
         if globalize:
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
+        else:
+            self._emulated_oo_ptr = None
 
     def get_emulated_oo_ptr(self):
         """
@@ -2566,6 +2583,7 @@ class discretization(object):
         """
         if isinstance(input_sample_set, sample_set_base):
             self._input_sample_set = input_sample_set
+            self._reset_ptrs('_emulated_ii_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2591,6 +2609,7 @@ class discretization(object):
         """
         if isinstance(output_sample_set, sample_set_base):
             self._output_sample_set = output_sample_set
+            self._reset_ptrs('_io_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2655,7 +2674,9 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
-        if self._output_sample_set._values_local is not None:
+        self._reset_ptrs('_io_ptr', '_emulated_oo_ptr')
+        if self._output_sample_set is not None and \
+                self._output_sample_set._values_local is not None:
             if output_probability_set._values is not None:
                 self.set_io_ptr(globalize=False)
 
@@ -2695,6 +2716,7 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._reset_ptrs('_emulated_oo_ptr')
 
     def get_emulated_input_sample_set(self):
         """
@@ -2728,6 +2750,7 @@ class discretization(object):
                 self._emulated_input_sample_set = emulated_input_sample_set
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._reset_ptrs('_emulated_ii_ptr')
 
     def estimate_input_volume_emulated(self):
         """
-- 
2.43.0


From e7cdc2d16d8fc16a33d3ec560d21f02a07319c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:02 +0000
Subject: [PATCH 12/66] fix: Voronoi densities follow the current probabilities
 and volumes, relative to the domain

---
 bet/sample.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 85eb156..eba5d7a 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -189,7 +189,7 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         logging.warning("Using kernel density estimate to estimate marginal PDF.")
         sam_set = prob_parameters
         kde = gaussian_kde(sam_set.get_values()[:, i], weights=sam_set.get_probabilities())
-        return kde(vals.T)
+        return kde(x)
     else:
         raise wrong_input("This type of probability density is not yet supported.")
 
@@ -950,7 +950,7 @@ class sample_set_base(object):
             self._densities = densities
         else:
             logging.warning("Setting densities with probability/volume.")
-            if self._domain is None:
+            if self._domain is None or not np.all(np.isfinite(self._domain)):
                 total_vol = 1.0
             else:
                 total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
@@ -985,12 +985,11 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._densities_local is None:
-                if self._volumes_local is None:
-                    logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
-                    self.estimate_volume_mc(globalize=False)
-                self.set_densities_local(self._probabilities_local/self._volumes_local)
             self.local_to_global()
+            if self._volumes is None:
+                logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+                self.estimate_volume_mc()
+            self.set_densities()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
             return evaluate_pdf(self._prob_type, self._prob_parameters, vals)
@@ -1221,8 +1220,12 @@ class sample_set_base(object):
         else:
             msg = "Setting densities with probability/volume."
             logging.warning(msg)
+            if self._domain is None or not np.all(np.isfinite(self._domain)):
+                total_vol = 1.0
+            else:
+                total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
-            vols = self._volumes_local
+            vols = self._volumes_local * total_vol
             self._densities_local = probs / vols
 
     def get_densities_local(self):
-- 
2.43.0


From d32c28e0f2501096419856324a2dc0e4b09b2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:02 +0000
Subject: [PATCH 13/66] fix: prob distributes volumes set after the values were
 made local

---
 bet/calculateP/calculateP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 0e0cd58..69302ea 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -86,7 +86,8 @@ def prob(discretization, globalize=True):
         discretization.set_io_ptr(globalize=False)
 
     # Calculate Probabilities
-    if discretization._input_sample_set._values_local is None:
+    if discretization._input_sample_set._values_local is None or \
+            discretization._input_sample_set._volumes_local is None:
         discretization._input_sample_set.global_to_local()
     P_local = np.zeros((len(discretization._io_ptr_local),))
     for i in range(op_num):
-- 
2.43.0


From 0a62947fe0186536b98195d663c17bb4b8c9380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:18 +0000
Subject: [PATCH 14/66] fix: probability transfer uses probabilities set after
 the values were made local

---
 bet/calculateP/calculateP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 69302ea..492ae63 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -229,7 +229,7 @@ def prob_from_sample_set(set_old, set_new):
         raise samp.dim_not_matching("Dimensions of sets are not equal.")
 
     # Map old points new sets
-    if set_old._values_local is None:
+    if set_old._values_local is None or set_old._probabilities_local is None:
         set_old.global_to_local()
     (_, ptr) = set_new.query(set_old._values_local)
     ptr = ptr.flat[:]
@@ -270,7 +270,7 @@ def prob_from_discretization_input(disc, set_new):
     else:
         em_set = disc._emulated_input_sample_set
 
-    if em_set._values_local is None:
+    if em_set._values_local is None or em_set._probabilities_local is None:
         em_set.global_to_local()
     if em_set._probabilities_local is None:
         raise AttributeError("Probabilities must be pre-calculated.")
-- 
2.43.0


From 9d7bb71c936022df7989503b1ab5de3b2983011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:52 +0000
Subject: [PATCH 15/66] fix: scatter of the fallback communicator works on
 Python 3.10 and later

---
 bet/Comm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index 0934aec..ca69d71 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -5,7 +5,7 @@ This module provides a workaround for people without mpi4py installed
 to run BET.
 """
 
-import collections
+import collections.abc
 
 
 class comm_for_no_mpi4py(object):
@@ -94,7 +94,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
-        if isinstance(val1, collections.Iterable) and len(val1) == 1:
+        if isinstance(val1, collections.abc.Iterable) and len(val1) == 1:
             val1 = val1[0]
         return val1
 
-- 
2.43.0


From efb9bfbd83b6e0fdd2393c9ffff6e741034246cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:54 +0000
Subject: [PATCH 16/66] fix: load_object finds per-process files saved in
 another directory

---
 bet/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index ca0f49e..ba78394 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -269,7 +269,9 @@ def load_object(file_name, localize=False):
     if file_name.startswith('proc_'):
         # logging.warning("Avoid starting filenames with 'proc_'. Unable to localize.")
         localize = False
-    elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
+    elif not os.path.exists(file_name+'.p') and \
+            os.path.exists(os.path.join(os.path.dirname(file_name),
+                                        'proc0_'+os.path.basename(file_name)+'.p')):
         return load_object_parallel(file_name)
     loaded_set = pickle.load(open(file_name+'.p', "rb"))
     if localize:
-- 
2.43.0


From 9ddce4277192d65434993f2da65bb3315fd05223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:55 +0000
Subject: [PATCH 17/66] fix: a globalized object is written by one process
 instead of all processes at once

---
 bet/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index ba78394..fc6c4f0 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -249,7 +249,10 @@ def save_object(save_set, file_name, globalize=True):
     if globalize:
         save_set.local_to_global()
     comm.barrier()
-    pickle.dump(save_set, open(local_file_name + '.p', "wb"))
+    # a globalized object is the same on all processes, so only one writes it
+    if comm.rank == 0 or not globalize:
+        with open(local_file_name + '.p', "wb") as save_file:
+            pickle.dump(save_set, save_file)
     comm.barrier()
     return local_file_name
 
@@ -273,7 +276,8 @@ def load_object(file_name, localize=False):
             os.path.exists(os.path.join(os.path.dirname(file_name),
                                         'proc0_'+os.path.basename(file_name)+'.p')):
         return load_object_parallel(file_name)
-    loaded_set = pickle.load(open(file_name+'.p', "rb"))
+    with open(file_name+'.p', "rb") as load_file:
+        loaded_set = pickle.load(load_file)
     if localize:
         loaded_set.global_to_local()
     return loaded_set
-- 
2.43.0


From 7603059c1415b053b3477304fbd3e39673bddc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:14 +0000
Subject: [PATCH 18/66] fix: normalizing the domain also rescales the stored
 cell widths

---
 bet/sample.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index eba5d7a..c097bd4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -370,6 +370,11 @@ class sample_set_base(object):
                 if val is not None:
                     val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val / (self._domain[:, 1] - self._domain[:, 0])
+                    setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
                           '_error_estimates', '_error_estimates_local',
@@ -410,6 +415,12 @@ class sample_set_base(object):
                         (self._domain_original[:, 1] -
                          self._domain_original[:, 0])
                     setattr(self, obj, val)
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val * (self._domain_original[:, 1] -
+                                 self._domain_original[:, 0])
+                    setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
                           '_error_estimates', '_error_estimates_local',
-- 
2.43.0


From f89e032f2efa5f4c44ed0c66a885e8237bf430ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:15 +0000
Subject: [PATCH 19/66] fix: clipping a sample set clips its weights with its
 values

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index c097bd4..a659e7b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -758,7 +758,7 @@ class sample_set_base(object):
         sset.check_num()
         if sset._values is None:
             sset.local_to_global()
-        for array_name in self.array_names:
+        for array_name in self.array_names + ['_weights', '_weights_init']:
             current_array = getattr(sset, array_name)
             if current_array is not None:
                 new_array = current_array[0:cnum]
-- 
2.43.0


From 25f0293ae9708981ac473d4cfacba096a1ab23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:42 +0000
Subject: [PATCH 20/66] fix: exact 2D volumes of sparse sets and of samples on
 the boundary of the domain

---
 bet/sample.py | 58 ++++++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a659e7b..251954d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1512,7 +1512,7 @@ class voronoi_sample_set(sample_set_base):
         self._volumes = lam_vol
         self.global_to_local()
 
-    def exact_volume_2D(self, side_ratio=0.25):
+    def exact_volume_2D(self, side_ratio=1.0):
         r"""
 
         Exactly calculates the volume fraction of the Voronoi cells.
@@ -1528,42 +1528,24 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 2D domains.")
         new_samp = np.copy(self._values)
 
-        # Add points around boundary
-        add_points = np.less(self._values[:, 0],
-                             self._domain[0][0] +
-                             side_ratio * (self._domain[0][1] -
-                                           self._domain[0][0]))
-        points_new = self._values[add_points, :]
-        points_new[:, 0] = self._domain[0][0] - \
-            (points_new[:, 0] - self._domain[0][0])
-        new_samp = np.vstack((new_samp, points_new))
-
-        add_points = np.greater(self._values[:, 0],
-                                self._domain[0][1] -
-                                side_ratio * (self._domain[0][1] -
-                                              self._domain[0][0]))
-        points_new = self._values[add_points, :]
-        points_new[:, 0] = self._domain[0][1] + \
-            (-points_new[:, 0] + self._domain[0][1])
-        new_samp = np.vstack((new_samp, points_new))
-
-        add_points = np.less(self._values[:, 1],
-                             self._domain[1][0] +
-                             side_ratio * (self._domain[1][1] -
-                                           self._domain[1][0]))
-        points_new = self._values[add_points, :]
-        points_new[:, 1] = self._domain[1][0] - \
-            (points_new[:, 1] - self._domain[1][0])
-        new_samp = np.vstack((new_samp, points_new))
-
-        add_points = np.greater(self._values[:, 1],
-                                self._domain[1][1] -
-                                side_ratio * (self._domain[1][1] -
-                                              self._domain[1][0]))
-        points_new = self._values[add_points, :]
-        points_new[:, 1] = self._domain[1][1] + \
-            (-points_new[:, 1] + self._domain[1][1])
-        new_samp = np.vstack((new_samp, points_new))
+        # Add points around boundary, reflecting across the sides and the
+        # corners. A sample on the boundary is its own reflection, so it is not
+        # repeated and only a fraction of its (symmetric) cell is in the domain.
+        inside_fraction = np.ones((num,))
+        for i in range(2):
+            (left, right) = self._domain[i]
+            reach = side_ratio * (right - left)
+            coord = new_samp[:, i]
+            points_left = new_samp[np.logical_and(coord > left,
+                                                  coord < left + reach), :]
+            points_left[:, i] = left - (points_left[:, i] - left)
+            points_right = new_samp[np.logical_and(coord < right,
+                                                   coord > right - reach), :]
+            points_right[:, i] = right + (-points_right[:, i] + right)
+            new_samp = np.vstack((new_samp, points_left, points_right))
+            on_boundary = np.logical_or(self._values[:, i] == left,
+                                        self._values[:, i] == right)
+            inside_fraction[on_boundary] *= 0.5
 
         # Make Voronoi diagram and calculate volumes
         vor = spatial.Voronoi(new_samp)
@@ -1584,7 +1566,7 @@ class voronoi_sample_set(sample_set_base):
                                  simplices[j][0, :]).transpose()
                     vol += abs(1.0 / math.factorial(self._dim)
                                * linalg.det(mat))
-                lam_vol_local[I] = vol
+                lam_vol_local[I] = vol * inside_fraction[i]
         lam_size = np.prod(self._domain[:, 1] - self._domain[:, 0])
         lam_vol_local = lam_vol_local / lam_size
         lam_vol_global = util.get_global_values(lam_vol_local)
-- 
2.43.0


From 7e064f271a6ffe59d64f9dd6af16ae15e16db36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 21/66] fix: radius and local volume estimates of sets with
 cells missed by the estimation points

---
 bet/sample.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 251954d..d8a3081 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1627,7 +1627,8 @@ class voronoi_sample_set(sample_set_base):
         for i in range(num):
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1689,7 +1690,8 @@ class voronoi_sample_set(sample_set_base):
             vol[i] = np.sum(np.equal(emulate_ptr, i))
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1768,10 +1770,11 @@ class voronoi_sample_set(sample_set_base):
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
                 pairwise_distance = spatial.distance.pdist(samples,
+                                                           'minkowski',
                                                            p=self._p_norm)
             else:
                 pairwise_distance = spatial.distance.pdist(samples,
-                                                           p='chebyshev')
+                                                           'chebyshev')
             pairwise_distance = spatial.distance.squareform(pairwise_distance)
             pairwise_distance_ma = np.ma.masked_less_equal(pairwise_distance,
                                                            0.)
-- 
2.43.0


From 0b8047a2fb32a48c2ce1f3345f112160d1b1a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:31 +0000
Subject: [PATCH 22/66] fix: exact 2D volumes bound the cells of samples on the
 boundary

---
 bet/sample.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index d8a3081..1475b1c 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1542,10 +1542,16 @@ class voronoi_sample_set(sample_set_base):
             points_right = new_samp[np.logical_and(coord < right,
                                                    coord > right - reach), :]
             points_right[:, i] = right + (-points_right[:, i] + right)
-            new_samp = np.vstack((new_samp, points_left, points_right))
+            new_points = [new_samp, points_left, points_right]
             on_boundary = np.logical_or(self._values[:, i] == left,
                                         self._values[:, i] == right)
-            inside_fraction[on_boundary] *= 0.5
+            if np.any(on_boundary):
+                # reflect the reflections to bound the cells on both sides
+                shift = np.zeros((2,))
+                shift[i] = 2.0 * (right - left)
+                new_points += [new_samp - shift, new_samp + shift]
+                inside_fraction[on_boundary] *= 0.5
+            new_samp = np.vstack(new_points)
 
         # Make Voronoi diagram and calculate volumes
         vor = spatial.Voronoi(new_samp)
-- 
2.43.0


From 87a215e24fff41344326865c6de2b5ee4c9ad2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:43 +0000
Subject: [PATCH 23/66] fix: simple-function measures discard the emulated
 output pointer of the measure they replace

---
 bet/calculateP/simpleFunP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index af76e47..7fde4be 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -249,7 +249,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     different set of parameter samples and model solves.
     '''
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -420,7 +420,7 @@ def regular_partition_uniform_distribution_rectangle_size(data_set, Q_ref=None,
     s_set.set_probabilities(prob)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -551,7 +551,7 @@ def uniform_partition_uniform_distribution_data_samples(data_set):
     s_set.set_probabilities(np.ones((num,), dtype=np.float) / num)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -648,7 +648,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -733,7 +733,7 @@ def uniform_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -840,6 +840,6 @@ def user_partition_user_distribution(data_set, data_partition_set,
     s_set.set_probabilities(rho_D_M)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
-- 
2.43.0


From 68a77984625882b906438512e0164e4b93e15c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:43 +0000
Subject: [PATCH 24/66] fix: random partitions accept the rectangle size as a
 list

---
 bet/calculateP/simpleFunP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 7fde4be..e29bbaf 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -174,6 +174,8 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
         raise wrong_argument_type("Rectangle size required.")
     elif not isinstance(rect_size, collections.abc.Iterable):
         rect_size = rect_size * np.ones((dim,))
+    else:
+        rect_size = np.array(rect_size)
     if np.any(np.less_equal(rect_size, 0)):
         msg = 'rect_size must be greater than 0'
         raise wrong_argument_type(msg)
-- 
2.43.0


From fb71c9a2d9bd6a0c9355b683e1f0612a62143bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:48 +0000
Subject: [PATCH 25/66] fix: normal measures take the dimension of data given
 as an array

---
 bet/calculateP/simpleFunP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index e29bbaf..0e04193 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -29,6 +29,8 @@ def check_type(val, data_set=None):
         dim = data_set._output_sample_set.get_dim()
     elif isinstance(data_set, samp.sample_set_base):
         dim = data_set.get_dim()
+    elif isinstance(data_set, np.ndarray) and len(data_set.shape) == 2:
+        dim = data_set.shape[1]
     else:
         dim = 1
     if isinstance(val, float) or isinstance(val, int):
-- 
2.43.0


From 2fb87f9c21eac5cc5f8dd5005ca21d6866882177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:51 +0000
Subject: [PATCH 26/66] fix: normal measure on a normal partition gives each
 cell the probability of the normal law in it

---
 bet/calculateP/simpleFunP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 0e04193..860169d 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -643,8 +643,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     cvolumes = np.copy(volumes)
     comm.Allreduce([volumes, MPI.DOUBLE], [cvolumes, MPI.DOUBLE], op=MPI.SUM)
     volumes = cvolumes
-    rho_D_M = count_neighbors.astype(np.float64) * volumes
-    rho_D_M = rho_D_M / np.sum(rho_D_M)
+    rho_D_M = count_neighbors.astype(np.float64) / float(num_d_emulate)
     s_set.set_probabilities(rho_D_M)
     s_set.set_volumes(volumes)
 
-- 
2.43.0


From 6020f5fc33c1b6abb3a78eb400390ec22c7cfb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 27/66] fix: choose_inputs_outputs keeps all inputs or outputs
 when none are named

---
 bet/sample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 1475b1c..ad36caa 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2858,7 +2858,9 @@ class discretization(object):
         Slices the inputs and outputs of the discretization.
 
         :param list inputs: list of indices of input sample set to include
+            (default: all)
         :param list outputs: list of indices of output sample set to include
+            (default: all)
 
         :rtype: :class:`~bet.sample.discretization`
         :returns: sliced discretization
@@ -2868,6 +2870,10 @@ class discretization(object):
                       '_error_estimates', '_error_estimates_local']
         slice_list2 = ['_jacobians', '_jacobians_local']
 
+        if inputs is None:
+            inputs = list(range(self._input_sample_set.get_dim()))
+        if outputs is None:
+            outputs = list(range(self._output_sample_set.get_dim()))
         input_ss = sample_set(len(inputs))
         output_ss = sample_set(len(outputs))
         input_ss.set_p_norm(self._input_sample_set._p_norm)
-- 
2.43.0


From acf2b656ea7df28f3d6bd9bb06391a3ea690db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 28/66] fix: density inversion copes with a single cluster map
 and with clusters without predictions or observations

---
 bet/calculateP/calculateR.py | 17 +++++++++++------
 bet/sample.py                |  6 ++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 05bf6cb..03d0bdd 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -48,7 +48,7 @@ def generate_output_kdes(discretization, bw_method=None):
     obs_kdes = []
     for i in range(num_clusters):
         if predict_set.get_cluster_maps() is not None:
-            if len(predict_set.get_cluster_maps()) > 1:
+            if len(predict_set.get_cluster_maps()[i]) > 1:
                 if predict_set.get_weights_init() is None:
                     predict_kdes.append(gaussian_kde(predict_set.get_cluster_maps()[i].T, bw_method=bw_method))
                 else:
@@ -71,7 +71,7 @@ def generate_output_kdes(discretization, bw_method=None):
                 predict_kdes.append(None)
 
         if obs_set.get_cluster_maps() is not None:
-            if len(obs_set.get_cluster_maps()) > 1:
+            if len(obs_set.get_cluster_maps()[i]) > 1:
                 obs_kdes.append(gaussian_kde(obs_set.get_cluster_maps()[i].T, bw_method=bw_method))
             else:
                 obs_kdes.append(None)
@@ -111,13 +111,14 @@ def invert(discretization, bw_method=None):
             vals = predict_set.get_values()[predict_pointer]
         else:
             vals = predict_set.get_cluster_maps()[i]
-        if len(predict_pointer) > 0:
+        if predict_kdes[i] is not None and obs_kdes[i] is not None:
             r.append(np.divide(obs_kdes[i](vals.T), predict_kdes[i](vals.T)))
             rs.append((r[i].mean()))
+            weights[predict_pointer] = r[i]
         else:
+            # nothing predicted or nothing observed in this cluster
             r.append(None)
             rs.append(None)
-        weights[predict_pointer] = r[i]
         lam_ptr.append(predict_pointer)
     discretization.get_input_sample_set().set_weights(weights)
     return rs, r, lam_ptr
@@ -187,6 +188,8 @@ def invert_rejection_sampling(discretization, bw_method=None):
     discretization.get_input_sample_set().local_to_global()
     new_vals = []
     for i in range(num_clusters):
+        if r[i] is None:
+            continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
@@ -309,7 +312,8 @@ def invert_to_multivariate_gaussian(discretization, bw_method=None):
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     mean, cov = weighted_mean_and_cov(params, total_weights)
     means = [mean]
     covariances = [cov]
@@ -380,7 +384,8 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     total_weights = np.round(num_reweighted * total_weights/np.sum(total_weights)).astype(int)
     reweighted_vals = np.repeat(params, total_weights, axis=0)
 
diff --git a/bet/sample.py b/bet/sample.py
index ad36caa..7321cac 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -129,6 +129,8 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         mar = np.zeros((vals.shape[0],))
         num_clusters = len(cluster_weights)
         for i in range(num_clusters):
+            if means[i] is None:
+                continue  # cluster without a density
             mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
         return mar
     elif prob_type == "voronoi":
@@ -167,6 +169,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         num_clusters = len(cluster_weights)
         mar = np.zeros(x.shape[0])
         for j in range(num_clusters):
+            if param_marginals[i][j] is None:
+                continue  # cluster without a density
             mar += param_marginals[i][j](x) * cluster_weights[j]
         return mar
     elif prob_type == "rv":
@@ -182,6 +186,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         mar = np.zeros(x.shape)
         num_clusters = len(cluster_weights)
         for j in range(num_clusters):
+            if means[j] is None:
+                continue  # cluster without a density
             mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
         return mar
     elif prob_type == 'voronoi':
-- 
2.43.0


From cf6c3ca505c4e8777609effb387d19d13317d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:05 +0000
Subject: [PATCH 29/66] fix: samples of an updated density have the requested
 number and shape; reference values go through models taking arrays

---
 bet/sampling/basicSampling.py | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index efb0f48..759e5f1 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -30,6 +30,16 @@ class bad_object(Exception):
     """
 
 
+def _cluster_counts(cluster_weights, components, num_samples):
+    """
+    Number of samples to draw from each component of a mixture, which add up to ``num_samples``.
+    Components without a density (``None``) get no samples.
+    """
+    w = np.array([0.0 if c is None else w for w, c in zip(cluster_weights, components)], dtype=float)
+    ends = np.round(num_samples * np.cumsum(w) / np.sum(w)).astype(int)
+    return np.diff(np.concatenate(([0], ends)))
+
+
 def sample_from_updated(input_set, num_samples, globalize=True):
     """
     Create a new sample set from resampling from the updated probability measure of another sample set.
@@ -55,16 +65,17 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'kde':
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
+        for i, num_samples_clust in enumerate(_cluster_counts(cluster_weights, param_marginals[0], num_samples)):
             v_inner = []
-            num_samples_clust = round(w*num_samples)
+            if param_marginals[0][i] is None:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             for j in range(input_set.get_dim()):
                 v_inner.append(param_marginals[j][i].resample(num_samples_local))
             v_outer.append(np.vstack(v_inner))
         vals_local = np.hstack(v_outer)
-        new_set.set_values_local(vals_local)
+        new_set.set_values_local(vals_local.T)
         new_set.set_prob_type_init('kde')
         new_set.set_prob_parameters_init((param_marginals, cluster_weights))
         if globalize:
@@ -73,11 +84,13 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'gmm':
         means, covariances, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
-            num_samples_clust = round(w * num_samples)
+        for i, num_samples_clust in enumerate(_cluster_counts(cluster_weights, means, num_samples)):
+            if means[i] is None:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
+            v_inner = stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local)
+            v_outer.append(np.reshape(v_inner, (num_samples_local, input_set.get_dim())))
         vals_local = np.vstack(v_outer)
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('gmm')
@@ -492,19 +505,13 @@ class sampler(object):
 
         if lam_ref is not None:
             try:
-                if not isinstance(lam_ref, collections.abc.Iterable):
-                    lam_ref = np.array([lam_ref])
-                Q_ref = self.lb_model(lam_ref)
-                output_sample_set.set_reference_value(Q_ref)
+                # the model takes inputs of shape (N, ndim)
+                q_ref = self.lb_model(np.reshape(lam_ref, (1, -1)))
+                if isinstance(q_ref, tuple):
+                    q_ref = q_ref[0]
+                output_sample_set.set_reference_value(np.reshape(q_ref, (output_dim,)))
             except ValueError:
-                try:
-                    msg = "Model not mapping reference value as expected."
-                    msg += "Attempting reshape..."
-                    logging.log(20, msg)
-                    q_ref = self.lb_model(lam_ref.reshape(1, -1))
-                    output_sample_set.set_reference_value(q_ref)
-                except ValueError:
-                    logging.log(20, 'Unable to map reference value.')
+                logging.log(20, 'Unable to map reference value.')
 
         if self.error_estimates:
             output_sample_set.set_error_estimates_local(local_output_ee)
-- 
2.43.0


From d9a18fb1186dc45d783a155338dbc3f4aea8e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:09 +0000
Subject: [PATCH 30/66] fix: clean_data leaves the array it is given unchanged

---
 bet/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/util.py b/bet/util.py
index fc6c4f0..4b1d635 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -219,6 +219,7 @@ def clean_data(data):
     :returns: array of shape (data.shape)
 
     """
+    data = np.array(data)
     data[np.isnan(data)] = 0.0
     data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
 
-- 
2.43.0


From 93084c38fe131b2562b6b167fc1595f1d2a1e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:09 +0000
Subject: [PATCH 31/66] fix: gradients use the shape parameter throughout,
 Euclidean distances and the outputs of the centres

---
 bet/sensitivity/gradients.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index bb83a34..25f87f0 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -229,13 +229,13 @@ def radial_basis_function(r, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbf = (1 + (ep * r) + (ep * r)**2 / 3) * np.exp(-ep * r)
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbf = np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbf = (1 + (ep * r)**2)**(0.5)
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbf = 1 / ((1 + (ep * r)**2)**(0.5))
     else:
         raise ValueError("The kernel chosen is not currently available.")
@@ -264,13 +264,13 @@ def radial_basis_function_dxi(r, xi, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbfdxi = -2 * ep**2 * xi * np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbfdxi = (ep**2 * xi) / ((1 + (ep * r)**2)**(0.5))
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbfdxi = -(ep**2 * xi) / ((1 + (ep * r)**2)**(1.5))
     else:
         raise ValueError("The kernel chosen is not currently available")
@@ -338,10 +338,10 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Find the k nearest neighbors and their distances to centers[c,:]
         [r, nearest] = cluster_discretization._input_sample_set.query(
             centers[c, :], k=num_neighbors)
-        r = np.tile(r, (input_dim, 1))
 
         # Compute the linf distances to each of the nearest neighbors
         diffVec = (centers[c, :] - samples[nearest, :]).transpose()
+        r = np.tile(np.linalg.norm(diffVec, axis=0), (input_dim, 1))
 
         # Compute the l2 distances between pairs of nearest neighbors
         distMat = spatial.distance_matrix(
@@ -350,7 +350,7 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Solve for the rbf weights using interpolation conditions and
         # evaluate the partial derivatives
         rbf_mat_values = \
-            np.linalg.solve(radial_basis_function(distMat, RBF),
+            np.linalg.solve(radial_basis_function(distMat, RBF, ep),
                             radial_basis_function_dxi(r, diffVec, RBF, ep)
                             .transpose()).transpose()
 
@@ -511,6 +511,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
     radii_vec = util.fix_dimensions_vector_2darray(radii_vec.diagonal())
 
     # Clean the data
+    center_data = data[:num_centers, :]
     data = util.clean_data(data[num_centers:])
     gradient_tensor = np.zeros([num_centers, output_dim, input_dim])
 
@@ -546,7 +547,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
                                            _input_sample_set.get_domain())
     center_input_sample_set.set_jacobians(gradient_tensor)
     center_output_sample_set = sample.sample_set(output_dim)
-    center_output_sample_set.set_values(data[:num_centers, :])
+    center_output_sample_set.set_values(center_data)
     if cluster_discretization._output_sample_set.get_domain() is not None:
         center_output_sample_set.set_domain(cluster_discretization.
                                             _output_sample_set.get_domain())
-- 
2.43.0


From 7d314d003d6de2ea9ade79d9023e5f95c6c765fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 32/66] fix: ranking of QoI sets keeps tied sets, all
 processes' singular values and the caller's jacobians data

---
 bet/sensitivity/chooseQoIs.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 82b12f1..f8ea062 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -184,9 +184,8 @@ def calculate_avg_condnum(input_set, qoi_set=None):
     if np.sum(indz) == singvals.shape[0]:
         hmean_condnum = np.inf
     else:
-        singvals[indz, 0] = np.inf
-        singvals[indz, -1] = 1
-        condnums = singvals[:, 0] / singvals[:, -1]
+        condnums = np.inf * np.ones((singvals.shape[0],))
+        condnums[~indz] = singvals[~indz, 0] / singvals[~indz, -1]
         hmean_condnum = stats.hmean(condnums)
 
     return hmean_condnum, singvals
@@ -328,14 +327,13 @@ def chooseOptQoIs_verbose(input_set, qoiIndices=None, num_qois_return=None,
     # Gather the best sets and skewness values from each processor
     measure_skewness_indices_mat = np.array(comm.gather(
         measure_skewness_indices_mat, root=0))
-    optsingvals_tensor = np.array(comm.gather(optsingvals_tensor, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness values from all processors
     if comm.rank == 0:
         measure_skewness_indices_mat = measure_skewness_indices_mat.reshape(
             num_optsets_return * comm.size, num_qois_return + 1)
-        optsingvals_tensor = optsingvals_tensor.reshape(num_centers,
-                                                        num_qois_return, num_optsets_return * comm.size)
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
         order = measure_skewness_indices_mat[:, 0].argsort()
 
         measure_skewness_indices_mat = measure_skewness_indices_mat[order]
@@ -543,6 +541,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     good_sets = comm.gather(good_sets, root=0)
     best_sets = np.array(comm.gather(best_sets, root=0))
     count_qois = np.array(comm.gather(count_qois, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness from all processors
     if comm.rank == 0:
@@ -550,10 +549,10 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         # Organize the best sets
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
-        [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
-        best_sets = best_sets[uniq_inds_best, :]
-        best_sets = best_sets[best_sets[:, 0].argsort()]
-        best_sets = best_sets[:num_optsets_return, :]
+        order = best_sets[:, 0].argsort(kind='stable')[:num_optsets_return]
+        best_sets = best_sets[order, :]
+        optsingvals_tensor = np.concatenate(optsingvals_tensor,
+                                            axis=2)[:, :, order]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
@@ -569,6 +568,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     comm.Barrier()
     best_sets = comm.bcast(best_sets, root=0)
     good_sets = comm.bcast(good_sets, root=0)
+    optsingvals_tensor = comm.bcast(optsingvals_tensor, root=0)
 
     return (good_sets[1:].astype(int), best_sets, optsingvals_tensor)
 
-- 
2.43.0


From 79b307d2cf7eae033b90738b790560aa4498515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 33/66] fix: skewness of a set with a zero gradient stored as
 negative zero is infinite, not zero

---
 bet/sensitivity/chooseQoIs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index f8ea062..650d0bf 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -136,7 +136,7 @@ def calculate_avg_skewness(input_set, qoi_set=None):
 
     # If the norm of giperp is infinity, then the rest of the vector were not GD
     # to begin with, so skewness is infinity.
-    skewgi[normgiperp == np.inf] = np.inf
+    skewgi[np.isinf(normgiperp)] = np.inf
 
     # The local skewness is the max skewness of each vector relative the rest
     skewG = np.max(skewgi, axis=1)
-- 
2.43.0


From 2632a2e708794484f6ada7f1f477db07852284de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 34/66] fix: exact connectivity in one dimension joins
 neighbouring samples in any sample order

---
 bet/calculateP/calculateError.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index a95ddb3..91c1d3a 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -65,13 +65,9 @@ def cell_connectivity_exact(disc):
         # Adding contours on the left
         s_sort = disc._input_sample_set._values.flat[:].argsort()
         neiList = defaultdict(set)
-        for p in range(num):
-            order = s_sort[p]
-            if order > 0:
-                val = np.equal(s_sort, order - 1)
-                args = np.argwhere(val)
-                neiList[p].add(disc._io_ptr[args[0][0]])
-                neiList[args[0][0]].add(disc._io_ptr[p])
+        for i, j in zip(s_sort[:-1], s_sort[1:]):
+            neiList[i].add(disc._io_ptr[j])
+            neiList[j].add(disc._io_ptr[i])
     else:
         # Form Delaunay triangulation
         tri = Delaunay(disc._input_sample_set._values)
-- 
2.43.0


From d1f72a55579c617f67a8764129e99b387a5224c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 35/66] fix: sampling error of a region leaves the interior and
 boundary sets unchanged

---
 bet/calculateP/calculateError.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 91c1d3a..b3346ab 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -320,12 +320,12 @@ class sampling_error(object):
                 E = float(sum1) / float(sum2)
 
                 in_B_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.B_N[i]:
+                for j in self.B_N.get(i, []):
                     in_B_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_B_N)
 
                 in_C_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.C_N[i]:
+                for j in self.C_N.get(i, []):
                     in_C_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_C_N)
                 # sum3 :math:`\mu_{\Lambda}(A \cap B_N)`
-- 
2.43.0


From af4d3c0b43acb6982d581d9b4d2359f8cfc32839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 36/66] fix: model error of a region with an event missed by
 the emulated points is infinite instead of a division by zero

---
 bet/calculateP/calculateError.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index b3346ab..f2895a0 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -529,8 +529,12 @@ class model_error(object):
                 JiAe = comm.allreduce(JiAe_local, op=MPI.SUM)
                 Jie_local = float(np.sum(in_Ai2))
                 Jie = comm.allreduce(Jie_local, op=MPI.SUM)
-                er_est += self.disc._output_probability_set._probabilities[i]\
-                    * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
+                if Ji * Jie == 0:
+                    er_est += np.inf
+                else:
+                    er_est += self.disc._output_probability_set.\
+                        _probabilities[i] * ((JiA * Jie - JiAe * Ji)
+                                             / (Ji * Jie))
 
         return er_est
 
-- 
2.43.0


From a2f0077ec66c9039b063ea1357845c92ba81e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:54 +0000
Subject: [PATCH 37/66] fix: linear surrogates move from the sample towards the
 evaluation point, not away from it

---
 bet/surrogates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 47faff8..1e6364c 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -96,9 +96,9 @@ class piecewise_polynomial_surrogate(object):
 
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
-            diff_local = self.input_disc._input_sample_set._values[
-                self.dummy_disc._emulated_ii_ptr_local] - \
-                input_sample_set._values_local
+            diff_local = input_sample_set._values_local - \
+                self.input_disc._input_sample_set._values[
+                    self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
             new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
-- 
2.43.0


From 598e52ac95f80af51c45ec0f9c0f93b28c5b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 38/66] fix: sorting by density keeps all samples of positive
 probability when others have zero volume

---
 bet/postProcess/postTools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 251aeea..1cec86f 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -54,11 +54,11 @@ def sort_by_rho(sample_set):
     else:
         raise bad_object("Improper sample object")
 
-    nnz = np.sum(P_samples > 0)
+    nnz = np.flatnonzero(P_samples > 0)
     if lam_vol is None:
-        indices = np.argsort(P_samples)[::-1][0:nnz]
+        indices = nnz[np.argsort(P_samples[nnz])[::-1]]
     else:
-        indices = np.argsort(P_samples / lam_vol)[::-1][0:nnz]
+        indices = nnz[np.argsort(P_samples[nnz] / lam_vol[nnz])[::-1]]
     P_samples = P_samples[indices]
     samples = samples[indices, :]
     if lam_vol is not None:
-- 
2.43.0


From a5f928cfe86103373342e424b89cfcb690ffa091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 39/66] fix: selecting samples by probability works without
 sorting

---
 bet/postProcess/postTools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 1cec86f..e8e0f7d 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -136,6 +136,8 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
             P_samples = sample_set.get_probabilities()
             lam_vol = sample_set.get_volumes()
             data = None
+    else:
+        indices = np.arange(len(P_samples))
     if descending:
         P_samples = P_samples[::-1]
         samples = samples[::-1]
@@ -146,7 +148,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(np.logical_and(0.0 < P_sum, P_sum <= percentile))
+    num_samples = np.sum(P_sum <= percentile)
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From 794494b9079d1ec793655ecf05c7325237a2c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:40 +0000
Subject: [PATCH 40/66] fix: smoothing kernel of marginals is centred on a bin
 and spaced by the bin width

---
 bet/postProcess/plotP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 26fe098..1230a32 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -390,7 +390,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         nx = len(bins[i]) - 1
         dx = bins[i][1] - bins[i][0]
         augx = int(math.ceil(3 * sigma[i] / dx))
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
+        x_kernel = dx * (np.arange(nx) - nx // 2)
         kernel = np.exp(-(x_kernel / sigma[i])**2)
         aug_kernel = np.zeros((nx + 2 * augx,))
         aug_marginals = np.zeros((nx + 2 * augx,))
@@ -437,8 +437,8 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         augx = int(math.ceil(3 * sigma[i] / dx))
         augy = int(math.ceil(3 * sigma[j] / dy))
 
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        y_kernel = np.linspace(-ny * dy / 2, ny * dy / 2, ny)
+        x_kernel = dx * (np.arange(nx) - nx // 2)
+        y_kernel = dy * (np.arange(ny) - ny // 2)
         X, Y = np.meshgrid(x_kernel, y_kernel, indexing='ij')
 
         kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
-- 
2.43.0


From 2662d94df2873e737f327c722680ccb48e8f27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:44 +0000
Subject: [PATCH 41/66] fix: surface plots of 2D marginals work with current
 matplotlib

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 1230a32..20ee77b 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -340,7 +340,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
                 fig = plt.figure(k)
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
                 X, Y = np.meshgrid(X, Y, indexing='ij')
-- 
2.43.0


From 3cd310704471e58b7d6f4d8abef6679629545efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 42/66] fix: smoothing marginals does not shift them by a bin

---
 bet/postProcess/plotP.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 20ee77b..ca0d5a7 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -380,7 +380,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft, fft
+    from scipy.fftpack import ifftshift, ifft, fft
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -398,7 +398,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         aug_kernel[augx:augx + nx] = kernel
         aug_marginals[augx:augx + nx] = marginals[i]
 
-        aug_kernel = fftshift(aug_kernel)
+        aug_kernel = ifftshift(aug_kernel)
 
         aug_marginals_smooth = np.real(
             ifft(fft(aug_kernel) * fft(aug_marginals)))
@@ -422,7 +422,7 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft2, fft2
+    from scipy.fftpack import ifftshift, ifft2, fft2
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -448,8 +448,8 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         aug_kernel[augx:augx + nx, augy:augy + ny] = kernel
         aug_marginals[augx:augx + nx, augy:augy + ny] = marginals[(i, j)]
 
-        aug_kernel = fftshift(aug_kernel, 0)
-        aug_kernel = fftshift(aug_kernel, 1)
+        aug_kernel = ifftshift(aug_kernel, 0)
+        aug_kernel = ifftshift(aug_kernel, 1)
         aug_marginals_smooth = ifft2(fft2(aug_kernel) * fft2(aug_marginals))
         aug_marginals_smooth = np.real(aug_marginals_smooth)
         marginals_smooth[(i, j)] = aug_marginals_smooth[augx:augx + nx,
-- 
2.43.0


From 51af51e20d900edb81f19875f4212d85ef231d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:17 +0000
Subject: [PATCH 43/66] fix: total variation distance works with current scipy

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 6e47517..da1d0a7 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -165,7 +165,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
         elif functional in ['norm']:
@@ -248,7 +248,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(pdfs1, pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-- 
2.43.0


From 05b4471e21476b8a6459925c2fda576e1daf8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:19 +0000
Subject: [PATCH 44/66] fix: random comparison points cover the values of both
 sets in every direction

---
 bet/postProcess/compareP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index da1d0a7..3398e1c 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -106,8 +106,9 @@ class compare:
                 rv_loc = ['uniform', {}]
                 delt = compare_factor * (maxes[i] - mins[i])
                 rv_loc[1]['loc'] = mins[i] - delt
-                rv_loc[1]['scale'] = maxes[i] - mins[i] + delt
-            unif_set = bsam.random_sample_set(rv=rv_loc, input_obj=self.set1.get_dim(),
+                rv_loc[1]['scale'] = maxes[i] - mins[i] + 2.0 * delt
+                rv.append(rv_loc)
+            unif_set = bsam.random_sample_set(rv=rv, input_obj=self.set1.get_dim(),
                                               num_samples=compare_set)
             self.compare_vals = unif_set.get_values()
         else:
-- 
2.43.0


From 30ce8a2c31390b2a30519bfe2d207cdf34f85c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:21 +0000
Subject: [PATCH 45/66] fix: statistical distances do not depend on earlier
 calls and Hellinger distances are normalized on request

---
 bet/postProcess/compareP.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 3398e1c..672901b 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -114,6 +114,11 @@ class compare:
         else:
             raise samp.wrong_input("Inputs are not of valid form.")
 
+        # Densities at the previous comparison points are out of date.
+        self.pdfs1 = None
+        self.pdfs2 = None
+        self.pdfs_zero = None
+
     def evaluate_pdfs(self):
         """
         Evaluate probability density functions associated with the probability measures at
@@ -156,32 +161,34 @@ class compare:
             raise samp.wrong_input("Compare set needed.")
         if self.pdfs1 is None or self.pdfs2 is None:
             self.evaluate_pdfs()
+        pdfs1 = self.pdfs1
+        pdfs2 = self.pdfs2
         if normalize:
-            self.pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
-            self.pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
+            pdfs1 = pdfs1 / np.sum(pdfs1)
+            pdfs2 = pdfs2 / np.sum(pdfs2)
             factor = 1.0
         else:
-            factor = 1.0 / (self.pdfs1.shape[0])
+            factor = 1.0 / (pdfs1.shape[0])
 
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
+            dist = factor * ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-            dist = factor * ds.norm(self.pdfs1 - self.pdfs2, **kwargs)
+            dist = factor * ds.norm(pdfs1 - pdfs2, **kwargs)
         elif functional in ['euclidean', '2-norm', '2']:
-            dist = (factor ** 0.5) * ds.minkowski(self.pdfs1, self.pdfs2, 2, **kwargs)
+            dist = (factor ** 0.5) * ds.minkowski(pdfs1, pdfs2, 2, **kwargs)
         elif functional in ['sqhell', 'sqhellinger']:
-            dist = factor * ds.sqeuclidean(np.sqrt(self.pdfs1), np.sqrt(self.pdfs2)) / 2.0
+            dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
-            return np.sqrt(self.distance('sqhell'))
+            return np.sqrt(self.distance('sqhell', normalize=normalize, **kwargs))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
-            dist = kl_div(self.pdfs1, self.pdfs2, **kwargs)
+            dist = kl_div(pdfs1, pdfs2, **kwargs)
         else:
-            dist = functional(self.pdfs1, self.pdfs2, **kwargs)
+            dist = functional(pdfs1, pdfs2, **kwargs)
         return dist
 
     def distance_marginal(self, i, interval=None, num_points=1000, compare_factor=0.0, normalize=False,
-- 
2.43.0


From 555481c0d575af1656b1bb68af1236b4f2a7ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:22 +0000
Subject: [PATCH 46/66] fix: marginal distances cover the domains and values of
 both sets

---
 bet/postProcess/compareP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 672901b..3a65f8d 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -223,13 +223,13 @@ class compare:
         x = None
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
             if x is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
@@ -303,13 +303,13 @@ class compare:
         from scipy.integrate import quadrature
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
             if interval is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
-- 
2.43.0


From aafc6f456a15002d5f50f3d11f45ee12a30801b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:34 +0000
Subject: [PATCH 47/66] fix: Latin hypercube samples on several processes come
 from one hypercube

---
 bet/sampling/basicSampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 759e5f1..9ecba22 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -236,7 +236,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     # update the bounds based on the number of samples
     input_sample_set.update_bounds(num_samples)
     input_values = np.copy(input_sample_set._width)
-    input_values = input_values * lhs(dim, num_samples, criterion)
+    # all processes take their samples from the same Latin hypercube
+    input_values = input_values * comm.bcast(lhs(dim, num_samples, criterion), root=0)
     input_values = input_values + input_sample_set._left
     input_sample_set.set_values_local(np.array_split(input_values, comm.size)[comm.rank])
 
-- 
2.43.0


From 8f39aecf90d58bf868097a7bee69a70f44d63116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:34 +0000
Subject: [PATCH 48/66] fix: rejection sampling accepts the same samples on all
 processes

---
 bet/calculateP/calculateR.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 03d0bdd..5cb29dc 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -13,6 +13,7 @@ to update an initial density on the parameter space.
 
 """
 import bet.sample
+from bet.Comm import comm
 import numpy as np
 import logging
 
@@ -190,7 +191,8 @@ def invert_rejection_sampling(discretization, bw_method=None):
     for i in range(num_clusters):
         if r[i] is None:
             continue
-        check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
+        # create random uniform weights to check r against, the same on all processes
+        check = comm.bcast(np.random.uniform(low=0, high=1, size=r[i].size), root=0)
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
         new_vals.append(discretization.get_input_sample_set().get_values()[lam_ptr[i][idx]])
-- 
2.43.0


From 33210947aff1befde4ac0ee1b2cba8b8161a8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:55 +0000
Subject: [PATCH 49/66] fix: objects loaded on several processes hold the local
 arrays and pointers of the process

---
 bet/sample.py | 41 +++++++++++++++++++++++++++++++++++++++++
 bet/util.py   |  4 ++++
 2 files changed, 45 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 7321cac..9320401 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -690,6 +690,22 @@ class sample_set_base(object):
                 current_array = np.array_split(current_array, comm.size)[comm.rank]
             setattr(self, array_name + "_local", current_array)
 
+    def _redistribute(self):
+        """
+        Replaces the local arrays of an object read from a file, which are those
+        of the process that wrote it, by the ones of this process.
+        """
+        for array_name in self.array_names:
+            current_array = getattr(self, array_name)
+            current_array_local = getattr(self, array_name + "_local")
+            if current_array is not None and current_array_local is not None \
+                    and (comm.size > 1 or
+                         len(current_array) != len(current_array_local)):
+                self._update_local(array_name)
+                if self._local_index is not None:
+                    self._local_index = np.array_split(
+                        np.arange(len(current_array)), comm.size)[comm.rank]
+
     def update_bounds(self, num=None):
         """
         Creates ``self._right``, ``self._left``, ``self._width``.
@@ -2931,6 +2947,7 @@ class discretization(object):
             self._emulated_output_sample_set.local_to_global()
         if self._output_observed_set is not None:
             self._output_observed_set.local_to_global()
+        self.globalize_ptrs()
 
     def global_to_local(self):
         """
@@ -2949,3 +2966,27 @@ class discretization(object):
             self._emulated_output_sample_set.global_to_local()
         if self._output_observed_set is not None:
             self._output_observed_set.global_to_local()
+        # the pointers are distributed as the samples they belong to
+        for ptr_name in ("_io_ptr", "_emulated_ii_ptr", "_emulated_oo_ptr"):
+            ptr = getattr(self, ptr_name)
+            if ptr is not None:
+                setattr(self, ptr_name + "_local",
+                        np.array_split(ptr, comm.size)[comm.rank])
+
+    def _redistribute(self):
+        """
+        Replaces the local arrays and pointers of an object read from a file,
+        which are those of the process that wrote it, by the ones of this
+        process.
+        """
+        for sample_set_name in self.sample_set_names:
+            current_set = getattr(self, sample_set_name)
+            if current_set is not None:
+                current_set._redistribute()
+        for ptr_name in ("_io_ptr", "_emulated_ii_ptr", "_emulated_oo_ptr"):
+            ptr = getattr(self, ptr_name)
+            ptr_local = getattr(self, ptr_name + "_local")
+            if ptr is not None and ptr_local is not None and \
+                    (comm.size > 1 or len(ptr) != len(ptr_local)):
+                setattr(self, ptr_name + "_local",
+                        np.array_split(ptr, comm.size)[comm.rank])
diff --git a/bet/util.py b/bet/util.py
index 4b1d635..c140417 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -14,6 +14,7 @@ important methods are:
 import sys
 import collections.abc
 import os
+import re
 import glob
 import logging
 import numpy as np
@@ -279,6 +280,9 @@ def load_object(file_name, localize=False):
         return load_object_parallel(file_name)
     with open(file_name+'.p', "rb") as load_file:
         loaded_set = pickle.load(load_file)
+    if not re.match(r'proc\d+_', os.path.basename(file_name)) and \
+            hasattr(loaded_set, '_redistribute'):
+        loaded_set._redistribute()
     if localize:
         loaded_set.global_to_local()
     return loaded_set
-- 
2.43.0


From 6c243e481eba4914aa3ad030e0885df6f4e5002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:10 +0000
Subject: [PATCH 50/66] fix: samples around centers are the same on all
 processes

---
 bet/sensitivity/gradients.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 25f87f0..f065107 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -11,6 +11,7 @@ import scipy.spatial as spatial
 import bet.sample as sample
 import bet.util as util
 import bet.sampling.LpGeneralizedSamples as lpsam
+from bet.Comm import comm
 
 
 def sample_lp_ball(input_set, num_close, radius, p_num=2):
@@ -54,6 +55,8 @@ def sample_lp_ball(input_set, num_close, radius, p_num=2):
             # sample uniformly
             new_cluster = lpsam.Lp_generalized_uniform(input_dim,
                                                        num_close * inflate, p_num, radius, centers[i, :])
+            # all processes use the same samples
+            new_cluster = comm.bcast(new_cluster, root=0)
             # check bounds
             if input_domain is not None:
                 cluster_set.update_bounds(num_close * inflate)
-- 
2.43.0


From 813f0b0bbd15065a0154d636b35fb397a95a57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:04 +0000
Subject: [PATCH 51/66] fix: accept domains of several dimensions given as
 lists

fix_dimensions_domain rejected a list of three or more intervals and turned a
list of two intervals into an array of shape (1, 2, 2).
---
 bet/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index c140417..d631883 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -162,11 +162,8 @@ def fix_dimensions_domain(domain):
 
     """
     if not isinstance(domain, np.ndarray):
-        if len(domain) == 2:
-            domain = np.expand_dims(domain, axis=0)
-        else:
-            raise TypeError("The length must be at least 2.")
-    elif len(domain.shape) == 1 and domain.shape[0] == 2:
+        domain = np.array(domain)
+    if len(domain.shape) == 1 and domain.shape[0] == 2:
         domain = np.expand_dims(domain, axis=0)
     elif len(domain.shape) == 2 and domain.shape[1] == 2:
         pass  # The shape is already correct!
-- 
2.43.0


From 74d59488a27f1f4a2ca670c4abe59c12015949d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:28 +0000
Subject: [PATCH 52/66] fix: Voronoi plots show the probability of each cell

plot_1D_voronoi gave every cell the probability of the leftmost sample,
plot_2D_voronoi failed when labels were given, and the figure was left open so
that the next plot was drawn on top of it.
---
 bet/postProcess/plotVoronoi.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 82a429a..cf30dc7 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -85,10 +85,9 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         lam_ref = sample_obj._reference_value
 
     # Form 1D Voronoi
-    ind_sort = np.argsort(sample_obj._values, axis=0)
-    ends = 0.5 * (sample_obj._values[ind_sort]
-                  [1::] + sample_obj._values[ind_sort][0:-1])
-    ends = ends[:, 0, 0]
+    ind_sort = np.argsort(sample_obj._values[:, 0])
+    ends = 0.5 * (sample_obj._values[ind_sort, 0]
+                  [1::] + sample_obj._values[ind_sort, 0][0:-1])
     mins = np.array([sample_obj._domain[0][0]] + list(ends))
     maxes = np.array(list(ends) + [sample_obj._domain[0][1]])
 
@@ -97,10 +96,10 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig = plt.figure(0, constrained_layout=True)
         if density:
             plt.hlines(
-                sample_obj._probabilities[ind_sort[0]] / (maxes - mins), mins, maxes)
+                sample_obj._probabilities[ind_sort] / (maxes - mins), mins, maxes)
             plt.ylabel(r'$\rho_{\lambda}$', fontsize=20)
         else:
-            plt.hlines(sample_obj._probabilities[ind_sort[0]], mins, maxes)
+            plt.hlines(sample_obj._probabilities[ind_sort], mins, maxes)
             plt.ylabel(r'$P_{\Lambda}(\mathcal{V}_i)$', fontsize=20)
 
         if lam_ref is not None:
@@ -115,6 +114,8 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close()
 
 
 def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
@@ -208,7 +209,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
             label2 = r'$\lambda_2$'
         else:
             label1 = lambda_label[0]
-            label1 = lambda_label[1]
+            label2 = lambda_label[1]
         plt.xlabel(label1, fontsize=20)
         plt.ylabel(label2, fontsize=20)
 
@@ -227,6 +228,8 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close()
 
 
 def voronoi_finite_polygons_2d(vor, radius=None):
-- 
2.43.0


From 3aedd79b2097f2efcf812724883d8f3ed24bc2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 53/66] fix: scatter plots of discretizations work and take
 color names by value

scatter_3D_input and scatter_3D_output called themselves with a sample set and
always failed, scatter_2D_multi_input used an undefined marker size, both
multi plots failed unless a color name was given, and the color name
'normalized radii' was compared by identity and so never recognized.
scatter_rhoD of an output set failed without a density.
---
 bet/postProcess/plotDomains.py | 78 +++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 0b5688e..e7edbfb 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -169,19 +169,19 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -228,19 +228,19 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -377,25 +377,25 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_input(sample_obj, sample_nos, color,
-                     ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                     filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
@@ -438,25 +438,25 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_output(sample_obj, sample_nos, color,
-                      ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                      filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
@@ -510,7 +510,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
         else:
             sample_obj = sample_obj._output_sample_set
     elif isinstance(sample_obj, sample.sample_set_base):
-        if io_flag == 'output':
+        if io_flag == 'output' and rho_D is not None:
             rD = rho_D(sample_obj.get_values())
     else:
         raise bad_object("Improper sample object")
@@ -912,7 +912,7 @@ def scatter_2D_multi(sample_obj, color=None, ref_sample=None,
 
 def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
                            img_folder='figs/', filename="scatter2Dm_input",
-                           label_char=r'$\lambda', showdim=None, file_extension=".png"):
+                           label_char=r'$\lambda', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
@@ -946,20 +946,21 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_input_sample_set()
+    cbar_label = None
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -1005,20 +1006,21 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_output_sample_set()
+    cbar_label = None
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-- 
2.43.0


From 3b15cdfb995e81087f246d6bf9c6fd2dbf081e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 54/66] fix: honour num_points in plot_1d_marginal_densities
 without an interval

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index ca0d5a7..1ab22a0 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -647,7 +647,7 @@ def plot_1d_marginal_densities(sets, i, interval=None, num_points=1000, label=No
             if max1 > x_max:
                 x_max = max1
         delt = 0.25 * (x_max - x_min)
-        x = np.linspace(x_min - delt, x_max + delt, 100)
+        x = np.linspace(x_min - delt, x_max + delt, num_points)
     else:
         x = np.linspace(interval[0], interval[1], num_points)
 
-- 
2.43.0


From d9413003e8edd48dce1eb930fb76762ce64d22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:18 +0000
Subject: [PATCH 55/66] fix: valid color bar label for normalized radii

The double subscript could not be rendered, so saving the figure failed.
---
 bet/postProcess/plotDomains.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index e7edbfb..a5fa3d8 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -179,7 +179,7 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -238,7 +238,7 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -387,7 +387,7 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -448,7 +448,7 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -958,7 +958,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -1018,7 +1018,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
-- 
2.43.0


From f50c91458113bce10b5ce06fe454818247ad121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:01 +0000
Subject: [PATCH 56/66] fix: label the axes of scatter_2D_multi_output with
 $q_{i}$ instead of an unbalanced $q$_{i}$

---
 bet/postProcess/plotDomains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index a5fa3d8..c922137 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -972,7 +972,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
 
 def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
                             img_folder='figs/', filename="scatter2Dm_output",
-                            label_char=r'$q$', showdim=None, file_extension=".png", markersize=75):
+                            label_char=r'$q', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
-- 
2.43.0


From 8886941e0b93b191867ce8a5bcfacf54a002d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 57/66] fix: skewness of a set with a zero gradient is infinite
 whatever the rounding of its singular values

---
 bet/sensitivity/chooseQoIs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 650d0bf..bc4159c 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -134,6 +134,10 @@ def calculate_avg_skewness(input_set, qoi_set=None):
     # vectors, so the skewness is infinity.
     skewgi[normgiperp == 0] = np.inf
 
+    # A zero gradient is never GD from the rest, even if rounding in the singular
+    # values leaves a nonzero giperp.
+    skewgi[normgi == 0] = np.inf
+
     # If the norm of giperp is infinity, then the rest of the vector were not GD
     # to begin with, so skewness is infinity.
     skewgi[np.isinf(normgiperp)] = np.inf
-- 
2.43.0


From 1e881fe04993c6f4ad4d5dabf746c5b6b6500efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 58/66] fix: linear surrogates accept outputs given as integers

---
 bet/surrogates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 1e6364c..c20c695 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -101,7 +101,7 @@ class piecewise_polynomial_surrogate(object):
                     self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
-            new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
+            new_values_local = new_values_local + np.einsum('ijk,ik->ij', jac_local, diff_local)
             output_sample_set.set_values_local(new_values_local)
 
         # if they exist, define error estimates with piecewise constants
-- 
2.43.0


From 05c4bc8eee082d1e9723b3c75c49c174e50882a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:30 +0000
Subject: [PATCH 59/66] fix: model error estimates accept outputs given as
 integers

---
 bet/calculateP/calculateError.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index f2895a0..b4ea6cf 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -391,7 +391,8 @@ class model_error(object):
         # Setup new discretization object adding error estimates
         #: :class:`bet.sample.discretiztion` from adding error estimates
         self.disc_new = disc.copy()
-        self.disc_new._output_sample_set._values_local += self.disc.\
+        self.disc_new._output_sample_set._values_local = self.disc.\
+            _output_sample_set._values_local + self.disc.\
             _output_sample_set._error_estimates_local
         self.disc_new.set_io_ptr(globalize=False)
         self.disc_new._io_ptr = None
-- 
2.43.0


From b2ee25f7b85081145fbde054e0d6ba85ebf9fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:43 +0000
Subject: [PATCH 60/66] fix: gathering arrays of other than double precision
 with a given shape keeps their entries

---
 bet/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index d631883..2577594 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -111,8 +111,8 @@ def get_global_values(array, shape=None):
         else:
             # do an uppercase Allgather
             whole_a = np.empty(shape, dtype=dtype)
-            comm.Allgather([array.ravel(), possible_types[dtype]], [whole_a,
-                                                                    possible_types[dtype]])
+            comm.Allgather([array.astype(dtype).ravel(), possible_types[dtype]], [whole_a,
+                                                                                  possible_types[dtype]])
             return whole_a
 
 
-- 
2.43.0


From 15b0de03058f2179f077de38454d3aeaa60bab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:23 +0000
Subject: [PATCH 61/66] fix: marginals of probabilities given as integers

---
 bet/postProcess/plotP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 1ab22a0..3ab5302 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -91,6 +91,7 @@ def calculate_1D_marginal_probs(sample_set, nbins=20):
     for i in range(sample_obj.get_dim()):
         [marg, _] = np.histogram(sample_obj.get_values_local()[:, i],
                                  bins=bins[i], weights=sample_obj.get_probabilities_local())
+        marg = marg.astype(float)  # whole probabilities are summed as integers
         marg_temp = np.copy(marg)
         comm.Allreduce([marg, MPI.DOUBLE], [marg_temp, MPI.DOUBLE], op=MPI.SUM)
         marginals[i] = marg_temp
-- 
2.43.0


From 87dab1b514a04958503451db3588e982b4f3d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:20 +0000
Subject: [PATCH 62/66] fix: fitted random variables keep the names of their
 shape parameters

---
 bet/calculateP/calculateR.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 5cb29dc..959acee 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -396,16 +396,18 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
         pp = [rv[i][0], {}]
         rv_continuous = getattr(stats, rv[i][0])
         A = rv_continuous.fit(reweighted_vals[:, i], **rv[i][1])
+        # names of the shape parameters, e.g. 'a, b' for beta and 's' for lognorm
+        shapes = rv_continuous.shapes.split(', ') if rv_continuous.shapes else []
         if len(A) == 2:
             pp[1]['loc'] = A[0]
             pp[1]['scale'] = A[1]
         elif len(A) == 3:
-            pp[1]['a'] = A[0]
+            pp[1][shapes[0]] = A[0]
             pp[1]['loc'] = A[1]
             pp[1]['scale'] = A[2]
         elif len(A) == 4:
-            pp[1]['a'] = A[0]
-            pp[1]['b'] = A[1]
+            pp[1][shapes[0]] = A[0]
+            pp[1][shapes[1]] = A[1]
             pp[1]['loc'] = A[2]
             pp[1]['scale'] = A[3]
         else:
-- 
2.43.0


From 98b72ca3fd11ba4807d9460eb707703a3c2fd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:10 +0000
Subject: [PATCH 63/66] fix: lhs_sample_set rejects an input object of another
 type

---
 bet/sampling/basicSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 9ecba22..85414cb 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -225,6 +225,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     elif isinstance(input_obj, np.ndarray):
         input_sample_set = sample.sample_set(input_obj.shape[0])
         input_sample_set.set_domain(input_obj)
+    else:
+        raise bad_object("Improper sample object")
 
     dim = input_sample_set.get_dim()
     if input_sample_set.get_domain() is None:
-- 
2.43.0


From 8d86b541b181a9bb25d05065501ab772a8a5d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 64/66] fix: load_object counts only the parallel files of the
 object itself

---
 bet/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 2577594..106ef7d 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -15,7 +15,6 @@ import sys
 import collections.abc
 import os
 import re
-import glob
 import logging
 import numpy as np
 import bet.sample
@@ -296,7 +295,9 @@ def load_object_parallel(file_name):
     """
     save_dir = os.path.dirname(file_name)
     base_name = os.path.basename(file_name)
-    files = glob.glob(os.path.join(save_dir, "proc*_{}".format(base_name+'.p')))
+    # files of other objects may have names that end alike
+    pattern = re.compile(r'proc\d+_' + re.escape(base_name + '.p'))
+    files = [name for name in os.listdir(save_dir or os.curdir) if pattern.fullmatch(name)]
     if len(files) == comm.size:
         logging.info("Loading sample set using parallel files (same nproc)")
         # if the number of processors is the same then set mdat to
-- 
2.43.0


From 599f221be809d9b4bf56a76e47a0a17fdaae22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 65/66] fix: clean_data replaces infinities of single precision
 data by finite numbers

---
 bet/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index 106ef7d..4c93b9f 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -218,7 +218,9 @@ def clean_data(data):
     """
     data = np.array(data)
     data[np.isnan(data)] = 0.0
-    data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
+    # the largest number of the type of the data, so that it does not overflow
+    maxfloat = np.finfo(data.dtype).max if np.issubdtype(data.dtype, np.floating) else sys.float_info[0]
+    data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * maxfloat
 
     return data
 
-- 
2.43.0


From 22a104dff6d306aacfccc7e27981078388cfa22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:25 +0000
Subject: [PATCH 66/66] fix: plot_2D_voronoi draws unbounded cells up to the
 edge of the domain

---
 bet/postProcess/plotVoronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index cf30dc7..f9c6ba7 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -181,7 +181,9 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
     # Form Voronoi
     if comm.rank == 0:
         vor = Voronoi(sample_obj._values)
-        regions, vertices = voronoi_finite_polygons_2d(vor)
+        # the unbounded cells have to reach beyond the domain
+        extent = np.vstack((sample_obj._values, vor.vertices, np.transpose(sample_obj._domain)))
+        regions, vertices = voronoi_finite_polygons_2d(vor, radius=1E6 * np.max(np.ptp(extent, axis=0)))
         points = sample_obj._values
 
         # Make plot
-- 
2.43.0

