From 832b46570066260591e7a079757fc478d9c3687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 01/45] fix: do not modify plotting keyword dictionaries passed
 by the caller

---
 src/kikuchipy/draw/_ebsd_detector_plot.py     | 2 +-
 src/kikuchipy/draw/_ebsd_detector_plotter.py  | 6 ++----
 src/kikuchipy/draw/_projection_center_plot.py | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kikuchipy/draw/_ebsd_detector_plot.py b/src/kikuchipy/draw/_ebsd_detector_plot.py
index 123987d..b076b8b 100644
--- a/src/kikuchipy/draw/_ebsd_detector_plot.py
+++ b/src/kikuchipy/draw/_ebsd_detector_plot.py
@@ -139,7 +139,7 @@ def plot_ebsd_detector(
     )
 
     if isinstance(pattern, np.ndarray):
-        pattern_kwargs.setdefault("cmap", "gray")
+        pattern_kwargs = {"cmap": "gray", **pattern_kwargs}
         axis.imshow(pattern, extent=(xmin, xmax, ymin, ymax), **pattern_kwargs)
     else:
         # Draw a rectangle so that the detector bounds are visible even
diff --git a/src/kikuchipy/draw/_ebsd_detector_plotter.py b/src/kikuchipy/draw/_ebsd_detector_plotter.py
index 92ef522..06d9bd5 100644
--- a/src/kikuchipy/draw/_ebsd_detector_plotter.py
+++ b/src/kikuchipy/draw/_ebsd_detector_plotter.py
@@ -492,15 +492,13 @@ class GeometricalSimulationOverlay(EBSDDetectorOverlay):
     ) -> None:
         self._reflectors = reflectors
 
-        if bands_kwargs is None:
-            bands_kwargs = {}
+        bands_kwargs = dict(bands_kwargs or {})
         default_bands_kwds = {"color": "r", "linewidth": 1, "zorder": 2}
         for k, v in default_bands_kwds.items():
             bands_kwargs.setdefault(k, v)
         self._bands_kwargs = bands_kwargs
 
-        if zone_axes_kwargs is None:
-            zone_axes_kwargs = {}
+        zone_axes_kwargs = dict(zone_axes_kwargs or {})
         default_za_kwds = {"fc": "w", "ec": "k", "zorder": 3}
         for k, v in default_za_kwds.items():
             zone_axes_kwargs.setdefault(k, v)
diff --git a/src/kikuchipy/draw/_projection_center_plot.py b/src/kikuchipy/draw/_projection_center_plot.py
index c8c16a8..3ab2454 100644
--- a/src/kikuchipy/draw/_projection_center_plot.py
+++ b/src/kikuchipy/draw/_projection_center_plot.py
@@ -141,7 +141,7 @@ def plot_all_projection_centers(
     **kwargs,
 ) -> mfigure.Figure:
     # Prepare keyword arguments common to at least two modes
-    figure_kwargs.setdefault("layout", "tight")
+    figure_kwargs = {"layout": "tight", **figure_kwargs}
     if mode in ["map", "scatter"]:
         w, h = plt.rcParams["figure.figsize"]
         k = max(w, h) / 3
-- 
2.43.0


From e25c029c4463236f710c197339c44f44fc5edbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/45] fix: do not overwrite quaternions of not indexed points
 in caller's Hough data

---
 src/kikuchipy/indexing/_hough_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_hough_indexing.py b/src/kikuchipy/indexing/_hough_indexing.py
index 5b0b9d6..797ba00 100644
--- a/src/kikuchipy/indexing/_hough_indexing.py
+++ b/src/kikuchipy/indexing/_hough_indexing.py
@@ -97,7 +97,7 @@ def xmap_from_hough_indexing_data(
     phase_id = data_index["phase"]
     not_indexed = phase_id == -1
 
-    rot_arr = data_index["quat"]
+    rot_arr = data_index["quat"].copy()
     rot_arr[not_indexed] = [1, 0, 0, 0]
     rot = Rotation(rot_arr)
 
-- 
2.43.0


From 83c27bc749464e0ace1bf915646daad6d701e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/45] fix: do not modify the pattern passed to
 pattern.remove_dynamic_background()

---
 src/kikuchipy/pattern/_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kikuchipy/pattern/_pattern.py b/src/kikuchipy/pattern/_pattern.py
index 0c97635..8c502f8 100644
--- a/src/kikuchipy/pattern/_pattern.py
+++ b/src/kikuchipy/pattern/_pattern.py
@@ -592,6 +592,7 @@ def remove_dynamic_background(
         raise ValueError(f"{filter_domain} must be either of {filter_domains}.")
 
     # Remove dynamic background
+    pattern = pattern.copy()
     omin, omax = dtype_range[dtype_out.type]
     if operation == "subtract":
         corrected = _remove_background_subtract(pattern, dynamic_bg, omin, omax)
-- 
2.43.0


From c9f00c484b091e8fe331ec3952987fd612b18e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 04/45] fix: do not modify keyword arguments and trust region
 passed to refinement

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 7 ++++---
 src/kikuchipy/signals/ebsd.py                     | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index 3f9ac0f..eccda38 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -1121,8 +1121,7 @@ class _RefinementSetup:
             self.method_name = method_upper
             self.map_blocks_kwargs["opt"] = opt
         else:
-            if method_kwargs is None:
-                method_kwargs = {}
+            method_kwargs = dict(method_kwargs or {})
 
             if method == "minimize" and "method" not in method_kwargs:
                 self.method_name = "Nelder-Mead"
@@ -1231,7 +1230,9 @@ class _RefinementSetup:
             upper_abs = pc_upper
             data_to_optimize = self.pc_array
         else:  # "ori_pc"
-            trust_region[:3] = np.deg2rad(trust_region[:3])
+            trust_region = np.concatenate(
+                (np.deg2rad(trust_region[:3]), trust_region[3:])
+            )
             lower_abs = eu_lower + pc_lower
             upper_abs = eu_upper + pc_upper
             data_to_optimize = self.rotations_pc_array
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 36fee54..0650832 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3025,8 +3025,7 @@ class EBSD(KikuchipySignal2D):
         if patterns.shape[0] == patterns.chunksize[0] and not rechunk:
             pass
         else:
-            if chunk_kwargs is None:
-                chunk_kwargs = {}
+            chunk_kwargs = dict(chunk_kwargs or {})
             if "chunk_shape" not in chunk_kwargs:
                 chunk_shape = patterns.chunksize[0]
                 if chunk_shape == patterns.shape[0]:
-- 
2.43.0


From e12e083b38884885ac9ec6108ff847a7a97c684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 05/45] fix: let pattern.remove_dynamic_background() handle
 integer patterns

---
 src/kikuchipy/pattern/_pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/pattern/_pattern.py b/src/kikuchipy/pattern/_pattern.py
index 8c502f8..eccd4e1 100644
--- a/src/kikuchipy/pattern/_pattern.py
+++ b/src/kikuchipy/pattern/_pattern.py
@@ -567,6 +567,9 @@ def remove_dynamic_background(
     else:
         dtype_out = np.dtype(dtype_out)
 
+    # Work on a copy with room for the unscaled intensities
+    pattern = pattern.astype(np.result_type(pattern.dtype, np.float32))
+
     if filter_domain == "frequency":
         (
             fft_shape,
@@ -592,7 +595,6 @@ def remove_dynamic_background(
         raise ValueError(f"{filter_domain} must be either of {filter_domains}.")
 
     # Remove dynamic background
-    pattern = pattern.copy()
     omin, omax = dtype_range[dtype_out.type]
     if operation == "subtract":
         corrected = _remove_background_subtract(pattern, dynamic_bg, omin, omax)
-- 
2.43.0


From 432e1d5c9448083431f5e1c4ad3fc757879767df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 06/45] fix: do not share optimizer bounds and arguments
 between patterns refined in parallel

---
 .../indexing/_refinement/_solvers.py          | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/kikuchipy/indexing/_refinement/_solvers.py b/src/kikuchipy/indexing/_refinement/_solvers.py
index 0899b25..b5ff691 100644
--- a/src/kikuchipy/indexing/_refinement/_solvers.py
+++ b/src/kikuchipy/indexing/_refinement/_solvers.py
@@ -180,7 +180,7 @@ def _refine_orientation_solver_scipy(
     if n_pseudo_symmetry_ops == 0:
         if method_name == "minimize":
             if trust_region_passed:
-                method_kwargs["bounds"] = bounds[0]
+                method_kwargs = {**method_kwargs, "bounds": bounds[0]}
             res = method(
                 fun=_refine_orientation_objective_function,
                 x0=rotation[0],
@@ -195,7 +195,8 @@ def _refine_orientation_solver_scipy(
                 **method_kwargs,
             )
         else:  # Is always "basinhopping", due to prior check of method name
-            method_kwargs["minimizer_kwargs"].update(args=params)
+            minimizer_kwargs = {**method_kwargs["minimizer_kwargs"], "args": params}
+            method_kwargs = {**method_kwargs, "minimizer_kwargs": minimizer_kwargs}
             res = method(
                 func=_refine_orientation_objective_function,
                 x0=rotation[0],
@@ -212,7 +213,7 @@ def _refine_orientation_solver_scipy(
         for i in range(n_pseudo_symmetry_ops + 1):
             if method_name == "minimize":
                 if trust_region_passed:
-                    method_kwargs["bounds"] = bounds[i]
+                    method_kwargs = {**method_kwargs, "bounds": bounds[i]}
                 res = method(
                     fun=_refine_orientation_objective_function,
                     x0=rotation[i],
@@ -227,7 +228,8 @@ def _refine_orientation_solver_scipy(
                     **method_kwargs,
                 )
             else:  # Is always "basinhopping", due to prior check of method name
-                method_kwargs["minimizer_kwargs"].update(args=params)
+                minimizer_kwargs = {**method_kwargs["minimizer_kwargs"], "args": params}
+                method_kwargs = {**method_kwargs, "minimizer_kwargs": minimizer_kwargs}
                 res = method(
                     func=_refine_orientation_objective_function,
                     x0=rotation[i],
@@ -301,7 +303,7 @@ def _refine_pc_solver_scipy(
 
     if method_name == "minimize":
         if trust_region_passed:
-            method_kwargs["bounds"] = bounds
+            method_kwargs = {**method_kwargs, "bounds": bounds}
         res = method(
             fun=_refine_pc_objective_function,
             x0=pc,
@@ -316,7 +318,8 @@ def _refine_pc_solver_scipy(
             **method_kwargs,
         )
     else:  # Is always "basinhopping", due to prior check of method name
-        method_kwargs["minimizer_kwargs"].update(args=params)
+        minimizer_kwargs = {**method_kwargs["minimizer_kwargs"], "args": params}
+        method_kwargs = {**method_kwargs, "minimizer_kwargs": minimizer_kwargs}
         res = method(
             func=_refine_pc_objective_function,
             x0=pc,
@@ -391,7 +394,7 @@ def _refine_orientation_pc_solver_scipy(
     if n_pseudo_symmetry_ops == 0:
         if method_name == "minimize":
             if trust_region_passed:
-                method_kwargs["bounds"] = bounds[0]
+                method_kwargs = {**method_kwargs, "bounds": bounds[0]}
             res = method(
                 fun=_refine_orientation_pc_objective_function,
                 x0=rot_pc[0],
@@ -406,7 +409,8 @@ def _refine_orientation_pc_solver_scipy(
                 **method_kwargs,
             )
         else:  # Is always "basinhopping", due to prior check of method name
-            method_kwargs["minimizer_kwargs"].update(args=params)
+            minimizer_kwargs = {**method_kwargs["minimizer_kwargs"], "args": params}
+            method_kwargs = {**method_kwargs, "minimizer_kwargs": minimizer_kwargs}
             res = method(
                 func=_refine_orientation_pc_objective_function,
                 x0=rot_pc[0],
@@ -423,7 +427,7 @@ def _refine_orientation_pc_solver_scipy(
         for i in range(n_pseudo_symmetry_ops + 1):
             if method_name == "minimize":
                 if trust_region_passed:
-                    method_kwargs["bounds"] = bounds[i]
+                    method_kwargs = {**method_kwargs, "bounds": bounds[i]}
                 res = method(
                     fun=_refine_orientation_pc_objective_function,
                     x0=rot_pc[i],
@@ -438,7 +442,8 @@ def _refine_orientation_pc_solver_scipy(
                     **method_kwargs,
                 )
             else:  # Is always "basinhopping", due to prior check of method name
-                method_kwargs["minimizer_kwargs"].update(args=params)
+                minimizer_kwargs = {**method_kwargs["minimizer_kwargs"], "args": params}
+                method_kwargs = {**method_kwargs, "minimizer_kwargs": minimizer_kwargs}
                 res = method(
                     func=_refine_orientation_pc_objective_function,
                     x0=rot_pc[i],
-- 
2.43.0


From 2b8b772e2900247fe83b0f7f31a048a7f2b8a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 07/45] fix: do not share refinement setup between refinement
 calls

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index eccda38..8cfc087 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -937,6 +937,8 @@ class _RefinementSetup:
     ):
         """Set up EBSD refinement."""
         self.mode = mode
+        self.map_blocks_kwargs = {}
+        self.solver_kwargs = {}
 
         self.set_optimization_parameters(
             rtol=rtol,
-- 
2.43.0


From f9044051ed53b7d4f9cbd6dfc38cd64ae074ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 08/45] fix: do not modify a detector shared with other signals
 in EBSD.downsample() and crop()

---
 src/kikuchipy/signals/ebsd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 0650832..b1fa450 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1196,9 +1196,10 @@ class EBSD(KikuchipySignal2D):
             static_bg_new = _downsample2d(static_bg, factor, omin, omax, dtype_out)
             attrs["static_background"] = static_bg_new
 
-        detector: EBSDDetector = attrs["detector"]
+        detector: EBSDDetector = attrs["detector"].deepcopy()
         detector.shape = sig_shape_new
         detector.binning *= factor
+        attrs["detector"] = detector
 
         map_kw = {
             "show_progressbar": show_progressbar,
@@ -2750,7 +2751,7 @@ class EBSD(KikuchipySignal2D):
         nav_ndim = am.navigation_dimension
 
         # Update attributes
-        attrs = self._get_custom_attributes()
+        attrs = self._get_custom_attributes(make_deepcopy=True)
         if idx_data in am.signal_indices_in_array:
             # Slice static background and update detector shape...
             sig_slices = 2 * [slice(None)]
-- 
2.43.0


From a8679e08961853ca251ad841111875f2656d5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 09/45] fix: do not modify the similarity metric passed to
 dictionary indexing

---
 src/kikuchipy/signals/ebsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index b1fa450..46034eb 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3071,6 +3071,9 @@ class EBSD(KikuchipySignal2D):
                 "kikuchipy.indexing.SimilarityMetric"
             )
 
+        # Leave a metric passed by the caller as it is
+        metric = copy.copy(metric)
+
         metric.n_experimental_patterns = max(self.axes_manager.navigation_size, 1)
         metric.n_dictionary_patterns = max(n_dictionary_patterns, 1)
 
-- 
2.43.0


From 8b4e049261c97030bf7d8888d1c33572d45e042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 10/45] fix: restore learning results if
 EBSD.get_decomposition_model() fails

---
 src/kikuchipy/signals/ebsd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 46034eb..d2c922f 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -2712,11 +2712,12 @@ class EBSD(KikuchipySignal2D):
         )
 
         # Call HyperSpy's function
-        s_model = super().get_decomposition_model()
-
-        # Revert learning results to original results
-        self.learning_results.factors = factors_orig
-        self.learning_results.loadings = loadings_orig
+        try:
+            s_model = super().get_decomposition_model()
+        finally:
+            # Revert learning results to original results
+            self.learning_results.factors = factors_orig
+            self.learning_results.loadings = loadings_orig
 
         # Remove learning results from model signal
         s_model.learning_results = LearningResults()
-- 
2.43.0


From da3e8eb5ebf0f900028cd8e4edf2ff50261d33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 11/45] fix: return a signal when averaging with a window of
 one pattern and inplace=False

---
 src/kikuchipy/signals/ebsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index d2c922f..16107cf 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1020,7 +1020,14 @@ class EBSD(KikuchipySignal2D):
                 f"A window of shape {window_shape} was passed, no averaging is "
                 "therefore performed"
             )
-            return
+            if inplace:
+                return
+            s_out = self.deepcopy()
+            if lazy_output and not s_out._lazy:
+                s_out = s_out.as_lazy()
+            elif lazy_output is False and s_out._lazy:
+                s_out.compute()
+            return s_out
         elif len(nav_shape) > len(window_shape):
             averaging_window = averaging_window.reshape(window_shape + (1,))
 
-- 
2.43.0


From 8c56e6709078999efda6e9cd36d4c3d59fd5437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 12/45] fix: do not add reflector intensities to the same pixel
 from many threads

---
 src/kikuchipy/simulations/kikuchi_pattern_simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
index eaea42d..8ef278c 100644
--- a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
+++ b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
@@ -688,8 +688,9 @@ def get_pattern(intensity, xyz_hemi, xyz_reflector, theta_reflector):
     n = xyz_hemi.shape[0]
     m = xyz_reflector.shape[0]
     pattern = np.zeros(n, dtype=np.float64)
-    for i in nb.prange(m):
-        for j in range(n):
+    # Each pixel must be written to by one thread only
+    for j in nb.prange(n):
+        for i in range(m):
             D = vec_dot(xyz_reflector[i], xyz_hemi[j])
             if np.abs(D) <= 1e-7:
                 pattern[j] = pattern[j] + 0.5 * intensity[i]
-- 
2.43.0


From 0b47e7d2030b3da345f70cb724335e278d4254db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 13/45] fix: keep axes and metadata in signals returned from
 filtering, averaging and dynamic background estimation

---
 .../signals/_kikuchi_master_pattern.py          |  2 +-
 src/kikuchipy/signals/_kikuchipy_signal.py      | 10 ++++++++++
 src/kikuchipy/signals/ebsd.py                   | 17 +++++++++++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/signals/_kikuchi_master_pattern.py b/src/kikuchipy/signals/_kikuchi_master_pattern.py
index 77827ee..4bea3a7 100644
--- a/src/kikuchipy/signals/_kikuchi_master_pattern.py
+++ b/src/kikuchipy/signals/_kikuchi_master_pattern.py
@@ -206,7 +206,7 @@ class KikuchiMasterPattern(KikuchipySignal2D, hs.signals.Signal2D):
 
         return self.__class__(
             data_out,
-            axes=list(self.axes_manager.as_dictionary().values()),
+            **self._get_axes_and_metadata(),
             phase=self.phase.deepcopy(),
             projection="lambert",
             hemisphere=deepcopy(self.hemisphere),
diff --git a/src/kikuchipy/signals/_kikuchipy_signal.py b/src/kikuchipy/signals/_kikuchipy_signal.py
index 30c474c..07cf1a3 100644
--- a/src/kikuchipy/signals/_kikuchipy_signal.py
+++ b/src/kikuchipy/signals/_kikuchipy_signal.py
@@ -500,6 +500,16 @@ class KikuchipySignal2D(Signal2D):
                 dictionary[name] = attr
         return dictionary
 
+    def _get_axes_and_metadata(self) -> dict:
+        """Return a dictionary of axes and metadata to pass when creating a
+        new signal with the same axes and metadata as this signal.
+        """
+        return {
+            "axes": list(self.axes_manager.as_dictionary().values()),
+            "metadata": self.metadata.as_dictionary(),
+            "original_metadata": self.original_metadata.as_dictionary(),
+        }
+
     def _set_custom_attributes(
         self,
         attributes: dict,
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 16107cf..9e92fac 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -779,8 +779,9 @@ class EBSD(KikuchipySignal2D):
         )
 
         attrs = self._get_custom_attributes()
+        signal_kw = self._get_axes_and_metadata()
         if lazy_output or (lazy_output is None and self._lazy):
-            s_out = LazyEBSD(background_patterns, **attrs)
+            s_out = LazyEBSD(background_patterns, **attrs, **signal_kw)
         else:
             background_return = np.empty(
                 shape=background_patterns.shape, dtype=dtype_out
@@ -793,7 +794,7 @@ class EBSD(KikuchipySignal2D):
                 pbar.register()
 
             background_patterns.store(background_return, compute=True)
-            s_out = EBSD(background_return, **attrs)
+            s_out = EBSD(background_return, **attrs, **signal_kw)
 
             try:
                 pbar.unregister()
@@ -930,7 +931,11 @@ class EBSD(KikuchipySignal2D):
                 self.data = filtered_patterns
             s_out = None
         else:
-            s_out = LazyEBSD(filtered_patterns, **self._get_custom_attributes())
+            s_out = LazyEBSD(
+                filtered_patterns,
+                **self._get_custom_attributes(),
+                **self._get_axes_and_metadata(),
+            )
             if not return_lazy:
                 s_out.compute()
 
@@ -1104,7 +1109,11 @@ class EBSD(KikuchipySignal2D):
                 self.data = averaged_patterns
             s_out = None
         else:
-            s_out = LazyEBSD(averaged_patterns, **self._get_custom_attributes())
+            s_out = LazyEBSD(
+                averaged_patterns,
+                **self._get_custom_attributes(),
+                **self._get_axes_and_metadata(),
+            )
             if not return_lazy:
                 s_out.compute()
 
-- 
2.43.0


From a54e313e9704448970b594e2c49a4e56dc47b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 14/45] fix: keep twist and update projection centers and shape
 correctly when slicing the detector of a signal

---
 src/kikuchipy/detectors/_ebsd_detector.py |  3 ++-
 src/kikuchipy/signals/ebsd.py             | 24 +++++++++++------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index c9d7e12..427b4cb 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -1023,12 +1023,13 @@ class EBSDDetector:
 
         return self.__class__(
             shape=(ny_new, nx_new),
-            pc=np.dstack((pcx_new, pcy_new, pcz_new)),
+            pc=np.stack((pcx_new, pcy_new, pcz_new), axis=-1),
             tilt=self.tilt,
             sample_tilt=self.sample_tilt,
             binning=int(self._binning),
             px_size=self.px_size,
             azimuthal=self.azimuthal,
+            twist=self.twist,
         )
 
     def deepcopy(self) -> Self:
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 9e92fac..00bca93 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3340,21 +3340,17 @@ def _update_custom_attributes(
         except TypeError:
             _logger.debug("Could not slice EBSD.static_background attribute array")
 
-        # Make slices into extent (top, bottom, left, right)
-        extent = [
-            sig_slices[0].start,
-            sig_slices[0].stop,
-            sig_slices[1].start,
-            sig_slices[1].stop,
-        ]
-        for i, new in enumerate([0, new_sig_shape[0], 0, new_sig_shape[1]]):
-            if extent[i] is None:
-                extent[i] = new
-
         det = attributes["detector"]
         try:
-            attributes["detector"] = det.crop(extent)
-        except ValueError:
+            # Make slices into extent (top, bottom, left, right)
+            extent = []
+            for sig_slice, old_size in zip(sig_slices, det.shape):
+                extent.extend(sig_slice.indices(old_size)[:2])
+            new_det = det.crop(extent)
+            if new_det.shape != tuple(new_sig_shape):
+                raise ValueError("Slices do not give a rectangle of adjacent pixels")
+            attributes["detector"] = new_det
+        except (TypeError, ValueError):
             _logger.debug(
                 "Could not crop EBSD.detector attribute, setting PC array to [0.5, 0.5,"
                 " 0.5]"
@@ -3365,6 +3361,7 @@ def _update_custom_attributes(
                 sample_tilt=det.sample_tilt,
                 tilt=det.tilt,
                 azimuthal=det.azimuthal,
+                twist=det.twist,
                 px_size=det.px_size,
                 binning=det.binning,
             )
@@ -3383,6 +3380,7 @@ def _update_custom_attributes(
             attributes["xmap"] = xmap
         except (IndexError, TypeError, ValueError):
             _logger.debug("Could not slice EBSD.xmap attribute, setting it to None")
+            attributes["xmap"] = None
 
         if attributes["detector"].navigation_shape != (1,):
             pc = attributes["detector"].pc[nav_slices]
-- 
2.43.0


From 9db57e270cbec9bdf978d940c205cf0c634dbdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 15/45] fix: use the fourth corner in EBSDDetector.r_max

The corner (x_min, y_max) was left out, with (x_min, y_min) used twice, so
the maximum distance was too small when this is the farthest corner.
---
 src/kikuchipy/detectors/_ebsd_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index 427b4cb..4f1ac4f 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -829,7 +829,7 @@ class EBSDDetector:
         corners[..., 0] = self.x_min**2 + self.y_min**2  # Upper left
         corners[..., 1] = self.x_max**2 + self.y_min**2  # Upper right
         corners[..., 2] = self.x_max**2 + self.y_max**2  # Lower right
-        corners[..., 3] = self.x_min**2 + self.y_min**2  # Lower left
+        corners[..., 3] = self.x_min**2 + self.y_max**2  # Lower left
         return np.atleast_2d(np.sqrt(np.max(corners, axis=-1)))
 
     @property
-- 
2.43.0


From ac87ef4aa2454e9d570c5f762fb4a7aa59292065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 16/45] fix: write remaining entries after one that cannot be
 written to HDF5

An entry which could not be written ended the loop, so that all entries
after it were left out of the file although only the one was warned about.
---
 src/kikuchipy/io/plugins/_h5ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/_h5ebsd.py b/src/kikuchipy/io/plugins/_h5ebsd.py
index e6a796e..e4c676e 100644
--- a/src/kikuchipy/io/plugins/_h5ebsd.py
+++ b/src/kikuchipy/io/plugins/_h5ebsd.py
@@ -121,7 +121,7 @@ def _dict2hdf5group(dictionary: dict, group: h5py.Group, **kwargs) -> None:
                     "The HDF5 writer could not write the following (key, value) pair to"
                     f" file: ({key}, {val})"
                 )
-                break  # or continue?
+                continue
         group.create_dataset(key, shape=dshape, dtype=ddtype, **kwargs)
         group[key][()] = val
 
-- 
2.43.0


From 1e5ef01a26eb404d3aa6c7e944a45430c561d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 17/45] fix: read a missing static background in h5ebsd files
 as None

The writer uses -1 for a signal without a static background, which the
reader gave back as the background.
---
 src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
index c8042d2..5a422d8 100644
--- a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
@@ -127,7 +127,11 @@ class KikuchipyH5EBSDReader(H5EBSDReader):
         scan_dict["xmap"] = xmap
 
         # --- Static background
-        scan_dict["static_background"] = header.get("static_background")
+        static_bg = header.get("static_background")
+        if not isinstance(static_bg, np.ndarray):
+            # The writer uses -1 when there is no background
+            static_bg = None
+        scan_dict["static_background"] = static_bg
 
         # --- Detector
         pc = np.dstack(
-- 
2.43.0


From 3b4cfbf6cf24c0b9e6e5f96ff5859267c600e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 18/45] fix: pass dtype_out and show_progressbar in order in
 VirtualBSEImage

normalize_intensity() passed the two to the parent class in the wrong order,
so each was taken for the other.
---
 src/kikuchipy/signals/virtual_bse_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/virtual_bse_image.py b/src/kikuchipy/signals/virtual_bse_image.py
index 872f48b..1a0bed8 100644
--- a/src/kikuchipy/signals/virtual_bse_image.py
+++ b/src/kikuchipy/signals/virtual_bse_image.py
@@ -75,8 +75,8 @@ class VirtualBSEImage(KikuchipySignal2D):
         return super().normalize_intensity(
             num_std,
             divide_by_square_root,
-            show_progressbar,
             dtype_out,
+            show_progressbar,
             inplace,
             lazy_output,
         )
-- 
2.43.0


From 3a3777374d4d436cfcd405f5c36d4e341dda75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 19/45] fix: give axes of one-dimensional EDAX binary scans
 their own scales

The map axis got the step size of the other map axis, and the first pattern
axis the step size of the map.
---
 src/kikuchipy/io/plugins/edax_binary/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/edax_binary/_api.py b/src/kikuchipy/io/plugins/edax_binary/_api.py
index a7f5f04..7e21721 100644
--- a/src/kikuchipy/io/plugins/edax_binary/_api.py
+++ b/src/kikuchipy/io/plugins/edax_binary/_api.py
@@ -205,7 +205,7 @@ class EDAXBinaryFileReader:
             data = data.rechunk(chunks)
 
         units = ["um"] * ndim
-        scales = [header["dy"], header["dx"]] + [1, 1][:nav_dim]
+        scales = [header["dy"], header["dx"]][-nav_dim:] + [1, 1]
         axes_names = ["y", "x"][-nav_dim:] + ["dy", "dx"]
         axes: list[dict] = []
         for i in range(ndim):
-- 
2.43.0


From 1e9d8892d5473a42ba43052a96b7df8125c90599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 20/45] fix: use initial steps of Euler angles in degrees as
 documented in refinement

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index 8cfc087..488d197 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -1113,8 +1113,12 @@ class _RefinementSetup:
                         "both"
                     )
                 initial_step = np.repeat(initial_step, 3)
-                opt.set_initial_step(initial_step)
                 self.initial_step = list(initial_step)
+                if self.mode != "pc":
+                    # Euler angles are optimized in radians
+                    initial_step = initial_step.astype(np.float64)
+                    initial_step[:3] = np.deg2rad(initial_step[:3])
+                opt.set_initial_step(initial_step)
 
             if maxeval is not None:
                 opt.set_maxeval(maxeval)
-- 
2.43.0


From acf10a199984d7f5f2696061c4998d8b2227a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 21/45] fix: refuse unknown background removal operations
 instead of dividing

---
 src/kikuchipy/pattern/_pattern.py | 10 ++++++++--
 src/kikuchipy/signals/ebsd.py     |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kikuchipy/pattern/_pattern.py b/src/kikuchipy/pattern/_pattern.py
index eccd4e1..e3db14e 100644
--- a/src/kikuchipy/pattern/_pattern.py
+++ b/src/kikuchipy/pattern/_pattern.py
@@ -476,8 +476,11 @@ def _remove_dynamic_background(
     dynamic_bg = filter_func(pattern, **kwargs)
     if operation == "subtract":
         pattern = _remove_background_subtract(pattern, dynamic_bg, omin, omax)
-    else:
+    elif operation == "divide":
         pattern = _remove_background_divide(pattern, dynamic_bg, omin, omax)
+    else:
+        operations = ["subtract", "divide"]
+        raise ValueError(f"{operation} must be either of {operations}")
     return pattern.astype(dtype_out)
 
 
@@ -598,8 +601,11 @@ def remove_dynamic_background(
     omin, omax = dtype_range[dtype_out.type]
     if operation == "subtract":
         corrected = _remove_background_subtract(pattern, dynamic_bg, omin, omax)
-    else:
+    elif operation == "divide":
         corrected = _remove_background_divide(pattern, dynamic_bg, omin, omax)
+    else:
+        operations = ["subtract", "divide"]
+        raise ValueError(f"{operation} must be either of {operations}")
 
     return corrected.astype(dtype_out)
 
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 00bca93..d011509 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -549,8 +549,11 @@ class EBSD(KikuchipySignal2D):
         # Remove background and rescale to input data type
         if operation == "subtract":
             operation_func = _remove_static_background_subtract
-        else:
+        elif operation == "divide":
             operation_func = _remove_static_background_divide
+        else:
+            operations = ["subtract", "divide"]
+            raise ValueError(f"{operation} must be either of {operations}")
 
         map_kw = {
             "show_progressbar": show_progressbar,
@@ -671,6 +674,10 @@ class EBSD(KikuchipySignal2D):
             filter_domains = ["frequency", "spatial"]
             raise ValueError(f"{filter_domain} must be either of {filter_domains}")
 
+        operations = ["subtract", "divide"]
+        if operation not in operations:
+            raise ValueError(f"{operation} must be either of {operations}")
+
         map_func = _remove_dynamic_background
 
         dtype_out = self.data.dtype.type
-- 
2.43.0


From 5d1ec6fc454c10bc75515b3cdd948f201a8c2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 22/45] fix: refuse unknown orientations, transformations and
 plotting backends

---
 src/kikuchipy/detectors/_ebsd_detector.py              | 6 ++++++
 src/kikuchipy/detectors/_fit_projection_center.py      | 7 ++++++-
 src/kikuchipy/simulations/kikuchi_pattern_simulator.py | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index 4f1ac4f..3402164 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -2158,6 +2158,12 @@ class EBSDDetector:
                 f"Plot mode {mode!r} must be one of the following strings {modes}"
             )
 
+        orientations = ["horizontal", "vertical"]
+        if orientation not in orientations:
+            raise ValueError(
+                f"Orientation {orientation!r} must be either of {orientations}"
+            )
+
         if figure_kwargs is None:
             figure_kwargs = {}
 
diff --git a/src/kikuchipy/detectors/_fit_projection_center.py b/src/kikuchipy/detectors/_fit_projection_center.py
index e766090..754e0c2 100644
--- a/src/kikuchipy/detectors/_fit_projection_center.py
+++ b/src/kikuchipy/detectors/_fit_projection_center.py
@@ -111,8 +111,13 @@ def fit_plane_to_pc(
         )
         pc_fit += pc_average
         pc_fit_map += pc_average
-    else:
+    elif transformation == "affine":
         pc_fit, pc_fit_map = fit_pc_affine(pc_flat, pc_indices_flat, map_indices_flat)
+    else:
+        transformations = ["projective", "affine"]
+        raise ValueError(
+            f"Transformation {transformation!r} must be either of {transformations}"
+        )
 
     max_err = np.max(np.abs(pc_flat - pc_fit), axis=0)
     _logger.debug(f"Max. error for (PCx, PCy, PCz): {max_err}")
diff --git a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
index 8ef278c..34b4641 100644
--- a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
+++ b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
@@ -449,6 +449,9 @@ class KikuchiPatternSimulator:
             :class:`~matplotlib.figure.Figure` or a
             :class:`~pyvista.Plotter` is returned.
         """
+        allowed_backends = ["matplotlib", "pyvista"]
+        if projection == "spherical" and backend not in allowed_backends:
+            raise ValueError(f"Unknown `backend`, options are {allowed_backends}")
         if projection == "spherical" and backend == "pyvista":
             verify_dependency_or_raise("pyvista", "3D spherical plot")
 
-- 
2.43.0


From 0d29fac77514c9f05e0a85fc64069f846b8d5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 23/45] fix: let a given extension decide the format a signal
 is saved in

---
 src/kikuchipy/signals/ebsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index d011509..9e8adcc 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -2668,6 +2668,9 @@ class EBSD(KikuchipySignal2D):
         """
         if filename is not None:
             fname = Path(filename)
+            if extension is not None:
+                # A given extension decides the format
+                fname = filename = fname.with_suffix("." + extension.lstrip("."))
         else:
             tmp_params = self.tmp_parameters
             if tmp_params.has_item("filename") and tmp_params.has_item("folder"):
-- 
2.43.0


From 029d2875f59220f09e52360b126504e8b0fed8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 24/45] fix: add the hemisphere axis of a master pattern
 whatever the letter case

---
 src/kikuchipy/simulations/kikuchi_pattern_simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
index 34b4641..fda4d35 100644
--- a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
+++ b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
@@ -75,7 +75,11 @@ from tqdm import tqdm
 
 from kikuchipy._constants import verify_dependency_or_raise
 from kikuchipy._utils.numba import vec_dot
-from kikuchipy._utils.vector import ValidHemispheres, poles_from_hemisphere
+from kikuchipy._utils.vector import (
+    ValidHemispheres,
+    parse_hemisphere,
+    poles_from_hemisphere,
+)
 from kikuchipy.detectors._ebsd_detector import EBSDDetector
 from kikuchipy.draw._arrow_3d import Arrow3D
 from kikuchipy.signals.ebsd_master_pattern import EBSDMasterPattern
@@ -164,6 +168,7 @@ class KikuchiPatternSimulator:
 
         size = int(2 * half_size + 1)
 
+        hemisphere = parse_hemisphere(hemisphere)
         poles = poles_from_hemisphere(hemisphere)
 
         match scaling:
-- 
2.43.0


From 3548d500a8ecb30e6b8fa74861abf48c4abcb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 25/45] fix: order the projection centers of a Bruker region of
 interest like its patterns

---
 src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
index a7ab28f..b2fabfd 100644
--- a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
@@ -172,6 +172,8 @@ class BrukerH5EBSDReader(H5EBSDReader):
             )
         )
         if pc.size > 3:
+            if indices is not None:
+                pc = pc[indices]
             pc = pc.reshape((ny, nx, 3))
         scan_dict["detector"] = EBSDDetector(
             shape=(sy, sx),
-- 
2.43.0


From fd7b131bdb2bff711ba415bc50aee68931b0f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 26/45] fix: name and scale the axes of NORDIF line scans and
 single patterns

---
 src/kikuchipy/io/plugins/nordif/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/io/plugins/nordif/_api.py b/src/kikuchipy/io/plugins/nordif/_api.py
index f812e7b..ac76540 100644
--- a/src/kikuchipy/io/plugins/nordif/_api.py
+++ b/src/kikuchipy/io/plugins/nordif/_api.py
@@ -148,14 +148,14 @@ def file_reader(
             # Data is stored image by image
             pw = [(0, ny * nx * sy * sx - data.size)]
             data = np.pad(data, pw)
-            data = data.reshape((ny, nx, sy, sx))
+            data = data.reshape((ny, nx, sy, sx)).squeeze()
     else:
         data = memmap_distributed(
             filename=file.name,
             chunks=chunks,
             shape=(ny, nx, sy, sx),
             dtype=np.dtype("uint8"),
-        )
+        ).squeeze()
 
     scan["data"] = data
 
@@ -174,6 +174,11 @@ def file_reader(
             "set_scan_calibration()"
         )
 
+    # Leave out axes of size 1, which the data does not have
+    is_kept = [size != 1 for size in (ny, nx, sy, sx)]
+    names = [name for name, keep in zip(names, is_kept) if keep]
+    scales = scales[is_kept]
+
     # Create axis instances for each axis
     axes = [
         {
-- 
2.43.0


From 68a93c2b9b23e5134875a4206b9f9e98e3bd8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 27/45] fix: drop axes of size one of padded h5ebsd patterns

---
 src/kikuchipy/io/plugins/_h5ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/_h5ebsd.py b/src/kikuchipy/io/plugins/_h5ebsd.py
index e4c676e..53d938f 100644
--- a/src/kikuchipy/io/plugins/_h5ebsd.py
+++ b/src/kikuchipy/io/plugins/_h5ebsd.py
@@ -376,7 +376,7 @@ class H5EBSDReader(abc.ABC):
                 data = da.pad(data.flatten(), pw)
             else:
                 data = np.pad(data.flatten(), pw)
-            data = data.reshape((ny, nx, sy, sx))
+            data = data.reshape((ny, nx, sy, sx)).squeeze()
 
         return data
 
-- 
2.43.0


From 692f1026574f2afdf3f29210606e1ab9799b3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 28/45] fix: name the axes of Lambert master patterns with many
 asymmetric positions

---
 src/kikuchipy/io/plugins/_emsoft_master_pattern.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/kikuchipy/io/plugins/_emsoft_master_pattern.py b/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
index 6a4d036..33f64e3 100644
--- a/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
+++ b/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
@@ -165,12 +165,9 @@ class EMsoftMasterPatternReader(abc.ABC):
             )
 
         if projection == "lambert" and diff_type != "ECP":
-            if self.hemisphere == "both":
-                sum_axis = 1
-                data_shape = (data_shape[0],) + data_shape[2:]
-            else:
-                sum_axis = 0
-                data_shape = data_shape[1:]
+            # Sum over asymmetric positions
+            sum_axis = 1 if self.hemisphere == "both" else 0
+            data_shape = (data_shape[0],) + data_shape[2:]
             data = data.sum(axis=sum_axis).astype(data.dtype)
 
         # Remove 1-dimensions
-- 
2.43.0


From aadcd4afc1066583cbcc68a1c6fbf0e262580c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 29/45] fix: read patterns in a directory in the order of their
 names

---
 src/kikuchipy/io/plugins/ebsd_directory/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/ebsd_directory/_api.py b/src/kikuchipy/io/plugins/ebsd_directory/_api.py
index 6b182c4..235d414 100644
--- a/src/kikuchipy/io/plugins/ebsd_directory/_api.py
+++ b/src/kikuchipy/io/plugins/ebsd_directory/_api.py
@@ -85,7 +85,7 @@ def file_reader(
     Adapted from https://blog.dask.org/2019/06/20/load-image-data.
     """
     # Read all filenames
-    filenames = glob.glob(filename)
+    filenames = sorted(glob.glob(filename))
     n_patterns = len(filenames)
     _logger.debug(f"{n_patterns} patterns found in directory")
     ext = os.path.splitext(filename)[1]
-- 
2.43.0


From bb78540445a4b894141e7b84e69ea647e2b660c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 30/45] fix: default standard deviation of dynamic background
 is pattern width / 8

---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 9e8adcc..91469d9 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -746,7 +746,7 @@ class EBSD(KikuchipySignal2D):
             Whether it is lazy is determined from ``lazy_output``.
         """
         if std is None:
-            std = self.axes_manager.signal_shape[-1] / 8
+            std = self.axes_manager.signal_shape[0] / 8
 
         # Get filter function and set up necessary keyword arguments
         if filter_domain == "frequency":
-- 
2.43.0


From 3a2fec3ff862198c506c57e25fdcade6f79b781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 31/45] fix: default contextual regions are 1/4 of image height
 by 1/4 of image width

---
 src/kikuchipy/signals/_kikuchipy_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/_kikuchipy_signal.py b/src/kikuchipy/signals/_kikuchipy_signal.py
index 07cf1a3..95adffd 100644
--- a/src/kikuchipy/signals/_kikuchipy_signal.py
+++ b/src/kikuchipy/signals/_kikuchipy_signal.py
@@ -438,7 +438,7 @@ class KikuchipySignal2D(Signal2D):
             )
 
         # Determine window size (shape of contextual region)
-        sig_shape = self.axes_manager.signal_shape
+        sig_shape = self._signal_shape_rc
         if kernel_size is None:
             kernel_size = (sig_shape[0] // 4, sig_shape[1] // 4)
         elif isinstance(kernel_size, numbers.Number):
-- 
2.43.0


From 79fa45d12dbb2d322108670b2441b0110ff0bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 32/45] fix: average patterns in a map in chunks along columns
 with a window of one axis

---
 src/kikuchipy/signals/ebsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 91469d9..2f95512 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1041,7 +1041,8 @@ class EBSD(KikuchipySignal2D):
                 s_out.compute()
             return s_out
         elif len(nav_shape) > len(window_shape):
-            averaging_window = averaging_window.reshape(window_shape + (1,))
+            window_shape = window_shape + (1,)
+            averaging_window = averaging_window.reshape(window_shape)
 
         # Get sum of window data for each pattern, to normalize with
         # after correlation
-- 
2.43.0


From 4f3e9f089d7e9b8120ddd4f91301b5560ea0e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 33/45] fix: phase IDs of merged crystal maps with equal or not
 indexed phases

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index ce0f03a..8de83d5 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -236,6 +236,7 @@ def merge_crystal_maps(
     phase_list = PhaseList()
     if -1 in phase_id:
         phase_list.add_not_indexed()
+    merged_phase_id = np.full(map_size, -1, dtype=phase_id.dtype)
     for i, (nav_mask1d, xmap) in enumerate(zip(navigation_masks1d, crystal_maps)):
         phase_mask = phase_id == i
 
@@ -248,9 +249,7 @@ def merge_crystal_maps(
                 # If they are equal, do not duplicate it in the phase
                 # list but update the phase ID
                 equal_phases, different = _equal_phase(phase, phase_list[phase.name])
-                if equal_phases:
-                    phase_id[phase_mask] = phase_list.id_from_name(phase.name)
-                else:
+                if not equal_phases:
                     name = phase.name
                     phase.name = name + str(i)
                     warnings.warn(
@@ -261,6 +260,7 @@ def merge_crystal_maps(
                     phase_list.add(phase)
             else:
                 phase_list.add(phase)
+            merged_phase_id[phase_mask] = phase_list.id_from_name(phase.name)
         else:
             continue
 
@@ -346,7 +346,7 @@ def merge_crystal_maps(
 
     return CrystalMap(
         rotations=Rotation(new_rotations),
-        phase_id=phase_id,
+        phase_id=merged_phase_id,
         phase_list=phase_list,
         prop=props,
         scan_unit=crystal_maps[0].scan_unit,
-- 
2.43.0


From ac0231791ac671adbb52c1774ba6f18e15031b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 34/45] fix: keep the best matches of metrics where lower is
 better in every iteration

---
 src/kikuchipy/indexing/_dictionary_indexing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kikuchipy/indexing/_dictionary_indexing.py b/src/kikuchipy/indexing/_dictionary_indexing.py
index 626d7e2..f4df3f1 100644
--- a/src/kikuchipy/indexing/_dictionary_indexing.py
+++ b/src/kikuchipy/indexing/_dictionary_indexing.py
@@ -94,8 +94,9 @@ def _dictionary_indexing(
     else:
         negative_sign = -metric.sign
 
-        simulation_indices = np.zeros((n_experimental, keep_n), dtype=np.int32)
-        scores = np.full((n_experimental, keep_n), negative_sign, dtype=metric.dtype)
+        # Best matches so far
+        simulation_indices = np.zeros((n_experimental, 0), dtype=np.int32)
+        scores = np.zeros((n_experimental, 0), dtype=metric.dtype)
 
         dictionary_is_lazy = isinstance(dictionary, da.Array)
 
@@ -194,8 +195,10 @@ def _match_chunk(
 
     similarities = metric.match(experimental, simulated)
 
-    simulation_indices = similarities.argtopk(keep_n, axis=-1)
-    scores = similarities.topk(keep_n, axis=-1)
+    # Highest first if greater is better, otherwise lowest first
+    signed_keep_n = keep_n * metric.sign
+    simulation_indices = similarities.argtopk(signed_keep_n, axis=-1)
+    scores = similarities.topk(signed_keep_n, axis=-1)
     out_shape = (-1, keep_n)
     simulation_indices = simulation_indices.reshape(out_shape)
     scores = scores.reshape(out_shape)
-- 
2.43.0


From ea3079d1205f8ccf2f2c27d4cc2b6b6e43ac332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 35/45] fix: points not indexed are taken from another map when
 merging with navigation masks

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index 8de83d5..5df758e 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -213,15 +213,16 @@ def merge_crystal_maps(
     # Phase of best score in each map point
     phase_id = np.nanargmax(sign * best_scores, axis=1)
 
-    # Set the phase ID of points marked as not-indexed in all maps to -1
-    not_indexed = np.zeros((n_maps, map_size), dtype=bool)
+    # Set the phase ID of points marked as not-indexed in all maps they
+    # are in to -1
+    not_indexed = np.ones((n_maps, map_size), dtype=bool)
     for i in range(n_maps):
         mask = navigation_masks1d[i]
         xmap = crystal_maps[i]
         if mask is not None:
-            not_indexed[i, mask][xmap.phase_id == -1] = True
+            not_indexed[i, mask] = xmap.phase_id == -1
         else:
-            not_indexed[i, xmap.phase_id == -1] = True
+            not_indexed[i] = xmap.phase_id == -1
     not_indexed = np.logical_and.reduce(not_indexed)
     phase_id[not_indexed] = -1
 
-- 
2.43.0


From 2fee6c30a2c7369eee720d2cd23fe6c1245b1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 36/45] fix: keep horizontal and vertical step sizes of merged
 crystal maps

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index 5df758e..37eb096 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -340,9 +340,9 @@ def merge_crystal_maps(
         props[simulation_indices_prop] = new_indices
         props[f"merged_{simulation_indices_prop}"] = merged_simulated_indices
 
-    step_sizes = (crystal_maps[0].dx, crystal_maps[0].dy)
+    step_sizes = (crystal_maps[0].dy, crystal_maps[0].dx)
     coords, _ = create_coordinate_arrays(
-        map_shape, step_sizes=step_sizes[: len(map_shape)]
+        map_shape, step_sizes=step_sizes[-len(map_shape) :]
     )
 
     return CrystalMap(
-- 
2.43.0


From 055429d2650fbd5a2ce20547c29051a9565ed724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 37/45] fix: overlap chunks enough for windows with an even
 number of neighbours

---
 src/kikuchipy/signals/util/_dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/util/_dask.py b/src/kikuchipy/signals/util/_dask.py
index 4012401..44c4fe5 100644
--- a/src/kikuchipy/signals/util/_dask.py
+++ b/src/kikuchipy/signals/util/_dask.py
@@ -212,7 +212,7 @@ def _get_chunk_overlap_depth(window, axes_manager, chunksize: tuple) -> dict:
     sig_dim = axes_manager.signal_dimension
     nav_shape = axes_manager.navigation_shape[::-1]
     is_chunked = ~np.equal(chunksize[:-sig_dim], nav_shape)
-    overlap_depth = {i: n for i, n in enumerate(window.n_neighbours) if is_chunked[i]}
+    overlap_depth = {i: n for i, n in enumerate(window.origin) if is_chunked[i]}
     return overlap_depth
 
 
-- 
2.43.0


From 6f9c1852a7a07f1f560a3bfea48f5876bfe0ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 38/45] fix: keep axes of length 1 in distances to the origin
 of a window

Axes of length 1 were dropped, so that a window of shape (1, 3) could not
be made and transfer functions of such shapes had too few axes.
---
 src/kikuchipy/filters/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/filters/window.py b/src/kikuchipy/filters/window.py
index 698b11d..b1cebd5 100644
--- a/src/kikuchipy/filters/window.py
+++ b/src/kikuchipy/filters/window.py
@@ -409,7 +409,7 @@ def distance_to_origin(
     coordinates = np.ogrid[tuple(slice(None, i) for i in shape)]
     if len(origin) == 2:
         squared = [(i - o) ** 2 for i, o in zip(coordinates, origin)]
-        distance = np.sqrt(np.add.outer(*squared).squeeze())
+        distance = np.sqrt(squared[0] + squared[1])
     else:
         distance = abs(coordinates[0] - origin[0])
     return distance
-- 
2.43.0


From cdca450f81a07a43d0b246686efdc7446a55a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 39/45] fix: place virtual imaging grid along signal axes with
 offset and scale

Regions from the grid did not include the offset of the signal axes (e.g.
after slicing the signal), so that images were from other parts of the
detector. Tile labels and rectangles drawn were placed in pixels also on
scaled axes.
---
 src/kikuchipy/imaging/vbse.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/kikuchipy/imaging/vbse.py b/src/kikuchipy/imaging/vbse.py
index b6e3db8..18b2651 100644
--- a/src/kikuchipy/imaging/vbse.py
+++ b/src/kikuchipy/imaging/vbse.py
@@ -302,16 +302,18 @@ class VirtualBSEImager:
         """
         rows = self.grid_rows
         cols = self.grid_cols
-        dc, dr = [i.scale for i in self._signal.axes_manager.signal_axes]
+        ax_col, ax_row = self._signal.axes_manager.signal_axes
+        dc, dr = ax_col.scale, ax_row.scale
+        c0, r0 = ax_col.offset, ax_row.offset
 
         if isinstance(index, tuple):
             index = [index]
         index_arr = np.array(index)
 
-        min_col = cols[min(index_arr[:, 1])] * dc
-        max_col = (cols[max(index_arr[:, 1])] + cols[1]) * dc
-        min_row = rows[min(index_arr[:, 0])] * dr
-        max_row = (rows[max(index_arr[:, 0])] + rows[1]) * dr
+        min_col = c0 + cols[min(index_arr[:, 1])] * dc
+        max_col = c0 + (cols[max(index_arr[:, 1])] + cols[1]) * dc
+        min_row = r0 + rows[min(index_arr[:, 0])] * dr
+        max_row = r0 + (rows[max(index_arr[:, 0])] + rows[1]) * dr
 
         return hs.roi.RectangularROI(
             left=min_col, top=min_row, right=max_col, bottom=max_row
@@ -350,17 +352,19 @@ class VirtualBSEImager:
             A single pattern with the markers added.
         """
         axes_manager = self._signal.axes_manager
-        dc, dr = [i.scale for i in axes_manager.signal_axes]
-        rows = self.grid_rows
-        cols = self.grid_cols
+        # Scale and offset of signal axes, (x, y)
+        scale = np.array([i.scale for i in axes_manager.signal_axes])
+        start = np.array([i.offset for i in axes_manager.signal_axes])
+        x_lines = start[0] + (self.grid_cols - 0.5) * scale[0]
+        y_lines = start[1] + (self.grid_rows - 0.5) * scale[1]
         kwargs.setdefault("ec", "w")
         markers = []
-        markers.append(hs.plot.markers.HorizontalLines((rows - 0.5) * dr, **kwargs))
-        markers.append(hs.plot.markers.VerticalLines((cols - 0.5) * dc, **kwargs))
+        markers.append(hs.plot.markers.HorizontalLines(y_lines, **kwargs))
+        markers.append(hs.plot.markers.VerticalLines(x_lines, **kwargs))
 
         if visible_indices:
             text_markers = hs.plot.markers.Texts(
-                self._flat_tile_coordinates,
+                start + self._flat_tile_coordinates * scale,
                 texts=self._tile_labels,
                 horizontalalignment="left",
                 verticalalignment="top",
@@ -375,7 +379,10 @@ class VirtualBSEImager:
             for i, color in enumerate(["r", "g", "b"]):
                 kwargs["ec"] = color
                 marker = hs.plot.markers.Rectangles(
-                    rgb_tile_coords[i], tile_width, tile_height, **kwargs
+                    start + rgb_tile_coords[i] * scale,
+                    tile_width * scale[0],
+                    tile_height * scale[1],
+                    **kwargs,
                 )
                 markers.append(marker)
 
-- 
2.43.0


From 09c26ed331757fc2eb4382092836c609423081ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 40/45] fix: draw colored rectangles of virtual imaging grid
 around their tiles

The center of rectangles had the tile's width and height exchanged, and
their sizes were rounded down when tiles do not divide the detector.
---
 src/kikuchipy/imaging/vbse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kikuchipy/imaging/vbse.py b/src/kikuchipy/imaging/vbse.py
index 18b2651..5377b8e 100644
--- a/src/kikuchipy/imaging/vbse.py
+++ b/src/kikuchipy/imaging/vbse.py
@@ -119,10 +119,10 @@ class VirtualBSEImager:
         return tile_labels_arr
 
     @property
-    def _tile_shape(self) -> tuple[int, int]:
+    def _tile_shape(self) -> tuple[float, float]:
         signal_shape_arr = np.array(self._signal._signal_shape_rc)
         grid_shape_arr = np.array(self.grid_shape)
-        tile_shape = tuple(signal_shape_arr // grid_shape_arr)
+        tile_shape = tuple(signal_shape_arr / grid_shape_arr)
         return tile_shape
 
     # ------------------------ Dunder methods ------------------------ #
@@ -398,7 +398,7 @@ class VirtualBSEImager:
     ) -> NDArray[np.float64]:
         tile_coords = self._tile_coordinates
         tile_height, tile_width = self._tile_shape
-        offset = -0.5 + np.array([tile_height, tile_width]) / 2
+        offset = -0.5 + np.array([tile_width, tile_height]) / 2
         rbg_tile_coords = np.zeros(3, dtype=object)
         for i, channel_coords in enumerate(rgb_channels):
             if isinstance(channel_coords, tuple):
-- 
2.43.0


From d00d5431fd818f7ff2082778310d9e9e6bf70d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 41/45] fix: merge crystal maps of one point with several
 scores

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index 37eb096..2d1e6d1 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -204,9 +204,11 @@ def merge_crystal_maps(
 
     # Best score in each map point
     if n_scores_per_point > 1:  # (M, N, K) -> (M, K)
-        best_scores = combined_scores[:, :mean_n_best].squeeze()
-        if len(best_scores.shape) > 2:
+        best_scores = combined_scores[:, :mean_n_best]
+        if best_scores.shape[1] > 1:
             best_scores = np.nanmean(best_scores, axis=1)
+        else:
+            best_scores = best_scores[:, 0]
     else:  # (M, K)
         best_scores = combined_scores
 
-- 
2.43.0


From 577110cb4d3841cff78af8618d79c3cf00ca5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:12 +0000
Subject: [PATCH 42/45] fix: grids of patterns have the requested number of
 positions

extract_grid() and grid_indices() returned fewer positions than asked for
when the spacing did not leave room for the last one, e.g. (2, 2) of (3, 3)
in a (9, 9) map, while the axes of the new signal had the requested size.
---
 src/kikuchipy/signals/util/array_tools.py | 36 +++++++++++------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/kikuchipy/signals/util/array_tools.py b/src/kikuchipy/signals/util/array_tools.py
index 6fd19b0..fbcc49d 100644
--- a/src/kikuchipy/signals/util/array_tools.py
+++ b/src/kikuchipy/signals/util/array_tools.py
@@ -78,27 +78,25 @@ def grid_indices(
             "`grid_shape` and `nav_shape` must both signify either a 1D or 2D grid"
         )
 
-    # Get spacing in each dimension
-    spacing = np.ceil(np.array(nav_shape) / (np.array(grid_shape) + 1))
-    spacing = spacing.astype(int)
-
-    idx_1d_all = np.arange(np.prod(nav_shape)).reshape(nav_shape)
-    if ndim == 2:
-        idx_1d = idx_1d_all[:: spacing[0], :: spacing[1]][1:, 1:]
-    else:
-        idx_1d = idx_1d_all[:: spacing[0]][1:]
+    if any(g > n for g, n in zip(grid_shape, nav_shape)):
+        raise ValueError(
+            f"`grid_shape` {grid_shape} cannot be larger than `nav_shape` {nav_shape}"
+        )
 
-    idx_2d = np.stack(np.unravel_index(idx_1d, nav_shape))
-    if ndim == 2:
-        subtract_to_center = (idx_2d[:, 0, 0] - (nav_shape - idx_2d[:, -1, -1])) // 2
-    else:
-        subtract_to_center = (idx_2d[:, 0] - (nav_shape - idx_2d[:, -1])) // 2
+    # Get spacing in each dimension, small enough for the grid to fit
+    nav = np.array(nav_shape)
+    grid = np.array(grid_shape)
+    spacing = np.ceil(nav / (grid + 1)).astype(int)
+    spacing = np.minimum(spacing, (nav - 1) // np.maximum(grid - 1, 1))
+    spacing = np.maximum(spacing, 1)
 
-    if ndim == 2:
-        idx_2d[0] -= subtract_to_center[0]
-        idx_2d[1] -= subtract_to_center[1]
-    else:
-        idx_2d[0] -= subtract_to_center[0]
+    idx_1d = []
+    for n_i, grid_i, spacing_i in zip(nav_shape, grid_shape, spacing):
+        idx_i = spacing_i * np.arange(1, grid_i + 1)
+        idx_i -= (idx_i[0] - (n_i - idx_i[-1])) // 2
+        idx_i -= max(idx_i[-1] - (n_i - 1), 0)
+        idx_1d.append(idx_i)
+    idx_2d = np.stack(np.meshgrid(*idx_1d, indexing="ij"))
 
     out = idx_2d
     if return_spacing:
-- 
2.43.0


From 70f7e57969c09f10978b058b3a891c86e8ac685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:51 +0000
Subject: [PATCH 43/45] fix: refuse detectors whose projection centers do not
 fit the rotations

EBSDMasterPattern.get_patterns() counted projection centers along the
first axis only, so that a detector with shape (1, n) or (1, 1) of them was
accepted for any rotations and memory outside arrays was read.
---
 src/kikuchipy/signals/ebsd_master_pattern.py  | 11 +++++++----
 src/kikuchipy/signals/util/_master_pattern.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd_master_pattern.py b/src/kikuchipy/signals/ebsd_master_pattern.py
index bdab1c3..2e99397 100644
--- a/src/kikuchipy/signals/ebsd_master_pattern.py
+++ b/src/kikuchipy/signals/ebsd_master_pattern.py
@@ -189,7 +189,10 @@ class EBSDMasterPattern(KikuchiMasterPattern):
         """
         self._is_suitable_for_projection(raise_if_not=True)
 
-        if rotations.shape != detector.navigation_shape and len(detector.pc) > 1:
+        if (
+            rotations.shape != detector.navigation_shape
+            and detector.navigation_size > 1
+        ):
             raise ValueError(
                 "`detector.navigation_shape` must be equal to `rotations.shape`, or the"
                 " detector must have exactly one projection center"
@@ -232,8 +235,8 @@ class EBSDMasterPattern(KikuchiMasterPattern):
 
         # Get direction cosines for each detector pixel relative to the
         # source point
-        nav_shape_det = detector.navigation_shape
-        if nav_shape_det == (1,):
+        has_single_pc = detector.navigation_size == 1
+        if has_single_pc:
             # Single set of direction cosines as NumPy array
             dc = _get_direction_cosines_from_detector(detector)
         else:
@@ -264,7 +267,7 @@ class EBSDMasterPattern(KikuchiMasterPattern):
             dtype=dtype_out,
         )
 
-        if nav_shape_det == (1,):
+        if has_single_pc:
             simulated = da.map_blocks(
                 _project_patterns_from_master_pattern_with_fixed_pc,
                 rot,
diff --git a/src/kikuchipy/signals/util/_master_pattern.py b/src/kikuchipy/signals/util/_master_pattern.py
index 7621aa5..c176cdf 100644
--- a/src/kikuchipy/signals/util/_master_pattern.py
+++ b/src/kikuchipy/signals/util/_master_pattern.py
@@ -99,7 +99,7 @@ def _get_direction_cosines_from_detector(
     dc
         Flattened direction cosines.
     """
-    if detector.navigation_shape == (1,):
+    if detector.navigation_size == 1:
         pcz = np.float64(detector.pcz.squeeze())
         gnomonic_bounds = detector.gnomonic_bounds.squeeze().astype(np.float64)
         func = _get_direction_cosines_for_fixed_pc
-- 
2.43.0


From ad15f94deec803a6378600a0392a47aaa95cbffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 44/45] fix: average with windows whose coefficients sum to
 less than 1

The sums of the window's coefficients were rounded down to integers, so that
patterns became NaN or 0 where these are below 1, e.g. at the border of the map
for a window normalized to a sum of 1.
---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 2f95512..0f9107e 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1047,7 +1047,7 @@ class EBSD(KikuchipySignal2D):
         # Get sum of window data for each pattern, to normalize with
         # after correlation
         window_sums = correlate(
-            input=np.ones(nav_shape, dtype=int),
+            input=np.ones(nav_shape),
             weights=averaging_window,
             mode="constant",
         )
-- 
2.43.0


From c5434ed010f2a30a2151225ca8625e33de35f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 45/45] Revert "fix: average with windows whose coefficients
 sum to less than 1"

This reverts commit ad15f94deec803a6378600a0392a47aaa95cbffd.
---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 0f9107e..2f95512 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1047,7 +1047,7 @@ class EBSD(KikuchipySignal2D):
         # Get sum of window data for each pattern, to normalize with
         # after correlation
         window_sums = correlate(
-            input=np.ones(nav_shape),
+            input=np.ones(nav_shape, dtype=int),
             weights=averaging_window,
             mode="constant",
         )
-- 
2.43.0

