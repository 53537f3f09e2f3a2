From 6dc85060ae1f3715bff8229d520168833128f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 01/33] fix: every fixed parameter gets its own scipy
 constraint

The constraint lambdas shared the loop variable, so that all of them
constrained the last fixed parameter and the others were free.
---
 templatefitter/minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..c0c0e6c 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -439,7 +439,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From 4e7029e7b7aa4b82aee27e3ae2892e7e8ec477ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 02/33] fix: Template2d.add_variation raised TypeError instead
 of adding a covariance

---
 templatefitter/templates/template2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..9f6cc49 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -57,7 +58,10 @@ class Template2d(AbstractTemplate):
             bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
         )
 
-        self._add_cov_mat(hup, hdown)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From d96e34f102aed64547954e85babf6be3745dbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 03/33] fix: fractions of a template from an empty histogram
 are zero instead of nan

---
 templatefitter/templates/abstract_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..4d3eca6 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,6 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
+    if np.all(bin_counts == 0.0):
+        return np.zeros_like(per_bin_yields)
     return per_bin_yields / np.sum(per_bin_yields)
-- 
2.43.0


From cce1febbc514161d2530fc9e5349561fba90c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 04/33] fix: bin systematic variations with the template's own
 bin edges

A template with non-uniform edges compared its content with variations
binned uniformly.
---
 templatefitter/templates/template1d.py | 4 ++--
 templatefitter/templates/template2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 9f6cc49..af82086 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -52,10 +52,10 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
 
         cov_mat = get_systematic_cov_mat(
-- 
2.43.0


From 138f96176e00988b505ce1e6be67129a087b20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 05/33] fix: histograms made from binned data own their counts

They shared the caller's array, which a later fill changed, and could not
be filled at all if it held integers.
---
 templatefitter/histograms/hist1d.py | 4 ++--
 templatefitter/histograms/hist2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..f96f757 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -90,12 +90,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..b153894 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -75,12 +75,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From 1781788bedea7e7c019da5af9f56007497f2d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 06/33] fix: template parameters do not alias the array they
 were set from

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 4d3eca6..3b88f17 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From c3a6afed97c09464d3f8f4c8299f2c605031885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 07/33] fix: channel evaluations follow the current templates

Process indices, efficiencies and the inverse correlation matrix were
cached for ever, so templates or covariances added after the first
likelihood evaluation were ignored.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From ba9c2f44343b2e51f52f9f6aff6eae8ceae5674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 08/33] fix: channels reject content with different bin edges

Only the number of bins and the range were compared, so that templates
and data with different inner edges were added up bin by bin.
---
 templatefitter/templates/channel.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..13bf295 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -494,9 +494,25 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = self._range == template.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = self._range == hist.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(hist.bin_edges)
+
+    def _check_bin_edges(self, bin_edges):
+        if self.templates:
+            own_edges = self.bin_edges
+        elif self.has_data:
+            own_edges = self._hdata.bin_edges
+        else:
+            return True
+
+        if len(self._bins) == 1:
+            own_edges, bin_edges = [own_edges], [bin_edges]
+
+        return all(
+            np.allclose(own, new, rtol=0, atol=1e-9 * (own[-1] - own[0]))
+            for own, new in zip(own_edges, bin_edges)
+        )
-- 
2.43.0


From 7000dff0fa0667b04aacebb8c84674d3237c5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 09/33] fix: a repeated yield constraint replaces the earlier
 one

It was counted once per call in the likelihood.
---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From c6428b02b693fa4147b9d4f3debb844179995610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 10/33] fix: iminuit covariance has one row per parameter if
 parameters are fixed

Rows of fixed parameters were left out, so that the matrix was not in the
order of the parameter names.
---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index c0c0e6c..8de6e0e 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -297,8 +297,8 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 6f5af60ca1252da97fef0e883297c30f00eadf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 11/33] fix: TemplateFitter.fix_nui_params has an effect

---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..c29f2c0 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -327,7 +327,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +352,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From 25e5d27158d25a71cbbef9cc9634b294cbd09424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 12/33] fix: profile scans keep the fitter's fixed parameters
 and bounds

They were ignored in the nominal minimization, and all parameters,
including the nuisance parameters fixed on request, were released for the
scan points.
---
 templatefitter/fitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c29f2c0..f0d9e32 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,12 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+        for fixed_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_id)
+
+        for bound_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,7 +276,6 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
-- 
2.43.0


From 164977c7bc28a036d699d5a13463592f8be3bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 13/33] fix: get_significance does not set the model's yield to
 zero

---
 templatefitter/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index f0d9e32..6de8a65 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -351,7 +351,8 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        x0 = self._nll.x0
+        x0[self._templates.process_to_index(process_id)] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -371,7 +372,7 @@ class TemplateFitter:
 
         minimizer.set_param_fixed(process_id + "_yield")
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(x0, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From 3894e6ef947f1e0a369765ca2c2ab56d08d6bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 14/33] fix: likelihood goodness of fit is finite for empty
 data bins

---
 templatefitter/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..8881e47 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.stats import chi2
 from scipy.integrate import quad
+from scipy.special import xlogy
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -91,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
     pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From a79ea22c1d1234e50062f78f5e25275be682303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 15/33] fix: corr2cov scales with standard deviations instead
 of variances

---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From 2dbfc56a4e1a0e7962baffd93401d4c553622ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 16/33] fix: legacy likelihood is finite for empty data bins

The local xlogyx returned inf for them, utility.xlogyx handles them.
---
 templatefitter/nll.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..05bc262 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -10,6 +10,8 @@ import numpy as np
 
 from scipy.linalg import block_diag
 
+from templatefitter.utility import xlogyx
+
 import warnings
 
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
@@ -156,10 +158,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
             nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
-
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From 65b062a575ca6442b76baa71fa0ac31cf8dc3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 17/33] fix: legacy template correlation matrix and plot

corr_mat returned itself and plot_on subtracted from a method.
---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 99d7a5732c7a7f5dd63fcbebe1704e9c033c15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 18/33] fix: Template2d.plot_on used a function removed from
 matplotlib

---
 templatefitter/templates/template2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index af82086..35f6be0 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -3,7 +3,6 @@ from functools import reduce
 from itertools import product
 
 import matplotlib.pyplot as plt
-from matplotlib import cm
 from matplotlib.colors import ListedColormap, LinearSegmentedColormap
 import numpy as np
 
@@ -72,7 +71,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From 90a79d1253e6e05afdb5ccdc0c8859d49c42ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 19/33] fix: post-fit uncertainties of channels with a single
 bin

---
 templatefitter/templates/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 13bf295..f272d78 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -183,7 +183,9 @@ class Channel:
         # create helper function to calculate bin counts purely via paramters
         def exp_bin_counts(param_values):
             yields, nui_params = self.split_parameter_array(param_values)
-            return self._expected_evts_per_bin(yields, nui_params)
+            bin_counts = self._expected_evts_per_bin(yields, nui_params)
+            # nd.Jacobian does not support arrays with a single element
+            return bin_counts if bin_counts.size > 1 else bin_counts[0]
 
         jac = nd.Jacobian(exp_bin_counts)(result_params.values)
         bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
-- 
2.43.0


From 5c7a0706e9018feb9df6123bffb7d7d35e6997dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 20/33] fix: add_data stores nothing if one of the channels is
 not defined

---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..2e14584 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -167,10 +167,11 @@ class MultiChannelTemplate:
         -------
 
         """
-        for channel, hdata in kwargs.items():
+        for channel in kwargs:
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
 
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From 61c1fc34652a6eddd2694ca670eae102e4b57b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 21/33] fix: bounds set last on a parameter win if it was
 addressed by name and index

---
 templatefitter/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 6de8a65..072f2c8 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -134,6 +134,9 @@ class TemplateFitter:
             Lower and upper boundaries for this parameter.
         """
 
+        # the bounds set last have to be applied last, also if the same
+        # parameter has been addressed by its name and its index
+        self._bound_parameters.pop(param_id, None)
         self._bound_parameters[param_id] = bounds
 
     @staticmethod
-- 
2.43.0


From 3d71266c42a8946eaa53fb9eefa275c8a69523ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 22/33] fix: p-values of goodness of fit tests with many
 degrees of freedom

The numerical integration of the chi-square density missed its peak, the
p-value of a perfect agreement with 200 or more degrees of freedom was 0.
---
 templatefitter/stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index 8881e47..42ed8e6 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,5 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
 from scipy.special import xlogy
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
@@ -12,7 +11,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -53,7 +52,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -93,5 +92,5 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
         p-value.
     """
     chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From afeb894fea2be004b659500f3807f8a05d195827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 23/33] fix: legacy histograms from binned data own their bin
 counts

Filling changed the caller's array, or failed if it held integers.
---
 templatefitter/histogram_legacy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..98679a3 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -273,12 +273,14 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        # own copy: filling must neither change the given array nor fail
+        # for integer counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
         return instance
 
-- 
2.43.0


From a398f373e375109e4df80247cac40bb5923995e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 24/33] fix: stacked plots of templates without a color

---
 templatefitter/templates/channel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index f272d78..3a801f2 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -218,7 +218,11 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        # matplotlib does not accept None in a list of colors
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -288,7 +292,11 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        # matplotlib does not accept None in a list of colors
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
-- 
2.43.0


From 94d81bcb409780d01321d78455a80dd9971a5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 25/33] fix: scipy minimization with a parameter that has been
 fixed twice

---
 templatefitter/minimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 8de6e0e..7dc82dc 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,9 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        # SLSQP does not converge if the same constraint is given twice
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
-- 
2.43.0


From bb819d2f0d1dc84433722540283927f91d295a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 26/33] fix: resetting a template whose histogram has been
 filled further

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 3b88f17..8e1f955 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From 6c2a6bb3acc8c0a4edda34aef42049c188f96e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 27/33] fix: minimization results are overwritten by later
 minimizations

---
 templatefitter/minimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 7dc82dc..3699284 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -295,6 +295,8 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
 
         self._fcn_min_val = m.fval
+        # results of earlier minimizations keep their own parameters
+        self._params = Parameters(self._params.names)
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
         self._params.covariance = m.np_matrix(skip_fixed=False)
@@ -382,6 +384,8 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
+        # results of earlier minimizations keep their own parameters
+        self._params = Parameters(self._params.names)
         self._params.values = opt_result.x
         self._fcn_min_val = opt_result.fun
 
-- 
2.43.0


From 1e77d9dde9f436a20798675b83e56c78c5625c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 28/33] fix: legacy template parameters do not alias arrays and
 reset to their original values

---
 templatefitter/templates_legacy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..9556e2a 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -2,6 +2,7 @@
 used for binned likelihood fits where the expected number of events is
 estimated from different histograms.
 """
+import copy
 import logging
 
 from abc import ABC, abstractmethod
@@ -31,14 +32,14 @@ class TemplateParameter:
 
     def __init__(self, value, error, name):
         self.value = value
-        self._original_value = value
+        self._original_value = copy.copy(value)
         self.error = error
-        self._original_error = error
+        self._original_error = copy.copy(error)
         self.name = name
 
     def reset(self):
-        self.value = self._original_value
-        self.error = self._original_error
+        self.value = copy.copy(self._original_value)
+        self.error = copy.copy(self._original_error)
 
 
 class AbstractTemplate(ABC):
@@ -353,7 +354,7 @@ class Template(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        self._param_nui.value = new_values
+        self._param_nui.value = np.copy(new_values)
 
     @property
     def nui_params_errors(self):
@@ -363,7 +364,7 @@ class Template(AbstractTemplate):
 
     @nui_params_errors.setter
     def nui_params_errors(self, new_errors):
-        self._param_nui.error = new_errors
+        self._param_nui.error = np.copy(new_errors)
 
     @property
     def cov_mat(self):
-- 
2.43.0


From a5ddd0adde1eb483f250253ae933f4c1c2230f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 29/33] fix: fractions of a legacy template without events are
 zero instead of nan

---
 templatefitter/templates_legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 9556e2a..c793cf4 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -252,6 +252,8 @@ class Template(AbstractTemplate):
         """
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
+        if np.all(self._hist.bin_counts == 0):
+            return np.zeros_like(per_bin_yields)
         return per_bin_yields / np.sum(per_bin_yields)
 
     def plot_on(self, ax, **kwargs):
-- 
2.43.0


From 16b0a4617e9824875937957580deb6c543e8c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 30/33] fix: incompatible data for one of several channels is
 not applied in part

---
 templatefitter/templates/multi_channel_template.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 2e14584..6328f38 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -167,9 +167,13 @@ class MultiChannelTemplate:
         -------
 
         """
-        for channel in kwargs:
+        for channel, hdata in kwargs.items():
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
+            if not self.channels[channel]._check_hist(hdata):
+                raise RuntimeError(
+                    f"Given data histogram is not compatible with channel '{channel}'."
+                )
 
         for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
-- 
2.43.0


From 8eb32c24fe971ccfc7af5c5bfd7a26500ff02de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 31/33] fix: legacy likelihood uses the current correlation
 matrices of its templates

---
 templatefitter/nll.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index 05bc262..5e79855 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -110,11 +110,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
         the templates to the measured data set.
     """
 
-    def __init__(self, binned_dataset, templates):
-        super().__init__(binned_dataset, templates)
-        self._block_diag_inv_corr_mats = block_diag(
-            *self._templates.inv_corr_mats)
-
     @property
     def x0(self):
         initial_yields = self._templates.yield_param_values
@@ -154,7 +149,9 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
         poisson_term = np.sum(exp_evts_per_bin - self._d -
                               xlogyx(self._d, exp_evts_per_bin))
 
+        # the correlation matrices change if covariance matrices are added
+        block_diag_inv_corr_mats = block_diag(*self._templates.inv_corr_mats)
         gauss_term = 0.5 * (
-            nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
+            nuiss_params @ block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
-- 
2.43.0


From a123fc1ddc97a064db4dbbad4333cefb999877a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:00 +0000
Subject: [PATCH 32/33] fix: fill two-dimensional histograms with empty
 datasets

scipy's binned_statistic_2d reduces over the sample unless a range is given and
raised ValueError for an empty sample; pass the range as Hist1d does.
---
 templatefitter/histograms/hist2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index b153894..f2fdd29 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -45,7 +45,12 @@ class Hist2d(AbstractHist):
             weights = np.array(weights)
 
         self._bin_counts += binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         self._bin_errors_sq += binned_statistic_2d(
@@ -54,6 +59,7 @@ class Hist2d(AbstractHist):
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
         self._is_empty = False
 
-- 
2.43.0


From dd6e036ff65461d62fc2d12a6311a65e223230a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:00 +0000
Subject: [PATCH 33/33] fix: fill legacy histograms with empty datasets

binned_statistic raised ValueError for an empty sample if no range is given.
---
 templatefitter/histogram_legacy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 98679a3..c94a219 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -63,15 +63,18 @@ class Histogram:
             raise ValueError(
                 "Shape of data array does not match weight array.")
         self._bin_counts += scipy.stats.binned_statistic(
-            x=data, values=weights, statistic="sum", bins=self._bin_edges
+            x=data, values=weights, statistic="sum", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
         self._bin_entries += scipy.stats.binned_statistic(
-            x=data, values=weights, statistic="count", bins=self._bin_edges
+            x=data, values=weights, statistic="count", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
         self._bin_errors_sq += scipy.stats.binned_statistic(
-            x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges
+            x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
     def scale(self, c):
-- 
2.43.0

