From 07ec611a207940a12cfc5ba200b06eed6e66728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 01/49] fix: make the weights of Hist1d.fill optional as
 documented

---
 templatefitter/histograms/abstract_hist.py | 2 +-
 templatefitter/histograms/hist1d.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histograms/abstract_hist.py b/templatefitter/histograms/abstract_hist.py
index 391d29f..875ecd8 100644
--- a/templatefitter/histograms/abstract_hist.py
+++ b/templatefitter/histograms/abstract_hist.py
@@ -56,7 +56,7 @@ class AbstractHist(ABC):
         return self._is_empty
 
     @abstractmethod
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         pass
 
     @classmethod
diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..2b833ae 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = bins
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
-- 
2.43.0


From 2ecb3a1e68298badb5efd2d7c8021fe046e31788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 02/49] fix: fill histograms with double precision weights, so
 that squares of small integer types do not overflow

---
 templatefitter/histograms/hist1d.py | 3 +--
 templatefitter/histograms/hist2d.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 2b833ae..ca3a606 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -51,8 +51,7 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += binned_statistic(
             data,
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..e7ca1af 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -41,8 +41,7 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += binned_statistic_2d(
             x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
-- 
2.43.0


From 46cd1342094d2d08a18e8acb5772893f5c6a557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 03/49] fix: accept an empty sample in Hist2d.fill like Hist1d
 does

---
 templatefitter/histograms/hist2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index e7ca1af..750215c 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -42,6 +42,10 @@ class Hist2d(AbstractHist):
         if weights is None:
             weights = np.ones(len(data[0]))
         weights = np.asarray(weights, dtype=float)
+        if len(weights) == 0:
+            # binned_statistic_2d cannot handle empty samples
+            self._is_empty = False
+            return
 
         self._bin_counts += binned_statistic_2d(
             x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
-- 
2.43.0


From 35791413b3f6b290e885d33cf89ace242a8989ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 04/49] fix: from_binned_data copies its input instead of
 aliasing it (with its dtype)

---
 templatefitter/histograms/hist1d.py | 4 ++--
 templatefitter/histograms/hist2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index ca3a606..bd7c68a 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -89,12 +89,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 750215c..002a578 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -78,12 +78,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From 1fdb53b3dfa18a6d6e4d82df7103fa8a9f05f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/49] fix: empty templates have zero bin fractions instead of
 NaN

---
 templatefitter/templates/abstract_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..f423758 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,6 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
+    if not np.any(bin_counts):
+        return per_bin_yields
     return per_bin_yields / np.sum(per_bin_yields)
-- 
2.43.0


From af5e0b26d2b7fc69a3f630982da8c43395f8c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 06/49] fix: variations of 1D templates use the template's own
 bin edges

---
 templatefitter/templates/template1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
-- 
2.43.0


From c0e7bc7afb03a2d39e19c6225903234cb85d32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 07/49] fix: add_variation of 2D templates (own bin edges,
 covariance of the variation) and add_cov_mat

---
 templatefitter/templates/template2d.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..f0e75d7 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -51,13 +52,21 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
+
+    def add_cov_mat(self, cov_mat: np.ndarray):
+        if (self.num_bins, self.num_bins) != cov_mat.shape:
+            raise ValueError(f"Covariance matrix shape does not match number of bins.")
 
-        self._add_cov_mat(hup, hdown)
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From 320d24ec3c1755143697d6f98a1dbf8b4b3bc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 08/49] fix: do not cache channel quantities that change with
 its templates

---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From 266f19cb3fb4b24a0e3095f95dab64c9a871ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 09/49] fix: a repeated yield constraint replaces the earlier
 one

---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From b0026f5c55b35895e0bcb009acc0f13631f96a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 10/49] fix: start values and get_yield account for the
 efficiencies

---
 .../templates/multi_channel_template.py       | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..ae17bfd 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -42,6 +42,25 @@ class MultiChannelTemplate:
 
         return yields
 
+    @property
+    def yield_params(self):
+        """numpy.ndarray: Current values of the yield parameters. The
+        yield of a template is the product of the yield parameter and
+        the efficiency. Shape is (`num_processes`,).
+        """
+        total_efficiencies = np.zeros(self.num_processes)
+
+        for channel in self.channels.values():
+            for process, efficiency in channel.efficiencies.items():
+                total_efficiencies[self.process_to_index(process)] += efficiency
+
+        return np.divide(
+            self.process_yields,
+            total_efficiencies,
+            out=self.process_yields,
+            where=total_efficiencies != 0,
+        )
+
     @property
     def process_yield_errors(self):
         yield_errors_sq = np.zeros(self.num_processes)
@@ -215,7 +234,7 @@ class MultiChannelTemplate:
         if process_id not in self.processes:
             raise RuntimeError(f"Process '{process_id}' not defined!")
 
-        return self.process_yields[self.process_to_index(process_id)]
+        return self.yield_params[self.process_to_index(process_id)]
 
     def reset_parameters(self):
         """
@@ -362,7 +381,7 @@ class NegLogLikelihood(AbstractTemplateCostFunction):
 
     @property
     def x0(self):
-        yields = self._mct.process_yields
+        yields = self._mct.yield_params
         nui_params = self._mct.nui_params
 
         return np.concatenate((yields, nui_params))
-- 
2.43.0


From 73b2ce408fb4b9174e99f11b578e51dc57b1c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 11/49] fix: scipy minimizer fixes every requested parameter,
 not the last one repeatedly

---
 templatefitter/minimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..72aacee 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
@@ -439,7 +440,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, index=fixed_param: x[index] - initial_param_values[index],
                 }
             )
 
-- 
2.43.0


From 6b47bfbd14b8bd372367e5ef5705b7f23a8f201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 12/49] fix: scipy minimizer inverts the Hesse matrix of the
 free parameters only

---
 templatefitter/minimizer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 72aacee..9a7fb39 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -386,8 +386,23 @@ class ScipyMinimizer(AbstractMinimizer):
         self._fcn_min_val = opt_result.fun
 
         if get_hesse:
-            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
-            self._params.covariance = np.linalg.inv(hesse)
+            free = np.array(
+                [i not in self._fixed_params for i in range(self._params.num_params)]
+            )
+
+            def fcn_of_free_params(x, *args):
+                params = self._params.values.copy()
+                params[free] = x
+                return self._fcn(params, *args)
+
+            covariance = np.zeros((self._params.num_params, self._params.num_params))
+            if np.any(free):
+                hesse = ndt.Hessian(fcn_of_free_params)(
+                    self._params.values[free], *additional_args
+                )
+                covariance[np.ix_(free, free)] = np.linalg.inv(hesse)
+
+            self._params.covariance = covariance
             self._params.correlation = cov2corr(self._params.covariance)
             self._params.errors = np.sqrt(np.diag(self._params.covariance))
 
-- 
2.43.0


From ec625bd4e354d931000fcd19908d8eedf168b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 13/49] fix: iminuit covariance and errors cover all
 parameters, with zeros for fixed ones

---
 templatefitter/minimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 9a7fb39..264ef60 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -296,9 +296,9 @@ class IMinuitMinimizer(AbstractMinimizer):
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-        self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = cov2corr(self._params.covariance)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 16e6eae71adab92ffa0fb3cfe0b56498aff7a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 14/49] fix: fit results are snapshots which later
 minimizations do not change

---
 templatefitter/minimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 264ef60..3d69f58 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -2,6 +2,7 @@
 Implementation of a minimizer class based on the scipy.optimize.minimize
 function.
 """
+import copy
 import functools
 import logging
 from abc import ABC, abstractmethod
@@ -307,7 +308,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         # if not self._success:
         #     raise RuntimeError(f"Minimization was not successful.\n" f"{fmin}\n")
 
-        return MinimizeResult(m.fval, self._params, self._success)
+        return MinimizeResult(m.fval, copy.deepcopy(self._params), self._success)
 
     def set_param_fixed(self, param_id):
         param_index = self.params.param_id_to_index(param_id)
@@ -409,7 +410,9 @@ class ScipyMinimizer(AbstractMinimizer):
         if verbose:
             print(self._params)
 
-        result = MinimizeResult(opt_result.fun, self._params, self._success)
+        result = MinimizeResult(
+            opt_result.fun, copy.deepcopy(self._params), self._success
+        )
 
         return result
 
-- 
2.43.0


From cef249a8172bc665ce4b8ea9cce8c8a0c5b47719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 15/49] fix: positive initial step sizes for iminuit

---
 templatefitter/minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 3d69f58..9854375 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -283,7 +283,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         m = Minuit.from_array_func(
             self._fcn,
             initial_params,
-            error=0.05 * initial_params,
+            error=np.maximum(0.05 * np.abs(initial_params), 0.1),
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-- 
2.43.0


From 0298c83e09955ce6737dda141efd2cdae12aaaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 16/49] fix: honour TemplateFitter.fix_nui_params in fits,
 profiles and significances

---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..c29f2c0 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -327,7 +327,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +352,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From f9c575d8a9a0d27f0d05bd4777470fcd6f06d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 17/49] fix: profile scans honour fixed parameters and bounds
 of the fitter

---
 templatefitter/fitter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c29f2c0..2bb2f56 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,13 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+
+        for fixed_param_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_param_id)
+
+        for bound_param_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_param_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,10 +277,10 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
+        minimizer.set_param_bounds(param_id, (None, None))
 
         try:
             loop_result = minimizer.minimize(initial_values, get_hesse=False)
-- 
2.43.0


From 1460a661f8142ff727900a8b2482f81ed6a69288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 18/49] fix: get_significance leaves the templates alone and
 never returns NaN for q0 close to zero

---
 templatefitter/fitter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 2bb2f56..98ad78d 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -353,7 +353,8 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        initial_values = self._nll.x0
+        initial_values[self._templates.process_to_index(process_id)] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -372,9 +373,13 @@ class TemplateFitter:
             minimizer.set_param_bounds(param_id, bounds)
 
         minimizer.set_param_fixed(process_id + "_yield")
+        minimizer.set_param_bounds(process_id + "_yield", (None, None))
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
-        q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
+        # numerical noise can make the difference slightly negative
+        q0 = np.maximum(
+            0, 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
+        )
         logging.debug(f"q0: {q0}")
         return np.sqrt(q0)
-- 
2.43.0


From a5ca698bc9581b6460faaa7a3fd8fd8d53fcd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 19/49] fix: corr2cov expects variances, not standard
 deviations

---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From 793ee7b28fcdb34c45318f69639cbd44af177fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 20/49] fix: p-values of the goodness of fit tests from the
 chi2 survival function, empty data bins

---
 templatefitter/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..ba67832 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
+
+from templatefitter.utility import xlogyx
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -11,7 +12,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -52,7 +53,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -91,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 9f7339a2383060dec8150898e8ed66243f69200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 21/49] fix: legacy likelihood handles empty data bins

---
 templatefitter/nll.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..c29d2c8 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -10,6 +10,8 @@ import numpy as np
 
 from scipy.linalg import block_diag
 
+from templatefitter.utility import xlogyx
+
 import warnings
 
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
@@ -157,9 +159,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
         return poisson_term + gauss_term
 
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From aeb2f04c1100cc70405ed1cea375c2eb7da32a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 22/49] fix: plotting of legacy templates and 2D templates,
 legacy correlation matrix

---
 templatefitter/templates/template2d.py | 2 +-
 templatefitter/templates_legacy.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index f0e75d7..79bbb9a 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -77,7 +77,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From d5f28abe0e53bab16d4cd3025d3a56d86d3e8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 23/49] fix: legacy from_binned_data copies its input

---
 templatefitter/histogram_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..48a4a47 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -273,12 +273,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
 
         return instance
 
-- 
2.43.0


From d3e536b50a5e2582abe25ed0aec9279ee040d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 24/49] fix: post-fit uncertainties of a channel use the
 parameters of that channel

---
 templatefitter/templates/channel.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..9a3119b 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -172,6 +172,18 @@ class Channel:
 
         return param_array[: self.num_templates], param_array[self.num_templates :]
 
+    def _result_param_indices(self, result_params: Parameters) -> list:
+        """Returns the positions of the yields and nuisance parameters of
+        this channel, in the order used by `split_parameter_array`, in the
+        parameters of a fit to all channels.
+        """
+        names = [f"{process}_yield" for process in self.processes] + [
+            f"{self.name}_{process}_bin_{i}"
+            for process in self.processes
+            for i in range(self.num_bins)
+        ]
+        return [result_params.param_id_to_index(name) for name in names]
+
     def propagate_parameter_uncertainties(
         self, result_params: Parameters
     ) -> np.ndarray:
@@ -185,8 +197,10 @@ class Channel:
             yields, nui_params = self.split_parameter_array(param_values)
             return self._expected_evts_per_bin(yields, nui_params)
 
-        jac = nd.Jacobian(exp_bin_counts)(result_params.values)
-        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
+        indices = self._result_param_indices(result_params)
+        jac = nd.Jacobian(exp_bin_counts)(result_params.values[indices])
+        cov = result_params.covariance[np.ix_(indices, indices)]
+        bin_by_bin_cov = jac @ cov @ np.transpose(jac)
 
         return bin_by_bin_cov
 
@@ -312,7 +326,8 @@ class Channel:
             post_fit_errors = np.sqrt(np.diag(post_fit_cov))
         elif post_fit_uncertainties == "scale":
             n_templates = len(self.templates)
-            nui_param_errors = result_params.errors[n_templates:].reshape((n_templates,-1))
+            param_errors = result_params.errors[self._result_param_indices(result_params)]
+            nui_param_errors = param_errors[n_templates:].reshape((n_templates,-1))
             pre_fit_errors = np.vstack([template.errors for template in self.templates.values()])
             post_fit_errors = np.sqrt(np.sum((nui_param_errors*pre_fit_errors)**2, axis=0))
 
-- 
2.43.0


From 950b29e12e34eeadf5b66fbd6250d317cf232489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 25/49] fix: channels reject histograms with other bin edges

---
 templatefitter/templates/channel.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 9a3119b..9cbd7d1 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -509,9 +509,24 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = self._range == template.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = self._range == hist.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_edges(hist.bin_edges)
+
+    def _check_edges(self, bin_edges):
+        """Checks whether the given bin edges agree (up to rounding) with
+        those of the templates and the data in this channel.
+        """
+        present = [template.bin_edges for template in self.templates.values()]
+        if self.has_data:
+            present.append(self._hdata.bin_edges)
+
+        for edges in present:
+            pairs = zip(bin_edges, edges) if len(self._bins) > 1 else [(bin_edges, edges)]
+            for new, old in pairs:
+                if not np.allclose(new, old, rtol=0, atol=1e-9 * (old[-1] - old[0])):
+                    return False
+        return True
-- 
2.43.0


From a4034337fed22b5ad90b1ba16eb9d282322ba4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 26/49] fix: toy data sets of channels with a single bin keep
 the shape of the channel

---
 templatefitter/templates/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 9cbd7d1..40c18f9 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -392,7 +392,9 @@ class Channel:
         template_bin_counts = sum(
             [template.values for template in self.templates.values()]
         )
-        toy_bin_counts = poisson.rvs(template_bin_counts)
+        toy_bin_counts = poisson.rvs(
+            template_bin_counts, size=template_bin_counts.shape
+        )
 
         return self._htype.from_binned_data(
             toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
-- 
2.43.0


From 0aea5fa31072f6b0818d037359ef8068cff4d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 27/49] fix: scipy minimizer does not stop before the minimum
 for correlated parameters

---
 templatefitter/minimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 9854375..1fed102 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -369,7 +369,9 @@ class ScipyMinimizer(AbstractMinimizer):
             method="SLSQP",
             bounds=self._param_bounds,
             constraints=constraints,
-            options={"disp": verbose},
+            # the default tolerance of 1e-6 ends minimizations too early if
+            # parameters are correlated
+            options={"disp": verbose, "ftol": 1e-8},
         )
 
         self._success = opt_result.success
-- 
2.43.0


From dd5cf1344b2ec8a713afd362c4bbb0791702fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 28/49] fix: profiles, significances and toy studies do not use
 failed iminuit minimizations

---
 templatefitter/fitter.py    | 14 ++++++++++++++
 templatefitter/toy_study.py |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 98ad78d..64767d4 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -226,6 +226,10 @@ class TemplateFitter:
 
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
+
+        if not result.succes:
+            raise RuntimeError("Minimization was not successful.")
+
         minimum = result.fcn_min_val
         param_val, param_unc = minimizer.params[param_id]
         profile_points = np.linspace(
@@ -291,6 +295,10 @@ class TemplateFitter:
             )
             return np.nan
 
+        if not loop_result.succes:
+            logging.info(f"Minimization with point {point} was not sucessfull.")
+            return np.nan
+
         return loop_result.fcn_min_val
 
     # TODO this is not yet generic, depens on param name in the likelihood
@@ -349,6 +357,9 @@ class TemplateFitter:
             minimizer.set_param_bounds(param_id, bounds)
         fit_result = minimizer.minimize(self._nll.x0, verbose=verbose)
 
+        if not fit_result.succes:
+            raise RuntimeError("Minimization was not successful.")
+
         if fit_result.params[f"{process_id}_yield"][0] < 0:
             return 0
 
@@ -377,6 +388,9 @@ class TemplateFitter:
         print("Background")
         profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
+        if not profile_result.succes:
+            raise RuntimeError("Minimization was not successful.")
+
         # numerical noise can make the difference slightly negative
         q0 = np.maximum(
             0, 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index 93c37f2..3532a3b 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -67,6 +67,9 @@ class ToyStudy:
                                        get_hesse=get_hesse,
                                        fix_nui_params=True)
 
+                if not result.succes:
+                    raise RuntimeError("Minimization was not successful.")
+
                 self._toy_results["parameters"].append(result.params.values)
                 self._toy_results["uncertainties"].append(result.params.errors)
 
-- 
2.43.0


From 5ac5caceb6a5b69dfddced313e705bf73bc42eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 29/49] fix: iminuit covariance from the Hesse matrix at the
 minimum

---
 templatefitter/minimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 1fed102..74bee2d 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -278,7 +278,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         super().__init__(fcn, param_names)
         self._fixed_params = [False for _ in self.params.names]
 
-    def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
+    def minimize(
+        self, initial_params, verbose=1, errordef=0.5, get_hesse=True, **kwargs
+    ):
 
         m = Minuit.from_array_func(
             self._fcn,
@@ -295,6 +297,10 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        # migrad only approximates the covariance while it minimizes
+        if get_hesse and fmin["is_valid"] and not all(self._fixed_params):
+            m.hesse()
+
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
-- 
2.43.0


From bd2b769feaacfff8756adda47af79d29484bdf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 30/49] fix: post-fit uncertainties of channels with a single
 bin

---
 templatefitter/templates/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 40c18f9..9afa2e6 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -195,7 +195,8 @@ class Channel:
         # create helper function to calculate bin counts purely via paramters
         def exp_bin_counts(param_values):
             yields, nui_params = self.split_parameter_array(param_values)
-            return self._expected_evts_per_bin(yields, nui_params)
+            # numdifftools does not accept vectors with a single entry
+            return np.squeeze(self._expected_evts_per_bin(yields, nui_params))
 
         indices = self._result_param_indices(result_params)
         jac = nd.Jacobian(exp_bin_counts)(result_params.values[indices])
-- 
2.43.0


From 8a567f8d171484601ce65656efb5acf4aa741b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 31/49] fix: iminuit minimizations with a non-finite minimum
 are not successful

Minuit regards the minimum as valid if the objective function is nan or
infinite at every point it is evaluated at.
---
 templatefitter/minimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 74bee2d..1d3466f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -307,8 +307,12 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._params.covariance = m.np_matrix(skip_fixed=False)
         self._params.correlation = cov2corr(self._params.covariance)
 
+        # minuit regards the minimum as valid if fcn is nan everywhere
         self._success = (
-            fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
+            fmin["is_valid"]
+            and fmin["has_valid_parameters"]
+            and fmin["has_covariance"]
+            and bool(np.isfinite(m.fval))
         )
 
         # if not self._success:
-- 
2.43.0


From 4f4bf49138bbdd2b447c57e62c59a9f17d038f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 32/49] fix: scipy minimizations with a non-finite minimum are
 not successful

SLSQP can exit successfully if the objective function is infinite at
every point it is evaluated at.
---
 templatefitter/minimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 1d3466f..c1715d2 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -384,11 +384,12 @@ class ScipyMinimizer(AbstractMinimizer):
             options={"disp": verbose, "ftol": 1e-8},
         )
 
-        self._success = opt_result.success
+        # slsqp may also end successfully at non-finite values of fcn
+        self._success = opt_result.success and bool(np.isfinite(opt_result.fun))
         self._status = opt_result.status
         self._message = opt_result.message
 
-        if not opt_result.success:
+        if not self._success:
             raise RuntimeError(
                 f"Minimization was not successful.\n"
                 f"Status: {opt_result.status}\n"
-- 
2.43.0


From c5e5e32b811ce30482ac272320bc0922b0b7cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 33/49] fix: legacy toy datasets of templates with a single bin

poisson.rvs returns a scalar for an array of length one, which no
histogram of one bin can be created from.
---
 templatefitter/templates_legacy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..e75d016 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -306,7 +306,8 @@ class Template(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self._hist.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
@@ -589,7 +590,8 @@ class StackedTemplate(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
-- 
2.43.0


From dedb93c7b8602681a03fad443f954d8f4791e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 34/49] fix: fractions of empty legacy templates are zero

One empty template turned the values, errors and likelihood of the whole
stack into nan.
---
 templatefitter/templates_legacy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index e75d016..947fd66 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -251,6 +251,9 @@ class Template(AbstractTemplate):
         """
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
+        # a template without any entries contributes nothing
+        if not np.any(self._hist.bin_counts):
+            return np.zeros(self.num_bins)
         return per_bin_yields / np.sum(per_bin_yields)
 
     def plot_on(self, ax, **kwargs):
-- 
2.43.0


From 2ebbf8b9a9584efd2d1a4ed24e85fa8f2760a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 35/49] fix: fill legacy histograms with double precision
 weights

Squares of weights of small integer types overflowed and those of single
precision lost digits.
---
 templatefitter/histogram_legacy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 48a4a47..c41f41a 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -53,11 +53,11 @@ class Histogram:
         """
         if isinstance(data, list):
             data = np.array(data)
-        if weights is not None and isinstance(weights, list):
-            weights = np.array(weights)
 
         if weights is None:
-            weights = np.ones_like(data)
+            weights = np.ones(len(data))
+        # the square of the weights must not be limited by their type
+        weights = np.array(weights, dtype=float)
 
         if len(data) != len(weights):
             raise ValueError(
@@ -294,9 +294,9 @@ class Hist1d(AbstractHist):
             given, each event is weighted with 1.0. Default is None.
         """
         if weights is None:
-            weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+            weights = np.ones(len(data))
+        # the square of the weights must not be limited by their type
+        weights = np.array(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic(
             data,
@@ -342,8 +342,8 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[:, 0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        # the square of the weights must not be limited by their type
+        weights = np.array(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic_2d(
             x=data[:, 0],
-- 
2.43.0


From 16c08f624ee2201cfa085c2e98011e1c6e3ee309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 36/49] fix: accept empty samples in legacy histograms

---
 templatefitter/histogram_legacy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index c41f41a..b827c0d 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -62,6 +62,10 @@ class Histogram:
         if len(data) != len(weights):
             raise ValueError(
                 "Shape of data array does not match weight array.")
+        if len(data) == 0:
+            # binned_statistic cannot handle empty samples without a range
+            return
+
         self._bin_counts += scipy.stats.binned_statistic(
             x=data, values=weights, statistic="sum", bins=self._bin_edges
         )[0]
@@ -344,6 +348,9 @@ class Hist2d(AbstractHist):
             weights = np.ones(len(data[:, 0]))
         # the square of the weights must not be limited by their type
         weights = np.array(weights, dtype=float)
+        if len(weights) == 0:
+            # binned_statistic_2d cannot handle empty samples
+            return
 
         self._bin_counts += scipy.stats.binned_statistic_2d(
             x=data[:, 0],
-- 
2.43.0


From b9005f75b57cba74eb4e0e2233c312eac7411874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 37/49] fix: legacy Hist1d works with a sequence of bin edges

Sequences are documented as bins, but the bin mids could only be
calculated for arrays, and arrays were shared with the caller.
---
 templatefitter/histogram_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index b827c0d..bd4cb06 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -250,7 +250,7 @@ class Hist1d(AbstractHist):
             self._limits = limits
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins, dtype=float)
             self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
 
         self._bin_counts = np.zeros(self._num_bins)
-- 
2.43.0


From b3c6ec4f1b09e5d460590ac513186b61ea06fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 38/49] fix: stacked plots of templates without a color

The color of a template is optional, but matplotlib rejects None in the
list of colors of stacked histograms.
---
 templatefitter/templates/channel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 9afa2e6..b4a15f1 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -231,7 +231,7 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = self._get_template_colors()
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -301,7 +301,7 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = self._get_template_colors()
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -414,6 +414,15 @@ class Channel:
             asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)
         )
 
+    def _get_template_colors(self):
+        """Returns the colors of all templates. Colors of the default
+        color cycle are used for templates without a color.
+        """
+        return [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
+
     @staticmethod
     def _get_projection(ax, bc):
         x_to_i = {"x": 1, "y": 0}
-- 
2.43.0


From 59a2c616aecd67a4fe58ea4afa1f6c3b6b75c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 39/49] fix: template parameters are copied as floats

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index f423758..9e91f0b 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From 6f421cd8c1f237ddb800f0c810703dd6aa408d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 40/49] fix: the last bounds set for a parameter hold,
 whichever identifier was used

---
 templatefitter/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 64767d4..180fc84 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -134,6 +134,9 @@ class TemplateFitter:
             Lower and upper boundaries for this parameter.
         """
 
+        # bounds are applied in the order in which they were set, also if the
+        # parameter is specified by its name at one time and its index at another
+        self._bound_parameters.pop(param_id, None)
         self._bound_parameters[param_id] = bounds
 
     @staticmethod
-- 
2.43.0


From cad1ab8b2a81e508cfd2a7a3dd0e7a8e97f8e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 41/49] fix: histograms copy the given bin edges and accept any
 sequence of them

---
 templatefitter/histograms/hist1d.py | 3 ++-
 templatefitter/histograms/hist2d.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index bd7c68a..e4f2296 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,8 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            # a copy, which later changes of the given edges do not affect
+            self._bin_edges = np.array(bins, dtype=float)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights=None):
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 002a578..4d84349 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,8 +35,9 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
-            self._range = tuple(map(get_bin_range, bins))
+            # copies, which later changes of the given edges do not affect
+            self._bin_edges = [np.array(edges, dtype=float) for edges in bins]
+            self._range = tuple(map(get_bin_range, self._bin_edges))
 
     def fill(self, data, weights=None):
         if weights is None:
-- 
2.43.0


From 786ea2007b006c02ec0ec0ccedaadede57ed5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 42/49] fix: minuit continues if hesse shows that the minimum
 was not reached

---
 templatefitter/minimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index c1715d2..59df417 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -297,9 +297,15 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
-        # migrad only approximates the covariance while it minimizes
-        if get_hesse and fmin["is_valid"] and not all(self._fixed_params):
+        # migrad only approximates the covariance while it minimizes, and can
+        # therefore end far from the minimum, e.g. for large parameter values
+        for _ in range(5):
+            if not fmin["is_valid"] or all(self._fixed_params):
+                break
             m.hesse()
+            if m.fmin.edm < 2e-3 * errordef:
+                break
+            fmin, _ = m.migrad(ncall=20000)
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-- 
2.43.0


From ea6211028ce338eaad8e383ec210b9464edc01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 43/49] fix: the scipy minimiser works for parameters of very
 different scales

---
 templatefitter/minimizer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 59df417..a205a83 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -376,14 +376,23 @@ class ScipyMinimizer(AbstractMinimizer):
         -------
         MinimizeResult
         """
-        constraints = self._create_constraints(initial_param_values)
+        # slsqp ends too early if the scales of the parameters are very different.
+        # Powers of two are used, since scaling with them is exact.
+        initial_param_values = np.asarray(initial_param_values, dtype=float)
+        magnitude = np.maximum(1.0, np.abs(initial_param_values))
+        scale = np.exp2(np.round(0.5 * np.log2(magnitude)))
+        bounds = [
+            tuple(None if limit is None else limit / s for limit in limits)
+            for limits, s in zip(self._param_bounds, scale)
+        ]
+        constraints = self._create_constraints(initial_param_values / scale)
 
         opt_result = minimize(
-            fun=self._fcn,
-            x0=initial_param_values,
+            fun=lambda x, *args: self._fcn(x * scale, *args),
+            x0=initial_param_values / scale,
             args=additional_args,
             method="SLSQP",
-            bounds=self._param_bounds,
+            bounds=bounds,
             constraints=constraints,
             # the default tolerance of 1e-6 ends minimizations too early if
             # parameters are correlated
@@ -402,7 +411,7 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
-        self._params.values = opt_result.x
+        self._params.values = opt_result.x * scale
         self._fcn_min_val = opt_result.fun
 
         if get_hesse:
-- 
2.43.0


From 289e761a86e4c4887fd060f9f85f7270ffeeb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:05 +0000
Subject: [PATCH 44/49] fix: minuit starts again, and reports no success, where
 undefined values spoiled its state

---
 templatefitter/minimizer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index a205a83..97fd62b 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -297,6 +297,22 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        # steps to where fcn is not defined spoil the state of migrad, which
+        # needs to start again from the values it has reached
+        if not np.isfinite(fmin["edm"]):
+            values = m.np_values()
+            m = Minuit.from_array_func(
+                self._fcn,
+                values,
+                error=np.maximum(0.05 * np.abs(values), 0.1),
+                errordef=errordef,
+                fix=self._fixed_params,
+                name=self.params.names,
+                limit=self._param_bounds,
+                print_level=verbose,
+            )
+            fmin, _ = m.migrad(ncall=20000)
+
         # migrad only approximates the covariance while it minimizes, and can
         # therefore end far from the minimum, e.g. for large parameter values
         for _ in range(5):
@@ -319,6 +335,7 @@ class IMinuitMinimizer(AbstractMinimizer):
             and fmin["has_valid_parameters"]
             and fmin["has_covariance"]
             and bool(np.isfinite(m.fval))
+            and bool(np.isfinite(fmin["edm"]))
         )
 
         # if not self._success:
-- 
2.43.0


From 63054ed5fc140460935972cc926741d78502b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:20 +0000
Subject: [PATCH 45/49] fix: fits, scans and toy studies do not configure the
 root logger

---
 templatefitter/fitter.py    | 11 +++++++----
 templatefitter/toy_study.py |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 180fc84..a2851d5 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -14,6 +14,9 @@ __all__ = [
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
+# calls of the functions of logging would configure the root logger
+logger = logging.getLogger(__name__)
+
 # TODO work on fixing parameters and stuff
 
 
@@ -292,14 +295,14 @@ class TemplateFitter:
         try:
             loop_result = minimizer.minimize(initial_values, get_hesse=False)
         except RuntimeError as e:
-            logging.info(e)
-            logging.info(
+            logger.info(e)
+            logger.info(
                 f"Minimization with point {point} was not " f"sucessfull, trying again."
             )
             return np.nan
 
         if not loop_result.succes:
-            logging.info(f"Minimization with point {point} was not sucessfull.")
+            logger.info(f"Minimization with point {point} was not sucessfull.")
             return np.nan
 
         return loop_result.fcn_min_val
@@ -398,5 +401,5 @@ class TemplateFitter:
         q0 = np.maximum(
             0, 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         )
-        logging.debug(f"q0: {q0}")
+        logger.debug(f"q0: {q0}")
         return np.sqrt(q0)
diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index 3532a3b..45724d2 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -11,6 +11,9 @@ __all__ = [
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
+# calls of the functions of logging would configure the root logger
+logger = logging.getLogger(__name__)
+
 
 class ToyStudy:
     """This class helps you to perform toy monte carlo studies
@@ -76,7 +79,7 @@ class ToyStudy:
                 return None
 
             except RuntimeError:
-                logging.debug("RuntimeError occured in toy experiment. Trying again")
+                logger.debug("RuntimeError occured in toy experiment. Trying again")
                 continue
 
         raise RuntimeError("Experiment exceed max number of retries.")
-- 
2.43.0


From e6aa0c2372c19451a2b13ed20cbdb9cecca5e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:37 +0000
Subject: [PATCH 46/49] fix: data for several channels is added to all of them
 or to none

---
 templatefitter/templates/multi_channel_template.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index ae17bfd..5fb6c99 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -190,6 +190,14 @@ class MultiChannelTemplate:
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
 
+            # either all or none of the given data is added
+            if not self.channels[channel]._check_hist(hdata):
+                raise RuntimeError(
+                    f"Given data histogram is not compatible with the "
+                    f"Channel '{channel}'."
+                )
+
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From b449adfde98d0f84c34db61ed6d657903bd0403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 47/49] fix: numpy numbers are accepted as numbers of bins,
 parameter indices and yields

---
 templatefitter/histograms/hist1d.py           | 2 +-
 templatefitter/histograms/hist2d.py           | 2 +-
 templatefitter/templates/abstract_template.py | 2 +-
 templatefitter/utility.py                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index e4f2296..5ad5227 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -25,7 +25,7 @@ class Hist1d(AbstractHist):
             self.fill(data, weights)
 
     def _init_bin_edges(self, bins, range):
-        if isinstance(bins, int):
+        if isinstance(bins, (int, np.integer)):
             self._num_bins = bins
             self._bin_edges = np.linspace(*range, self._num_bins + 1)
             self._range = range
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 4d84349..517509e 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -25,7 +25,7 @@ class Hist2d(AbstractHist):
             self.fill(data, weights)
 
     def _init_bin_edges(self, bins, range):
-        if all(isinstance(num_bins, int) for num_bins in bins):
+        if all(isinstance(num_bins, (int, np.integer)) for num_bins in bins):
             self._num_bins = bins
             self._bin_edges = [
                 np.linspace(*limit, num_bins + 1)
diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 9e91f0b..b43a9f3 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -101,7 +101,7 @@ class AbstractTemplate(ABC):
         if isinstance(new_value, np.ndarray):
             if len(new_value) > 1:
                 raise RuntimeError("Yield parameter has to be of type float.")
-        elif not (isinstance(new_value, float) or isinstance(new_value, int)):
+        elif not (isinstance(new_value, (float, int, np.integer, np.floating))):
             raise RuntimeError("Yield parameter has to be of type float.")
 
         self._params[0] = new_value
diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index f5d3739..c3193f9 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -71,7 +71,7 @@ def id_to_index(names, param_id):
     """
     if isinstance(param_id, str) and (param_id in names):
         param_index = names.index(param_id)
-    elif isinstance(param_id, int) and (param_id in range(len(names))):
+    elif isinstance(param_id, (int, np.integer)) and (param_id in range(len(names))):
         param_index = param_id
     else:
         raise ValueError(
-- 
2.43.0


From 4d45c4c0c3ed0dc42e3385f9c820d7d510bce407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:19 +0000
Subject: [PATCH 48/49] fix: parameter vectors of the wrong length are refused

---
 templatefitter/templates/multi_channel_template.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 5fb6c99..7aba497 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -265,6 +265,12 @@ class MultiChannelTemplate:
         -------
 
         """
+        if len(x) != self.num_processes + self.num_nui_params:
+            raise ValueError(
+                f"{len(x)} parameter values given instead of "
+                f"{self.num_processes + self.num_nui_params}."
+            )
+
         yields = x[: self.num_processes]
         nui_params = x[self.num_processes : self.num_nui_params + self.num_processes]
 
-- 
2.43.0


From 50496c3f8f420bef020d6f43429061ca915d5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:15 +0000
Subject: [PATCH 49/49] fix: the Hesse matrix is calculated at arrays and for
 the current function

---
 templatefitter/minimizer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 97fd62b..0733d89 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -3,7 +3,6 @@ Implementation of a minimizer class based on the scipy.optimize.minimize
 function.
 """
 import copy
-import functools
 import logging
 from abc import ABC, abstractmethod
 from collections import namedtuple
@@ -510,7 +509,6 @@ class ScipyMinimizer(AbstractMinimizer):
         return constraints
 
     @staticmethod
-    @functools.lru_cache(maxsize=128)
     def calculate_hesse_matrix(fcn, x, args):
         """Calculates the Hesse matrix of callable `fcn` numerically.
 
-- 
2.43.0

