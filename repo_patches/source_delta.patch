From 77258c21249e2c1889d42ad813a864774c4c3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:27 +0000
Subject: [PATCH 01/29] fix: evaluate particle distributions without modifying
 the given gamma array

The correction of boundary values was written into the array passed by the
caller (including the library's shared default grids), and failed on
multi-dimensional and integer arrays.
---
 agnpy/spectra/spectra.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..c0b3fa4 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -1,6 +1,5 @@
 # module containing the particle spectra
 from abc import abstractmethod, ABC
-from typing import Iterable
 
 import numpy as np
 import astropy.units as u
@@ -214,15 +213,19 @@ class ParticleDistribution(ABC):
         the first and last gamma values are falling outside the range of the allowed min/max values,
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
+        The corrected values are returned as floats in a new array, the array given in input is not modified.
         """
-        if not isinstance(gamma, Iterable) or len(gamma) == 0:
-            return
-        if gamma_min > gamma[0]:
-            if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
-                gamma[0] = gamma_min
-        if gamma[-1] > gamma_max:
-            if (gamma[-1] - gamma_max) / gamma_max < 1e-10:
-                gamma[-1] = gamma_max
+        gamma = np.array(gamma, dtype=float, subok=True)
+        if gamma.ndim == 0 or gamma.size == 0:
+            return gamma
+        first, last = (0,) * gamma.ndim, (-1,) * gamma.ndim
+        if gamma_min > gamma[first]:
+            if (gamma_min - gamma[first]) / gamma[first] < 1e-10:
+                gamma[first] = gamma_min
+        if gamma[last] > gamma_max:
+            if (gamma[last] - gamma_max) / gamma_max < 1e-10:
+                gamma[last] = gamma_max
+        return gamma
 
     @abstractmethod
     def __call__(self, gammas):
@@ -271,7 +274,7 @@ class PowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-p), 0
         )
@@ -283,6 +286,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             -(p + 2) * np.power(gamma, -p - 1),
@@ -365,7 +369,7 @@ class BrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -388,6 +392,7 @@ class BrokenPowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -469,7 +474,7 @@ class LogParabola(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, q, gamma_0, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         gamma_ratio = gamma / gamma_0
         index = -p - q * np.log10(gamma_ratio)
         return np.where(
@@ -568,7 +573,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_c, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             k * gamma ** (-p) * np.exp(-gamma / gamma_c),
@@ -672,7 +677,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_c, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -698,6 +703,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
     ):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         prefactor = -(index + 2) / gamma + (-1 / gamma_c)
         return np.where(
@@ -798,7 +804,7 @@ class InterpolatedDistribution(ParticleDistribution):
         ]
 
     def evaluate(self, gamma, norm, gamma_min, gamma_max):
-        self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
         values = np.zeros_like(gamma)
-- 
2.43.0


From 58a124d5aed9226815fa76b537e76303d3589601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 02/29] fix: report relative and absolute injection rates under
 their own labels in the time evolution callback

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From 914c8553381e7c866b1716a9ad7fc1b3ed419556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 03/29] fix: limits of the empty distribution left by the time
 evolution are the first and last Lorentz factors

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From 30f770767eb57ecc8df612310b5fd5ff74e88945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 04/29] fix: no systematic error for instruments missing from
 the dictionary in load_sherpa_flux_points

---
 agnpy/fit/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..7759a5b 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -46,14 +46,13 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errn = tab["e2dnde_errn"]
         e2dnde_errp = tab["e2dnde_errp"]
 
-        # add systematic errors
+        # add systematic errors, null if the instrument is not listed
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From 37f28a63534273ea31592e6006f63f4ab91fb85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 05/29] fix: evaluate the sherpa external Compton model for the
 targets in any order or sequence type

---
 agnpy/fit/sherpa_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..69bd5f7 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,9 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        if "blr" in self.targets and "dt" in self.targets:
+            return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
+        if "blr" in self.targets:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if "dt" in self.targets:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
-            return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
-- 
2.43.0


From 61f59c892b8fa61903b470d4e8bd3297f3309004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 06/29] fix: absorption_homogeneous for null and very small
 optical depths

---
 agnpy/absorption/targets_absorption.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..4cb8939 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -744,4 +744,6 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # the limit for an optical depth going to zero is 1
+        null = t == 0
+        return np.where(null, 1, -np.expm1(-t) / np.where(null, 1, t))
-- 
2.43.0


From 8ec4bd8d5433ac67f31ec28650f6018cb0710785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:59 +0000
Subject: [PATCH 07/29] fix: do not share the default electron distribution
 among blobs

---
 agnpy/emission_regions/blob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 5e08435..f665f65 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -65,7 +65,7 @@ class Blob:
         delta_D=10,
         Gamma=10,
         B=1 * u.G,
-        n_e : ParticleDistribution = PowerLaw(mass=m_e),
+        n_e : ParticleDistribution = None,
         n_p : ParticleDistribution = None,
         xi=1.0,
         gamma_e_size=200,
@@ -82,7 +82,8 @@ class Blob:
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
-        self._n_e : ParticleDistribution = n_e
+        # each blob has its own default electron distribution
+        self._n_e : ParticleDistribution = PowerLaw(mass=m_e) if n_e is None else n_e
         self._n_p : ParticleDistribution = n_p
         self.xi = xi
 
-- 
2.43.0


From 20c57d85ed318d21539c50071b5fc1a2e21cf7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:01 +0000
Subject: [PATCH 08/29] fix: trapz_loglog integrates negative power laws and
 changes of sign

The logarithm of negative values was clipped to the smallest float, such that
a negative function (e.g. the integrand of the synchrotron self-absorption)
was integrated as piece-wise constant.
---
 agnpy/utils/math.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/agnpy/utils/math.py b/agnpy/utils/math.py
index ec7553b..7e6e843 100644
--- a/agnpy/utils/math.py
+++ b/agnpy/utils/math.py
@@ -100,8 +100,9 @@ def trapz_loglog(y, x, axis=0):
     y_low = y[tuple(slice_low)]
     y_up = y[tuple(slice_up)]
 
-    # slope in the given logarithmic bin
-    m = (log(y_low) - log(y_up)) / (log(x_low) - log(x_up))
+    # slope in the given logarithmic bin, the function can be also negative
+    # (e.g. the integrand of the synchrotron self-absorption)
+    m = (log(np.abs(y_low)) - log(np.abs(y_up))) / (log(x_low) - log(x_up))
 
     vals = np.where(
         np.abs(m + 1) > 1e-10,
@@ -109,6 +110,13 @@ def trapz_loglog(y, x, axis=0):
         x_low * y_low * log(x_up / x_low),
     )
 
+    # no power law connects values of opposite sign, use a linear trapezoid
+    vals = np.where(
+        np.sign(y_low) * np.sign(y_up) < 0,
+        (y_low + y_up) / 2 * (x_up - x_low),
+        vals,
+    )
+
     tozero = (
         (y[tuple(slice_low)] == 0.0)
         + (y[tuple(slice_up)] == 0.0)
-- 
2.43.0


From 3c76d3f795cc59b1b577a111082811d1a085df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 09/29] fix: cosines slightly beyond unity by rounding gave NaN
 for shell targets

---
 agnpy/targets/targets.py | 6 +++---
 agnpy/utils/geometry.py  | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 19bc9a5..53cfba5 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -532,9 +532,9 @@ class SphericalShellBLR:
         prefactor = self.xi_line * self.L_disk / (8 * np.pi * c)
         integrand = 1 / _x2
         if blob:
-            _mu_star = np.sqrt(
-                1 - np.power(self.R_line, 2) / _x2 * (1 - np.power(_mu, 2))
-            )
+            # the addend can be slightly larger than 1 because of rounding
+            addend = np.power(self.R_line, 2) / _x2 * (1 - np.power(_mu, 2))
+            _mu_star = np.sqrt(np.maximum(1 - addend, 0))
             integrand_prefactor = np.power(blob.Gamma, 2) * np.power(
                 1 - blob.Beta * _mu_star, 2
             )
diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index fa326e1..1440ffa 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -7,7 +7,9 @@ def cos_psi(mu_s, mu, phi):
     zenith and azimuth (mu, phi). The system is symmetric in azimuth for the
     electron phi_s = 0, Eq. 8 in [Finke2016]_."""
     term_1 = mu * mu_s
-    term_2 = np.sqrt(1 - np.power(mu, 2)) * np.sqrt(1 - np.power(mu_s, 2))
+    # the rounding of mu computed from distances can bring it slightly beyond 1
+    sin = np.sqrt(np.maximum(1 - np.power(mu, 2), 0))
+    term_2 = sin * np.sqrt(1 - np.power(mu_s, 2))
     term_3 = np.cos(phi)
     return term_1 + term_2 * term_3
 
@@ -43,7 +45,8 @@ def mu_star_shell(mu, R_re, r):
         height (in cm) of the emission region in the jet
     """
     addend = np.power(R_re / x_re_shell(mu, R_re, r), 2) * (1 - np.power(mu, 2))
-    mu_star = np.sqrt(1 - addend)
+    # the addend can be slightly larger than 1 because of rounding
+    mu_star = np.sqrt(np.maximum(1 - addend, 0))
     # if r < mu * R_re you need to multiply by -1 because the blob is before the shell element
     mu_sign = ((r > mu * R_re) - 0.5) * 2
     mu_star *= mu_sign
-- 
2.43.0


From 5564fb6c7822eb37953cfa0e95389e20f8bab0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:34 +0000
Subject: [PATCH 10/29] fix: trapz_loglog overflowed to inf or NaN between
 values with a huge ratio

---
 agnpy/utils/math.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/math.py b/agnpy/utils/math.py
index 7e6e843..d6ec1bc 100644
--- a/agnpy/utils/math.py
+++ b/agnpy/utils/math.py
@@ -104,9 +104,17 @@ def trapz_loglog(y, x, axis=0):
     # (e.g. the integrand of the synchrotron self-absorption)
     m = (log(np.abs(y_low)) - log(np.abs(y_up))) / (log(x_low) - log(x_up))
 
+    # start from the end with the largest value: the ratio between the two ends
+    # can exceed the largest float
+    ratio = np.power(x_up / x_low, -np.abs(m))
     vals = np.where(
         np.abs(m + 1) > 1e-10,
-        y_low / (m + 1) * (x_up * np.power(x_up / x_low, m) - x_low),
+        np.where(
+            m > 0,
+            y_up * (x_up - x_low * ratio),
+            y_low * (x_up * ratio - x_low),
+        )
+        / (m + 1),
         x_low * y_low * log(x_up / x_low),
     )
 
-- 
2.43.0


From 9a09d39589e52aa8ac6c66e353c4c7ceeae2afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:25 +0000
Subject: [PATCH 11/29] fix: EBL absorption truncated the redshift for
 frequencies of integer type

---
 agnpy/absorption/ebl_absorption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/absorption/ebl_absorption.py b/agnpy/absorption/ebl_absorption.py
index 7b15dd6..c1dee78 100644
--- a/agnpy/absorption/ebl_absorption.py
+++ b/agnpy/absorption/ebl_absorption.py
@@ -67,7 +67,7 @@ class EBL:
         "This function returns the attenuation of the emission by EBL"
         energy = nu.to_value("keV", equivalencies=u.spectral())
         # for evaluation, reconstruct the shape of the input table
-        z_array = np.full_like(energy, z)
+        z_array = np.full_like(energy, z, dtype=float)
         points = np.vstack([energy, z_array]).T
         absorption = self.interpolated_model(points)
         return absorption
-- 
2.43.0


From 3a98555405e8fa965472482f41b965df7292a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:19 +0000
Subject: [PATCH 12/29] fix: elapsed times passed to earlier time evolution
 callbacks were overwritten

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..edee757 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -267,7 +267,7 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From 6f105ba432c883ead74ae3b8de5fd6765e9708ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:19 +0000
Subject: [PATCH 13/29] fix: integer initial gamma arrays gave bins of zero
 width in the time evolution

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index edee757..07a64cf 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -152,7 +152,7 @@ class TimeEvolution:
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
         if initial_gamma_array is not None:
-           self._initial_gamma_array = initial_gamma_array
+           self._initial_gamma_array = np.asarray(initial_gamma_array, dtype=float)
         else:
             gamma_min = np.max([self._blob.n_e.gamma_min, gamma_bounds[0] if gamma_bounds is not None else 0])
             gamma_max = np.min([self._blob.n_e.gamma_max, gamma_bounds[-1] if gamma_bounds is not None else np.inf])
-- 
2.43.0


From d7418b914a09950d5dcaeaac79b6e993a2413653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:19 +0000
Subject: [PATCH 14/29] fix: bins lying on a gamma bound were dropped by
 rounding in the time evolution

---
 agnpy/time_evolution/time_evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 07a64cf..f1c65fd 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -431,7 +431,10 @@ class TimeEvolution:
     def _remove_gamma_beyond_bounds(self, gm_bins):
         gm_bins_lb = gm_bins[0]
         initial = np.arange(len(gm_bins_lb))
-        mapping = np.where((self._gamma_bounds[0] <= gm_bins_lb) & (gm_bins_lb <= self._gamma_bounds[1] / (1 + bin_size_factor)))[0]
+        # bins lying on a bound must not be dropped because of rounding errors
+        lower_bound = self._gamma_bounds[0] * (1 - 1e-10)
+        upper_bound = self._gamma_bounds[1] / (1 + bin_size_factor) * (1 + 1e-10)
+        mapping = np.where((lower_bound <= gm_bins_lb) & (gm_bins_lb <= upper_bound))[0]
         removed = np.setdiff1d(initial, mapping)
         if len(removed) > 0:
             log.info("Removed bins %s with gamma values %s", removed, gm_bins_lb[removed])
-- 
2.43.0


From 1ef15928330ada85208e63df3e95cc24106bf9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:19 +0000
Subject: [PATCH 15/29] fix: decide on a new boundary bin from the rate of the
 bin that is outermost

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index f1c65fd..12b5684 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -356,7 +356,7 @@ class TimeEvolution:
             final_mapping = combine_mapping(final_mapping, mapping_wo_bins_beyond_bounds)
 
             # ======== stage 5: add bins at edges if they move towards the center ========
-            new_gm_bins, mapping_with_new_bins = self._add_boundary_bins(new_gm_bins, en_changes_grouped[0])
+            new_gm_bins, mapping_with_new_bins = self._add_boundary_bins(new_gm_bins, en_changes_grouped[0][..., final_mapping])
             new_dens = remap(mapping_with_new_bins, new_dens, 0 * u.Unit("cm-3"))
             subgroups_density = remap_subgroups_density(mapping_with_new_bins, subgroups_density)
             final_mapping = combine_mapping(final_mapping, mapping_with_new_bins)
-- 
2.43.0


From 8ae29c0867c5e7ffa9459e4f871a38f1d4a7535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:49 +0000
Subject: [PATCH 16/29] fix: subgroup fractions were truncated when the initial
 ones were integers

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 12b5684..02ecabc 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -198,7 +198,7 @@ class TimeEvolution:
         density = self._blob.n_e(gm_bins_lb)
         if self._subgroups is not None:
             if self._subgroups_initial_density is not None:
-                subgroups_density = self._subgroups_initial_density
+                subgroups_density = np.asarray(self._subgroups_initial_density, dtype=float)
             else:
                 # first group all-ones, other groups all-zeros
                 subgroups_density = np.zeros((len(self._subgroups), len(self._initial_gamma_array)), dtype=float)
-- 
2.43.0


From c2c915b13d95c99363c705140d5a5ff8b2f06bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:49 +0000
Subject: [PATCH 17/29] fix: refuse a non-positive step duration instead of
 evolving forever

---
 agnpy/time_evolution/time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 02ecabc..332fd3f 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -123,6 +123,8 @@ class TimeEvolution:
         self._total_time_sec = total_time.to("s")
         if isinstance(step_duration, Quantity):
             self._step_duration = step_duration.to("s")
+            if not self._step_duration > 0:
+                raise ValueError("step_duration must be positive")
         elif isinstance(step_duration, str) and step_duration == "auto":
             self._step_duration = "auto"
         else:
-- 
2.43.0


From 715d47490c87ae9df219c8db149de556749269b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:05 +0000
Subject: [PATCH 18/29] fix: the Heun method applied the first stage's subgroup
 fractions twice

---
 agnpy/time_evolution/time_evolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 332fd3f..27c5a67 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -329,17 +329,17 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
-        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
+        new_gm_bins, new_dens, new_subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
 
         # ======== stage 2: for Heun method, recalculate bins ========
         if self._method.lower() == "heun":
-            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, subgroups_density)
+            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, new_subgroups_density)
             en_changes_grouped_recalced = sum_change_rates(en_chg_rates_recalced, new_gm_bins.shape, erg_per_s, self._subgroups)
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
-            new_gm_bins, new_dens, subgroups_density = (
+            new_gm_bins, new_dens, new_subgroups_density = (
                 self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
@@ -347,7 +347,7 @@ class TimeEvolution:
 
         # ======== stage 3: sort and merge bins if needed ========
         new_gm_bins, new_dens, sort_and_merge_mapping = self._sort_and_merge_bins(new_gm_bins, new_dens, dist)
-        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, subgroups_density)
+        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, new_subgroups_density)
         final_mapping = sort_and_merge_mapping
 
         if self._gamma_bounds is not None:
-- 
2.43.0


From ef439fbd001fee45ad04052e490692d145f571d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:47 +0000
Subject: [PATCH 19/29] fix: evolve subgroups of a distribution normalised in
 another unit than cm-3

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 27c5a67..309ea81 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -197,7 +197,7 @@ class TimeEvolution:
         gm_bins_up = np.zeros_like(gm_bins_lb)
         gm_bins = np.array([gm_bins_lb, gm_bins_up])
         update_bin_ub(gm_bins)
-        density = self._blob.n_e(gm_bins_lb)
+        density = self._blob.n_e(gm_bins_lb).to("cm-3")
         if self._subgroups is not None:
             if self._subgroups_initial_density is not None:
                 subgroups_density = np.asarray(self._subgroups_initial_density, dtype=float)
-- 
2.43.0


From 320244edd080eb683ed76150a2204efc42f24ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 20/29] fix: the bins of an evolution could be refused as the
 initial bins of the next one

---
 agnpy/time_evolution/time_evolution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 309ea81..db82ebc 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -147,9 +147,10 @@ class TimeEvolution:
             raise ValueError("Found duplicate keys of energy change or injection functions: " + str(duplicated_keys))
         self._gamma_bounds = gamma_bounds
         if gamma_bounds is not None and initial_gamma_array is not None:
-            if np.any(initial_gamma_array < gamma_bounds[0]):
+            # the bins of a previous evolution may miss a bound by a rounding error
+            if np.any(initial_gamma_array < gamma_bounds[0] * (1 - 1e-10)):
                 raise ValueError("initial_gamma_array might not contain elements smaller than gamma_min")
-            if np.any(initial_gamma_array > gamma_bounds[1]):
+            if np.any(initial_gamma_array > gamma_bounds[1] * (1 + 1e-10)):
                 raise ValueError("initial_gamma_array might not contain elements greater than gamma_max")
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
-- 
2.43.0


From 2adc5eecd626e6ac4cd00d8736c323dc3afb92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 21/29] fix: load_gammapy_flux_points refused instruments whose
 rows are not ordered in energy

---
 agnpy/fit/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 7759a5b..1b7b7ea 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -117,6 +117,8 @@ def load_gammapy_flux_points(sed_path, E_min, E_max, systematics_dict=None):
 
     for group in table.groups:
         name = group["instrument"][0]
+        # Gammapy needs the energies of the flux points in ascending order
+        group.sort("e_ref")
         data = FluxPoints.from_table(group, sed_type="e2dnde", format="gadf-sed")
 
         if systematics_dict is not None:
-- 
2.43.0


From cfaf1edb78af2a832a978ab21265e2266c41e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 22/29] fix: load_gammapy_flux_points dropped points inside the
 requested energy range

---
 agnpy/fit/data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 1b7b7ea..79334e0 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -3,6 +3,7 @@ import astropy.units as u
 from astropy.table import Table
 from sherpa.data import Data1D
 from gammapy.estimators import FluxPoints
+from gammapy.maps import Map
 from gammapy.datasets import FluxPointsDataset, Datasets
 
 
@@ -130,8 +131,13 @@ def load_gammapy_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         # load the flux points in a dataset
         dataset = FluxPointsDataset(data=data, name=name)
 
-        # set the minimum energy to be used for the fit
-        dataset.mask_fit = dataset.data.geom.energy_mask(energy_min=E_min, energy_max=E_max)
+        # set the energy range to be used for the fit, consider the energy of the
+        # points: the edges of their bins might not be in the table
+        energy = dataset.data.energy_ref
+        in_range = (energy >= E_min) & (energy <= E_max)
+        dataset.mask_fit = Map.from_geom(
+            dataset.data.geom, data=in_range.reshape(dataset.data.geom.data_shape)
+        )
 
         datasets.append(dataset)
 
-- 
2.43.0


From 89472f8ca227e648608a8a962f9e997328ef0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 23/29] fix: initial fractions for another number of subgroups
 were accepted and processes silently dropped

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index db82ebc..271b764 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -189,7 +189,7 @@ class TimeEvolution:
             raise ValueError("subgroups_initial_density provided without subgroups")
         if subgroups_initial_density is not None and initial_gamma_array is None:
             raise ValueError("subgroups_initial_density provided without initial_gamma_array")
-        if subgroups_initial_density is not None and initial_gamma_array is not None and subgroups_initial_density.shape[1] != len(initial_gamma_array):
+        if subgroups_initial_density is not None and subgroups_initial_density.shape != (len(subgroups), len(initial_gamma_array)):
             raise ValueError("Incorrect shape for subgroups_initial_density")
         self._distribution_change_callback = distribution_change_callback
 
-- 
2.43.0


From 91db3acb930c9fdd62a102321adf0d83cd45f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 24/29] fix: plot_sed draws frequencies and SEDs in the units
 written on the axes

---
 agnpy/utils/plot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agnpy/utils/plot.py b/agnpy/utils/plot.py
index 150892d..aaad947 100644
--- a/agnpy/utils/plot.py
+++ b/agnpy/utils/plot.py
@@ -1,5 +1,6 @@
 # plotting utilities for agnpy
 import numpy as np
+import astropy.units as u
 import importlib.resources
 import matplotlib.pyplot as plt
 
@@ -14,6 +15,13 @@ def load_mpl_rc():
         plt.style.use(mpl_rc)
 
 
+def _to_label_unit(x, unit):
+    """quantities are drawn in the unit written on the axis"""
+    if isinstance(x, u.Quantity) and x.unit.is_equivalent(unit):
+        return x.to(unit)
+    return x
+
+
 def plot_sed(nu, sed, ax=None, **kwargs):
     """plot an SED
 
@@ -26,6 +34,8 @@ def plot_sed(nu, sed, ax=None, **kwargs):
     """
     ax = plt.gca() if ax is None else ax
 
+    nu = _to_label_unit(nu, "Hz")
+    sed = _to_label_unit(sed, "erg cm-2 s-1")
     ax.loglog(nu, sed, **kwargs)
     ax.set_xlabel(sed_x_label)
     ax.set_ylabel(sed_y_label)
-- 
2.43.0


From 9ad7e0c8b50535482acb8802b4dba52dd3f7ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 25/29] fix: ParticleDistribution.plot draws the density in
 cm-3, as the axis says

---
 agnpy/spectra/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index c0b3fa4..77983af 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -190,7 +190,8 @@ class ParticleDistribution(ABC):
 
         gamma = np.logspace(0, 8, 200) if gamma is None else gamma
 
-        ax.loglog(gamma, np.power(gamma, gamma_power) * self.__call__(gamma), **kwargs)
+        density = self.__call__(gamma).to("cm-3")
+        ax.loglog(gamma, np.power(gamma, gamma_power) * density, **kwargs)
         ax.set_xlabel(r"$\gamma$")
 
         if gamma_power == 0:
-- 
2.43.0


From 2dbc778c0424374f390b3ec311403fc37b971d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 26/29] fix: extract_columns_sample_file reads files with a
 single point

---
 agnpy/utils/validation_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/utils/validation_utils.py b/agnpy/utils/validation_utils.py
index b05fda4..e77c4ad 100644
--- a/agnpy/utils/validation_utils.py
+++ b/agnpy/utils/validation_utils.py
@@ -50,7 +50,7 @@ def clean_and_make_dir(main_dir, sub_dir=None):
 
 def extract_columns_sample_file(sample_file, x_unit, y_unit=None):
     """Return two arrays of quantities from a sample file."""
-    sample_table = np.loadtxt(sample_file, delimiter=",", comments="#")
+    sample_table = np.loadtxt(sample_file, delimiter=",", comments="#", ndmin=2)
     x = sample_table[:, 0] * u.Unit(x_unit)
     y = sample_table[:, 1] if y_unit is None else sample_table[:, 1] * u.Unit(y_unit)
     return x, y
-- 
2.43.0


From 54244c8a9944c2136c70ddfa40669f1dedc31f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 27/29] fix: ParticleDistribution.plot overflowed for integer
 Lorentz factors

---
 agnpy/spectra/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 77983af..31d956d 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -191,7 +191,7 @@ class ParticleDistribution(ABC):
         gamma = np.logspace(0, 8, 200) if gamma is None else gamma
 
         density = self.__call__(gamma).to("cm-3")
-        ax.loglog(gamma, np.power(gamma, gamma_power) * density, **kwargs)
+        ax.loglog(gamma, np.power(gamma, float(gamma_power)) * density, **kwargs)
         ax.set_xlabel(r"$\gamma$")
 
         if gamma_power == 0:
-- 
2.43.0


From 5bfd1ea86cbc8c4b97b0b33b7103d4f7d0b7e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:08 +0000
Subject: [PATCH 28/29] fix: make_comparison_plot draws SEDs and frequencies in
 the units written on the axes

---
 agnpy/utils/validation_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agnpy/utils/validation_utils.py b/agnpy/utils/validation_utils.py
index e77c4ad..060688f 100644
--- a/agnpy/utils/validation_utils.py
+++ b/agnpy/utils/validation_utils.py
@@ -4,6 +4,7 @@ from pathlib import Path, PosixPath
 import numpy as np
 import astropy.units as u
 import matplotlib.pyplot as plt
+from .plot import _to_label_unit
 
 SED_X_LABEL = r"$\nu\,/\,{\rm Hz}$"
 SED_Y_LABEL = r"$\nu F_{\nu}\,/\,({\rm erg}\,{\rm cm}^{-2}\,{\rm s}^{-1})$"
@@ -141,6 +142,13 @@ def make_comparison_plot(
         x_label = x_label
         y_label = y_label
         deviation_label = f"({plot_type} agnpy / {plot_type} ref.) - 1"
+    # quantities are drawn in the units written on the axes
+    if plot_type in ("sed", "tau"):
+        y_unit = "erg cm-2 s-1" if plot_type == "sed" else ""
+        nu, second_ref_x = (_to_label_unit(x, "Hz") for x in (nu, second_ref_x))
+        y_comp, y_ref, second_ref_y = (
+            _to_label_unit(y, y_unit) for y in (y_comp, y_ref, second_ref_y)
+        )
     # make the plot
     fig, ax = plt.subplots(
         2,
-- 
2.43.0


From 2b98ef1ed561ccde778a797da0292353cfb5730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:06 +0000
Subject: [PATCH 29/29] fix: bins that come together are merged to a point
 between them, whatever the rounding

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 79d3a3f..99a49f8 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -207,6 +207,8 @@ def merge_points(x, y, merge_groups, interpolated_distribution):
     for g_idx, group in enumerate(merge_groups):
         labels[group] = g_idx
     x_means = np.array([np.exp(np.mean(np.log(x[labels == g]))) for g in range(len(merge_groups))])
+    # rounding errors must not move a merged point out of its group (past its neighbour)
+    x_means = np.clip(x_means, [x[group[0]] for group in merge_groups], [x[group[-1]] for group in merge_groups])
     if interpolated_distribution is None:
         y_means = Quantity([np.mean(y[labels == g]) for g in range(len(merge_groups))])
     else:
-- 
2.43.0

