From d9cf4d4eb32a8494089c8cf20356c38e4860e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 01/46] fix: take empirical critical values over the whole
 simulated sample, not over its distinct values

---
 .../calculator/critical_value_calculator.py          | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..cb888b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return float(np.quantile(limit_distribution, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +45,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return float(np.quantile(limit_distribution, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +66,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(limit_distribution, q=sl))
+        right = float(np.quantile(limit_distribution, q=1 - sl))
 
         return left, right
-- 
2.43.0


From 5ba01e06ccc6b4346e4d41b556526ef20d7e34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 02/46] fix: normal Kolmogorov-Smirnov statistic uses the
 hypothesised mean and variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..2f508d6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -88,7 +88,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
-- 
2.43.0


From ed92d52d4037c8e9e68ee496531d14582cc22ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 03/46] fix: normal Cramer-von Mises statistic uses the
 hypothesised mean and variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 2f508d6..bb4f967 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -220,7 +220,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From 18eed275012502a8fb1c1d03c41a40fe58fff5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 04/46] fix: exponential Kolmogorov-Smirnov statistic uses the
 hypothesised rate

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..ca8a63e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
-- 
2.43.0


From 0d2e5c61591eb40746cfd868332a1d3ca93ce560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/46] fix: exponentiality statistics leave the caller's
 sample unsorted

---
 .../statistics/goodness_of_fit/exponent.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index ca8a63e..797ec8b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,7 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         rvs = np.array(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
@@ -820,7 +820,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +871,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +922,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1066,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1285,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
-- 
2.43.0


From a4edd19520aa04b1648e4040eba091a16dba5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 06/46] fix: graph clique and independence statistics leave the
 caller's sample unsorted

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..9cbd451 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)
 
         right_border = 0
         clique_number = 0
@@ -229,7 +229,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
-- 
2.43.0


From a4e5f6d53335a3323ac090df5206997a83a3cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 07/46] fix: Hosking normality statistics leave the caller's
 sample unsorted

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index bb4f967..ab2c075 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -839,8 +839,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l22 = 0.0
             l32 = 0.0
             l42 = 0.0
@@ -907,8 +906,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l23 = 0.0
             l33 = 0.0
             l43 = 0.0
-- 
2.43.0


From 49f835f6ef3de4bc5251dc62e05c40f75052e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/46] fix: Ryan-Joiner statistic initialises its hypothesis
 parameters

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index ab2c075..a479202 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -554,7 +554,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        super().__init__()
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From 6ab8fec7f49c468db907e4d0408c987899e75a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 09/46] fix: Martinez-Iglewicz statistic sums over observations
 within nine deviations of the median

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index a479202..967d40e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1326,8 +1326,9 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
             a = 9.0 * a
 
             z = aux1 / a
-            term1 = np.sum(aux1**2 * (1 - z**2) ** 4)
-            term2 = np.sum((1 - z**2) * (1 - 5 * z**2))
+            inside = np.abs(z) < 1
+            term1 = np.sum(np.where(inside, aux1**2 * (1 - z**2) ** 4, 0))
+            term2 = np.sum(np.where(inside, (1 - z**2) * (1 - 5 * z**2), 0))
             term3 = np.sum(aux1**2)
 
             sb2 = (n * term1) / term2**2
-- 
2.43.0


From a207ff2066c90dccbda66967838df389c2a8492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 10/46] fix: Anderson-Darling Weibull statistic no longer
 passes an unknown argument

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..933149a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
-- 
2.43.0


From 38e484915238cc00467ea73e8d0a85f49b3e3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 11/46] fix: graph independence number accepts numpy arrays

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 9cbd451..dee1642 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -225,7 +225,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-- 
2.43.0


From 1fb770aee7e0d4ba1e1a26cbd04b82a246752130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 12/46] fix: graph clique number counts the points inside the
 window once

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index dee1642..0a75d59 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -196,7 +196,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
             if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
+                clique_number = max(clique_number, right_border - left_border)
                 break
             clique_number = max(clique_number, right_border - left_border)
         return clique_number
-- 
2.43.0


From 8346b00e388a344ac390d38da44205431993ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 13/46] fix: BHS normality statistic terminates: weighted
 median looks only at its live candidates

---
 .../statistics/goodness_of_fit/normal.py          | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 967d40e..b23dd12 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1996,11 +1996,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[(n // 2) + 1 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            # mc_c_d() overwrites its iteration settings with its results
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
@@ -2131,7 +2131,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
@@ -2250,7 +2249,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2270,11 +2269,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From e5c6c034fa9a6695390de2eac81abe5faffe673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 14/46] fix: BHS normality statistic pairs the observations
 below the median with the right kernel column

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b23dd12..b0e928a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2090,7 +2090,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # x2[i - 1] corresponds to x[j + i - 1]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
-- 
2.43.0


From f7fdb315c2eccac79aa9d78cfdb0e5355d6e67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 15/46] fix: Watson uniform statistic centres both sides and
 keeps the usual scale (U^2 = W^2 - n (mean - 1/2)^2)

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..c2c644e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -352,7 +352,7 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         i = np.arange(1, n + 1)
         fn = i / n
         mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f + 0.5) ** 2) + 1 / (12 * n)
 
         return u2
 
-- 
2.43.0


From 2c273dcb45d848e48e86c7deaa210a8485e6072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 16/46] fix: Zhang's Z_C and Z_K uniform statistics use their
 published formulas

---
 .../statistics/goodness_of_fit/uniform.py             | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index c2c644e..18befa2 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -592,14 +592,13 @@ class ZhangTestsUniformGofStatistic(AbstractUniformGofStatistic):
             statistic = -term1 - term2
 
         elif self.test_type == "C":
-            term1 = np.sum((np.log(rvs_std) / (n - i + 0.5)) ** 2)
-            term2 = np.sum((np.log(1 - rvs_std) / (i - 0.5)) ** 2)
-            statistic = term1 + term2
+            statistic = np.sum(np.log((1 / rvs_std - 1) / ((n - 0.5) / (i - 0.75) - 1)) ** 2)
 
         else:
-            term1 = np.sum(np.log(rvs_std / (1 - rvs_std)) / (n - i + 0.5))
-            term2 = np.sum(np.log((1 - rvs_std) / rvs_std) / (i - 0.5))
-            statistic = max(np.abs(term1), np.abs(term2))
+            statistic = np.max(
+                (i - 0.5) * np.log((i - 0.5) / (n * rvs_std))
+                + (n - i + 0.5) * np.log((n - i + 0.5) / (n * (1 - rvs_std)))
+            )
 
         return statistic
 
-- 
2.43.0


From 4b95239aa5045717c5ef06db485c06dd378bb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 17/46] fix: censored Stein statistic accepts the censoring
 indicator as a list

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 18befa2..972aad4 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -727,7 +727,7 @@ class CensoredSteinUniformGofStatistic(AbstractUniformGofStatistic):
         else:
             rvs_std = rvs.copy()
 
-        if censoring_indices is None or np.all(censoring_indices == 0):
+        if censoring_indices is None or np.all(np.asarray(censoring_indices) == 0):
             return SteinUniformGofStatistic(self.a, self.b).execute_statistic(rvs)
 
         censoring_indices = np.asarray(censoring_indices)
-- 
2.43.0


From 14aae4dadfa0584cd4f6c1ea87f2142434c3121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 18/46] fix: Zhang's Z_C Student statistic uses its published
 scores

---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..640c8df 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,7 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
+        term2 = (n - 0.5) / (i - 0.75) - 1
         # Avoid division by zero and log of negative numbers
         term2 = np.where(term2 <= 0, 1e-10, term2)
         zc = np.sum(np.log(term1 / term2) ** 2)
-- 
2.43.0


From ab7026eef8bd87b041378a007f65a92236dc14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 19/46] fix: Laplace-transform Weibull statistics name the
 transform their base class expects

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 933149a..a8f4e08 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1348,7 +1348,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1390,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
-- 
2.43.0


From 2d39650593edc2b18749103278bb6503c82e6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 20/46] fix: Cabana-Quiroz Weibull statistic accepts a list

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index a8f4e08..ac1d38c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1437,6 +1437,7 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
         s2 = 0.02
         v1 = 1.59
         v2 = 0.53
+        rvs = np.asarray(rvs)
         v12 = 0.91
 
         n = len(rvs)
-- 
2.43.0


From 645325655f798c315d4021203af480fe1afc0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 21/46] fix: Weibull shape estimate solves the likelihood
 equation (sign of the 1/shape term)

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index ac1d38c..64edb55 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -764,7 +764,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         def f1(toto, vect):
             if toto != 0:
                 f1 = np.sum(vect) / len(vect)
-                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) - 1 / toto
+                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) + 1 / toto
             else:
                 f1 = 100
             return abs(f1)
-- 
2.43.0


From 46687297d83289840ad085278c109283d172874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 22/46] fix: beta statistics hypothesise parameters under the
 names the beta generator takes, so simulation uses them

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
-- 
2.43.0


From 00862882ab446460d8bc711e8ab63846a0eeda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 23/46] fix: gamma statistics hypothesise parameters under the
 names the gamma generator takes, so simulation uses them

---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..0e57a64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From 5134e9b075d026e965e4ded6e0c09fb66a4baa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 24/46] fix: lognormal generator takes the scale the lognormal
 statistics hypothesise, so simulation uses it

---
 src/pysatl_criterion/generator/generators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..9944e38 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -73,6 +73,8 @@ NormalGenerator
     Normal distribution generator.
 """
 
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -331,12 +333,14 @@ class LognormGenerator(AbstractRVSGenerator):
         Shape parameter.
     mu : float, default=0
         Mean parameter.
+    scale : float, optional
+        Scale parameter, exp(mu). Takes precedence over ``mu`` when given.
     """
 
-    def __init__(self, s=1, mu=0, **kwargs):
+    def __init__(self, s=1, mu=0, scale=None, **kwargs):
         super().__init__(**kwargs)
         self.s = s
-        self.mu = mu
+        self.mu = mu if scale is None else math.log(scale)
 
     @override
     def parameters(self) -> dict[str, float]:
-- 
2.43.0


From 77508201b424b199e2fde891bd8b8b20ad962baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 25/46] fix: lognormal descriptor names the parameters the
 lognormal generator takes

---
 src/pysatl_criterion/distribution/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..175e463 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -268,9 +268,9 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for logarithmic mean and variance.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
+            DistributionParameterDescriptor("μ", "mu", "Mean of the logarithm", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ", "s", "Standard deviation of the logarithm. σ > 0", 1, PositiveNumberValidator()
             ),
         ]
 
-- 
2.43.0


From 66cb1c41a2fbbe2db85e767b6e1df7052be81c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 26/46] fix: Student statistics simulate with their location
 and scale

---
 .../core/distributions/student.py             |  8 ++++++--
 src/pysatl_criterion/generator/generators.py  | 19 ++++++++++++++-----
 .../statistics/goodness_of_fit/student.py     |  5 ++++-
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/student.py b/src/pysatl_criterion/core/distributions/student.py
index bf648d9..914ecce 100644
--- a/src/pysatl_criterion/core/distributions/student.py
+++ b/src/pysatl_criterion/core/distributions/student.py
@@ -1,7 +1,7 @@
 from scipy.stats import t
 
 
-def generate_t(size, df=2):
+def generate_t(size, df=2, loc=0, scale=1):
     """
     Generate random samples from the Student's t-distribution.
 
@@ -17,6 +17,10 @@ def generate_t(size, df=2):
     df : float, optional
         Degrees of freedom of the distribution. Must be greater than 0.
         Default is 2.
+    loc : float, optional
+        Location of the distribution. Default is 0.
+    scale : float, optional
+        Scale of the distribution. Must be greater than 0. Default is 1.
 
     Returns
     -------
@@ -39,4 +43,4 @@ def generate_t(size, df=2):
     >>> generate_t(5, df=3)
     array([...])
     """
-    return t.rvs(df=df, size=size)
+    return t.rvs(df=df, loc=loc, scale=scale, size=size)
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index 9944e38..e49885c 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -261,16 +261,25 @@ class TRVSGenerator(AbstractRVSGenerator):
     ----------
     df : float
         Degrees of freedom.
+    loc : float, default=0
+        Location parameter.
+    scale : float, default=1
+        Scale parameter.
     """
 
-    def __init__(self, df, **kwargs):
+    def __init__(self, df, loc=0, scale=1, **kwargs):
         super().__init__(**kwargs)
         self.df = df
+        self.loc = loc
+        self.scale = scale
 
     @override
     def parameters(self) -> dict[str, float]:
-        """Return Student's t-distribution parameters."""
-        return {"df": self.df}
+        """Return Student's t-distribution parameters (location and scale unless standard)."""
+        params = {"df": self.df}
+        if self.loc != 0 or self.scale != 1:
+            params.update(loc=self.loc, scale=self.scale)
+        return params
 
     @staticmethod
     @override
@@ -281,12 +290,12 @@ class TRVSGenerator(AbstractRVSGenerator):
     @override
     def code(self):
         """Return unique generator code."""
-        return super()._convert_to_code([self.distribution_type(), self.df])
+        return super()._convert_to_code([self.distribution_type(), *self.parameters().values()])
 
     @override
     def generate(self, size):
         """Generate Student's t-distributed random sample."""
-        return generate_t(size=size, df=self.df)
+        return generate_t(size=size, df=self.df, loc=self.loc, scale=self.scale)
 
 
 class TukeyRVSGenerator(AbstractRVSGenerator):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 640c8df..e8cdeb9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -32,7 +32,10 @@ class AbstractStudentGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"df": self.df})
+        params = {"df": self.df}
+        if self.loc != 0 or self.scale != 1:
+            params.update(loc=self.loc, scale=self.scale)
+        return GoodnessOfFitHypothesis(params)
 
     @staticmethod
     @override
-- 
2.43.0


From dc918d81c548a09642ca9a6352c0a6651b6bda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 27/46] fix: truncated normal samples lie between the given
 bounds

---
 src/pysatl_criterion/core/distributions/truncnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..f815f8d 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,7 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    scale = np.sqrt(var)
+    return truncnorm.rvs(
+        a=(a - mean) / scale, b=(b - mean) / scale, size=size, loc=mean, scale=scale
+    )
-- 
2.43.0


From bc22903a74e6ff42367dfc2285624fd7c8aaf064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 28/46] fix: Rice samples use nu as the distance of the centre,
 whatever the scale

---
 src/pysatl_criterion/core/distributions/rice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..fdcbf3e 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.stats import rice
 
 
@@ -43,4 +44,4 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    return rice.rvs(np.divide(nu, sigma), size=size, scale=sigma)
-- 
2.43.0


From 43b3ed618ad806ff9d1ca41692a68151dc5ba29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 29/46] fix: inverse Gaussian samples have mean mu and shape
 lam; default mean is valid

---
 .../core/distributions/invgauss.py                | 15 ++++++++-------
 .../distribution/distributions.py                 |  2 +-
 src/pysatl_criterion/generator/generators.py      |  4 ++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 6b4b2dd..f0af10f 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -1,14 +1,15 @@
+import numpy as np
 from scipy.stats import invgauss
 
 
-def generate_invgauss(size, mu=0, lam=1):
+def generate_invgauss(size, mu=1, lam=1):
     """
     Generate random samples from the inverse Gaussian (Wald) distribution.
 
     This function uses ``scipy.stats.invgauss.rvs`` to draw random values
     from an inverse Gaussian distribution. In SciPy, the distribution is
-    parameterized by a shape parameter ``mu`` and a ``scale`` parameter.
-    Here, ``lam`` is passed as the scale.
+    parameterized by a shape parameter (mean over scale) and a ``scale``
+    parameter. Here, ``lam`` is the scale and ``mu`` is the mean.
 
     Parameters
     ----------
@@ -17,10 +18,10 @@ def generate_invgauss(size, mu=0, lam=1):
         returns a 1D array of length ``size``. If a tuple is provided,
         returns an array with the specified shape.
     mu : float, optional
-        Shape parameter of the distribution. Must be greater than 0.
-        Default is 0.
+        Mean of the distribution. Must be greater than 0.
+        Default is 1.
     lam : float, optional
-        Scale parameter of the distribution. Must be greater than 0.
+        Shape parameter of the distribution. Must be greater than 0.
         Default is 1.
 
     Returns
@@ -44,4 +45,4 @@ def generate_invgauss(size, mu=0, lam=1):
     >>> generate_invgauss(5, mu=1.0, lam=2.0)
     array([...])
     """
-    return invgauss.rvs(mu, size=size, scale=lam)
+    return invgauss.rvs(np.divide(mu, lam), size=size, scale=lam)
diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 175e463..8e05c8f 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -412,7 +412,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index e49885c..ca03a4f 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -725,13 +725,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
-- 
2.43.0


From fceff9494b76a237eeb848e630e3653116f39332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:51 +0000
Subject: [PATCH 30/46] fix: storage returns the latest experiment when several
 share a limit distribution's key

---
 .../persistence/sqlalchemy/datastorage.py        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..4cd29a6 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -80,11 +80,17 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         :return: LimitDistributionModel instance if found, otherwise None.
         """
         with self.Session() as session:
-            stmt = select(LimitDistributionORM).where(
-                LimitDistributionORM.criterion_code == query.criterion_code,
-                LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
-                LimitDistributionORM.sample_size == query.sample_size,
-                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+            stmt = (
+                select(LimitDistributionORM)
+                .where(
+                    LimitDistributionORM.criterion_code == query.criterion_code,
+                    LimitDistributionORM.criterion_parameters
+                    == json.dumps(query.criterion_parameters),
+                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+                )
+                .order_by(desc(LimitDistributionORM.experiment_id))
+                .limit(1)
             )
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
-- 
2.43.0


From cf5b350b882c58ef2df2114cf5355df41f23d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 31/46] fix: storage deletes every experiment's record of a
 limit distribution

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 4cd29a6..bbc4a52 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -154,10 +154,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
+            for obj in session.execute(stmt).scalars().all():
                 session.delete(obj)
-                session.commit()
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 9ad5fe65da783cbd7c2b821fe485774f27674b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 32/46] fix: stored data for critical values is found within
 the allowed sample size error

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index bbc4a52..0460f98 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -173,7 +173,10 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(
+                        query.sample_size - query.sample_size_error,
+                        query.sample_size + query.sample_size_error,
+                    ),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From 59377432b5c5ec6f86b722a04d44e7e409627eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 33/46] fix: critical value loader copies remote data into the
 local storage

---
 .../critical_values/loader/remote_loader.py                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..b1df427 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -34,13 +34,13 @@ class CriticalValueLoader:
         logging.info(f"Load criterion {criterion_code} with size {sample_size} from remote")
         query = CriticalValueQuery(criterion_code, sample_size, sample_size_error)
 
+        if self.__local_storage.get_data_for_cv(query):
+            return True
+
         if self.__remote_storage is None:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
-            return True
-
         remote_data = self.__remote_storage.get_data_for_cv(query)
         if remote_data is not None:
             self.__local_storage.insert_data(remote_data)
-- 
2.43.0


From b7e2051ca0f98c38a81677aaa6b6b049c946fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 34/46] fix: storage resolver finds a stored limit distribution
 whatever its simulation count

---
 .../hypothesis_testing/limit_distribution/base.py         | 1 -
 .../persistence/models/limit_distribution.py              | 2 +-
 .../persistence/sqlalchemy/datastorage.py                 | 8 ++++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
index 9cf06de..85cf56f 100644
--- a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
+++ b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
@@ -111,7 +111,6 @@ class StorageLimitDistributionResolver(AbstractLimitDistributionResolver):
                 criterion_code=statistic.code(),
                 criterion_parameters=statistic.hypothesis().parameters(),
                 sample_size=sample_size,
-                monte_carlo_count=1,
             )
         )
 
diff --git a/src/pysatl_criterion/persistence/models/limit_distribution.py b/src/pysatl_criterion/persistence/models/limit_distribution.py
index 9fc2064..05030bd 100644
--- a/src/pysatl_criterion/persistence/models/limit_distribution.py
+++ b/src/pysatl_criterion/persistence/models/limit_distribution.py
@@ -39,7 +39,7 @@ class LimitDistributionQuery(DataQuery):
     criterion_code: str
     criterion_parameters: list[float]
     sample_size: int
-    monte_carlo_count: int
+    monte_carlo_count: int | None = None
 
 
 @dataclass
diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 0460f98..6294ffc 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -87,11 +87,15 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                     LimitDistributionORM.criterion_parameters
                     == json.dumps(query.criterion_parameters),
                     LimitDistributionORM.sample_size == query.sample_size,
-                    LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
                 )
-                .order_by(desc(LimitDistributionORM.experiment_id))
+                .order_by(
+                    desc(LimitDistributionORM.monte_carlo_count),
+                    desc(LimitDistributionORM.experiment_id),
+                )
                 .limit(1)
             )
+            if query.monte_carlo_count is not None:
+                stmt = stmt.where(LimitDistributionORM.monte_carlo_count == query.monte_carlo_count)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
-- 
2.43.0


From 083af98ec73dc55cf404255d3f4da94b5686b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 35/46] fix: Weibull likelihood is evaluated at the root of the
 likelihood equation

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From 0d4fb665e13776220ffc8349826ac22a0c3d9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 36/46] fix: Wigner likelihood searches every radius that can
 be the best one

---
 .../maximum_likelihood/function_for_maximum_likelihood.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..6f57a63 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -354,7 +354,7 @@ def likelihood_function_wigner(dataArray):
         return -(n * log(2 / (pi * R**2)) + 0.5 * np.sum(np.log(R**2 - dataArray**2)))
 
     result = minimize_scalar(
-        neg_log_likelihood, bounds=(max_abs_x + 1e-6, max_abs_x + 10), method="bounded"
+        neg_log_likelihood, bounds=(max_abs_x, sqrt(2) * max_abs_x), method="bounded"
     )
 
     if not result.success:
-- 
2.43.0


From 9f7168ba929955835b5b5606f4c4f6d3e527870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 37/46] fix: Poisson likelihood of a sample of zeros is one

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 6f57a63..e9e98a8 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -506,6 +506,9 @@ def likelihood_function_poisson(dataArray):
         return 0
 
     sum_x = np.sum(dataArray)
+    if sum_x == 0:
+        return 1
+
     lam = sum_x / len(dataArray)
 
     log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
-- 
2.43.0


From bec3f75701b847f4c68ac76cfc81f996e2a5797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 38/46] fix: geometric likelihood of a sample of ones is one

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index e9e98a8..9b79eb0 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -532,6 +532,9 @@ def likelihood_function_geometric(dataArray):
     n = len(dataArray)
     sum_x = np.sum(dataArray)
     p = n / sum_x
+    if p == 1:
+        return 1
+
 
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
-- 
2.43.0


From df32d7b17dfc431b69b18ceddb66bccfa9c03dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 39/46] fix: Rice descriptor refuses a negative distance

---
 src/pysatl_criterion/distribution/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 8e05c8f..2f47f67 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -650,6 +650,7 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "Distance between the reference point and the center of the bivariate "
                 "distribution. v >= 0,",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
-- 
2.43.0


From f8231dd0a5e423df781c13d38c7b01f37606ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:48 +0000
Subject: [PATCH 40/46] fix: Kolmogorov-Smirnov distances reject for large
 values in every direction

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py   | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/common.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 6b13b79..174a75d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -86,7 +86,7 @@ class KolmogorovSmirnovBetaGofStatistic(AbstractBetaGofStatistic, KSStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return Alternative.get_alternative(self.alternative_type)
+        return RightAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/common.py b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
index 3d651a4..bb1b12e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/common.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
@@ -22,7 +22,7 @@ class KSStatistic(AbstractStatistic, ABC):
 
     @override
     def alternative(self) -> Alternative:
-        return Alternative.get_alternative(self.alternative_type)
+        return RightAlternative()
 
     def do_execute_statistic(self, rvs, cdf_vals=None):
         """
@@ -120,7 +120,7 @@ class LillieforsTest(KSStatistic, ABC):
 
     @override
     def alternative(self) -> Alternative:
-        return Alternative.get_alternative(LillieforsTest.alternative_type)
+        return RightAlternative()
 
     def do_execute_statistic(self, z, cdf_vals=None):
         return super().do_execute_statistic(z, cdf_vals)
-- 
2.43.0


From d1c925344bedec8b77d1aeb037913a7d417e9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 41/46] fix: Min-Toshiyuki statistic rejects for large
 distances

---
 src/pysatl_criterion/statistics/goodness_of_fit/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/common.py b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
index bb1b12e..e1ba8fe 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/common.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/common.py
@@ -8,7 +8,6 @@ from pysatl_criterion.statistics.alternative import (
     Alternative,
     AlternativeType,
     RightAlternative,
-    TwoSidedAlternative,
 )
 from pysatl_criterion.statistics.statistic import AbstractStatistic
 
@@ -182,7 +181,7 @@ class Chi2Statistic(AbstractStatistic, ABC):
 class MinToshiyukiStatistic(AbstractStatistic, ABC):
     @override
     def alternative(self) -> Alternative:
-        return TwoSidedAlternative()
+        return RightAlternative()
 
     def do_execute_statistic(self, cdf_vals):
         n = len(cdf_vals)
-- 
2.43.0


From 084545472e814116d74856e1b2f5e96abbae5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 42/46] fix: distance statistics with a left alternative reject
 for large values

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py    | 3 +--
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py  | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 797ec8b..81732b0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -684,7 +684,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -787,7 +787,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -1252,7 +1252,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 0e57a64..f69e138 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -11,7 +11,6 @@ from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
 from pysatl_criterion.statistics.alternative import (
     Alternative,
     AlternativeType,
-    LeftAlternative,
     RightAlternative,
     TwoSidedAlternative,
 )
@@ -741,7 +740,7 @@ class ProbabilityPlotCorrelationGammaGofStatistic(AbstractGammaGofStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 64edb55..48b9aba 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1000,7 +1000,7 @@ class SPPWeibullGofStatistic(WPPWeibullGofStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From 117eba31e9a287a900724767341b393b38ba24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 43/46] fix: Hosking statistics reject for large squared
 departures

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b0e928a..bfaba84 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -694,7 +694,7 @@ class EppsPulleyNormalityGofStatistic(AbstractNormalityGofStatistic):
 class Hosking2NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return TwoSidedAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -757,7 +757,7 @@ class Hosking2NormalityGofStatistic(AbstractNormalityGofStatistic):
 class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return TwoSidedAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -818,7 +818,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
 class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return TwoSidedAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -885,7 +885,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
 class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return TwoSidedAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From 3639dab9f29f26f5306c881297a80037e373bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 44/46] fix: find_result_of_likelihood_function could neither
 be imported nor return a result

The module imported a sibling that is not importable by that name, the search called the
functions imported by that sibling (log, comb, ...) and the binomial likelihood without its number
of trials, 'not data_array' is ambiguous for arrays, and nothing was returned or raised.
---
 .../maximum_likelihood/maximum_likelihood.py  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 3362194..0baa3dc 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -1,19 +1,25 @@
 import inspect
 
-import function_for_maximum_likelihood
 import numpy as np
 
+from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood
+
 
 def find_max_probability_function(data):
     """
     Find the distribution function with maximum likelihood for given data.
 
+    Likelihood functions that need anything besides the data (the binomial one needs the number
+    of trials) take no part in the search.
+
     :param data: list of observed data samples for distribution fitting.
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
     functions = [
-        f for _, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        f
+        for name, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        if name.startswith("likelihood_function_") and len(inspect.signature(f).parameters) == 1
     ]
 
     max_func = None
@@ -25,6 +31,9 @@ def find_max_probability_function(data):
             max_probability = result
             max_func = func
 
+    if max_func is None:
+        raise ValueError("No likelihood function is positive for the data.")
+
     return max_func
 
 
@@ -39,10 +48,12 @@ def find_result_of_likelihood_function(data):
     """
     data_array = np.array(data)
 
-    if not data_array:
+    if data_array.size == 0:
         raise ValueError("There are no data.")
 
     if not np.issubdtype(data_array.dtype, np.number):
         raise TypeError("Data should be numeric.")
 
-    find_max_probability_function(data)
+    max_func = find_max_probability_function(data_array)
+
+    return max_func, max_func(data_array)
-- 
2.43.0


From cba9a7c134d5cec0ade8c3287e37e632b65db31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 45/46] fix: Poisson and binomial likelihoods of whole numbers
 held as floats

They pass the check for whole numbers, but math.comb and math.factorial refuse floats.
---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 9b79eb0..056d879 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -487,7 +487,7 @@ def likelihood_function_binomial(dataArray, n):
             return 0
 
     log_likelihood = np.sum(
-        [log(comb(n, x)) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
+        [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
     return exp(log_likelihood)
@@ -511,7 +511,7 @@ def likelihood_function_poisson(dataArray):
 
     lam = sum_x / len(dataArray)
 
-    log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
+    log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
     likelihood = exp(log_likelihood)
 
     return likelihood
-- 
2.43.0


From 2295d50910b52e2d8ae64bf395457dcb6f9d7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 46/46] fix: the Rayleigh likelihood of a sample containing
 zero is 0

Its density is zero there; scipy.stats.rayleigh.fit refuses such a sample.
---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 056d879..4d9a717 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -321,9 +321,9 @@ def likelihood_function_rayleigh(dataArray):
 
     :param dataArray: array of observed data samples (must be non-negative).
 
-    :return: likelihood value (0 if any value is negative).
+    :return: likelihood value (0 if any value is not positive).
     """
-    if np.any(dataArray < 0):
+    if np.any(dataArray <= 0):
         return 0
 
     params = rayleigh.fit(dataArray, floc=0)
-- 
2.43.0

