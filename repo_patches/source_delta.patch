From 12bb526aafbce9c72bfb923b9cc19e86bcaf4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 01/28] fix: treat Exponential.lam as the rate it is documented
 to be

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..48f90f3 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
-- 
2.43.0


From fee2205ee67e583f248295abbb9e2b4b927c843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 02/28] fix: exponential_gamma_predictive had the Lomax shape
 and scale swapped

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..f218ec4 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -692,7 +692,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 4ff07781e8594bcf260e9d0003dba38d4067ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 03/28] fix: LogNormal.mu is on the log scale, not a location
 shift

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 48f90f3..0626e58 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 8f3d2282e39eb5252de8c2cc22d4dcd29b04bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 04/28] fix: Uniform.dist ends at high instead of low + high

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 0626e58..7e23c37 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(self.low, self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From 8d341e35853644afba0976d2127069a3a2b6a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 05/28] fix: beta_geometric pmf was off by one and non-zero
 outside its support

---
 conjugate/_beta_geometric.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..75a59b4 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -9,10 +9,12 @@ from scipy.special import beta
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
 
-    if not one_start:
-        x = x + 1
+    # number of failures before the first success
+    failures = x - 1 if one_start else x
 
-    return beta(a + 1, x + b) / beta(a, b)
+    pmf = beta(a + 1, np.maximum(failures, 0) + b) / beta(a, b)
+    in_support = (failures >= 0) & (failures == np.floor(failures))
+    return np.where(in_support, pmf, 0.0)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From 2f63978c5d216e913b9e2f4318954acf3ee7a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 06/28] fix: marginal of MultivariateStudentT used the variance
 as the scale

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 7e23c37..292f01b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From 0b86491b2f991f8d9026f62011949be16cfdb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 07/28] fix: von Mises known-concentration posterior and its
 log likelihood

---
 conjugate/distributions.py | 2 +-
 conjugate/models.py        | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 292f01b..359cfd9 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -921,7 +921,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
diff --git a/conjugate/models.py b/conjugate/models.py
index f218ec4..45c7557 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1683,10 +1683,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From 038dde1839fa582d9fe0177a5877f99b45d8903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 08/28] fix: wrong type for a union annotated prior raised
 AttributeError

---
 conjugate/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 45c7557..9c3b810 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -33,7 +33,7 @@ Below are the supported models:
 """
 
 from functools import wraps
-from typing import Callable
+from typing import Callable, get_args
 
 import numpy as np
 
@@ -79,8 +79,11 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_name = " | ".join(
+                    t.__name__ for t in get_args(expected_type) or (expected_type,)
+                )
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From 8676831c994add38aca1a136c3cc32bc25824f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 09/28] fix: Dirichlet posterior of two lists concatenated them

---
 conjugate/models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 9c3b810..e9c951b 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -431,6 +431,13 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
+    both_sequences = isinstance(alpha_prior, (list, tuple)) and isinstance(
+        x, (list, tuple)
+    )
+    if both_sequences:
+        # + would concatenate
+        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+
     try:
         return alpha_prior + x
     except Exception:
-- 
2.43.0


From b62aef4c114ba4cb321682ad4c17b16cdad0cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 10/28] fix: Dirichlet.dist failed for a list of concentrations

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 359cfd9..fc5e73f 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -160,7 +160,7 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
+        if np.ndim(self.alpha) == 1:
             return stats.dirichlet(self.alpha)
 
         return VectorizedDist(self.alpha, dist=stats.dirichlet)
-- 
2.43.0


From 27df83cc3966bb2b860ec36b1be13ce8720fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 11/28] fix: normal and multivariate_normal failed on an empty
 batch

---
 conjugate/models.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index e9c951b..6d090ab 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1234,10 +1234,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
@@ -1948,7 +1946,8 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
+    # the mean of no observations carries no weight
+    X_mean = X.mean(axis=0) if n > 0 else prior.mu
     C = (X - X_mean).T @ (X - X_mean)
 
     mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
-- 
2.43.0


From dc9d510907ce4c741754bb8b82bde438dfbc88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 12/28] fix: forward inv to the shared multivariate normal
 update

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 6d090ab..745282e 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1773,6 +1773,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1830,6 +1831,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From 85e3c1153bb8c473ee7e4eb11834d7796b23aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 13/28] fix: poisson_gamma_predictive for an exposure other
 than one

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 745282e..8a8290f 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -621,10 +621,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 # Just happen to be the same as above
-- 
2.43.0


From 136460b4a3c220ea255b3ff6174277105f639638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 14/28] fix: conditional plot normalised all curves together
 instead of each one

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..b5acc8a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -322,7 +322,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From 0ab34e85321777e14daecee0418f6c1a11e09d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 15/28] fix: indexing a multivariate distribution with a numpy
 integer

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index fc5e73f..930c2a2 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -479,7 +479,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -707,7 +707,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From 823f6da3e5b0d5af1de4e4514dc49e78cb4d6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 16/28] fix: compound gamma density outside its support

---
 conjugate/_compound_gamma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..e640783 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -5,7 +5,11 @@ from scipy.stats import gamma
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    x = np.asarray(x)
+    in_support = x >= 0
+    z = np.where(in_support, x, 1) / q
+    pdf = z ** (a - 1) * (1 + z) ** (-a - b) / (q * beta(a, b))
+    return np.where(in_support, pdf, 0.0)[()]
 
 
 class compound_gamma:
-- 
2.43.0


From d8319f3d6b5e366b31f1618c8b002feb47f644b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 17/28] fix: an integer random_state gave every draw of a joint
 sample the same randomness

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 18 ++++++++++++++++++
 conjugate/distributions.py   |  5 +++++
 4 files changed, 29 insertions(+)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 75a59b4..4866281 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import beta
 
+from conjugate._random import resolve_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -38,6 +40,7 @@ class beta_geometric:
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
 
+        random_state = resolve_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index e640783..c788707 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import beta
 from scipy.stats import gamma
 
+from conjugate._random import resolve_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     x = np.asarray(x)
@@ -32,6 +34,7 @@ class compound_gamma:
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
 
+        random_state = resolve_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
 
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..7dbd075
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,18 @@
+"""Random state handling shared by the samplers."""
+
+from numbers import Integral
+
+import numpy as np
+
+
+def resolve_random_state(random_state):
+    """Turn a seed into a random state in order for consecutive draws to differ.
+
+    Passing the same seed to more than one draw would make them use the same
+    randomness. Anything other than a seed is returned as is.
+
+    """
+    if isinstance(random_state, Integral):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 930c2a2..f3d7c10 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import resolve_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -654,6 +655,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1070,6 +1072,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = variance**0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1186,6 +1189,7 @@ class NormalWishart:
 
         """
 
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1274,6 +1278,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 093e2657169e82f8cbbef17e6ebb201b5665c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 18/28] fix: joint samplers returned the variance of the mean
 as the data variance

---
 conjugate/distributions.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index f3d7c10..9b9a993 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1033,7 +1033,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1074,7 +1074,7 @@ class NormalGamma:
         """
         random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1162,9 +1162,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1194,7 +1192,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
                     size=1,
                     random_state=random_state,
                 )
@@ -1252,10 +1250,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1283,7 +1278,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance
-- 
2.43.0


From ee2cffe5ef3a2b200d17bdb2a2941c0e448cef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 19/28] fix: one-dimensional normal Wishart samplers lost the
 matrix dimensions

---
 conjugate/distributions.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9b9a993..5a2f992 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1162,12 +1162,11 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
+        # scipy drops the dimensions of size one
+        precision = np.reshape(precision, (size, *np.shape(self.W)))
 
-        if size == 1:
-            variance = variance[None, ...]
-
-        return variance
+        return inv(precision)
 
     def sample_mean(
         self,
@@ -1251,10 +1250,8 @@ class NormalInverseWishart:
 
         """
         variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-        if size == 1:
-            variance = variance[None, ...]
-
-        return variance
+        # scipy drops the dimensions of size one
+        return np.reshape(variance, (size, *np.shape(self.psi)))
 
     def sample_mean(
         self,
-- 
2.43.0


From d6e9d990e5be437e6a29db3deaee1d7aa4a6f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 20/28] fix: a request for no samples from a compound
 distribution returned one

---
 conjugate/_beta_geometric.py | 2 +-
 conjugate/_compound_gamma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 4866281..229db71 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -38,7 +38,7 @@ class beta_geometric:
         random_state: np.random.Generator | None = None,
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
-        size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, () if size is None else size)
 
         random_state = resolve_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index c788707..890ba7c 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -32,7 +32,7 @@ class compound_gamma:
         random_state: np.random.Generator | None = None,
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
-        size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, q.shape, () if size is None else size)
 
         random_state = resolve_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-- 
2.43.0


From c2819b7cf02d20f9a3b497a012a532f621b23afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 21/28] fix: exponential_gamma posterior had the roles of
 x_total and n swapped

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 8a8290f..9181737 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -626,8 +626,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=distribution.alpha, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From e6b778df5feb3dc1d54fdd55e6e1347ae4da4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 22/28] fix: indexing a count distribution with an empty
 selection failed

---
 conjugate/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 5a2f992..9c96d69 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -118,7 +118,7 @@ class Binomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -293,7 +293,7 @@ class Hypergeometric(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self) -> None:
         if isinstance(self.N, np.ndarray):
-            self.max_value = self.N.max()
+            self.max_value = self.N.max(initial=0)
         else:
             self.max_value = self.N
 
@@ -345,7 +345,7 @@ class BetaBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -371,7 +371,7 @@ class BetaNegativeBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
-- 
2.43.0


From 681399ca1f35028c63384f09974c906778120156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 23/28] fix: compound gamma samples lost leading dimensions of
 size one

---
 conjugate/_compound_gamma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 890ba7c..d99d0a5 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -36,7 +36,9 @@ class compound_gamma:
 
         random_state = resolve_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(
+            a, scale=1 / random_b, size=size, random_state=random_state
+        )
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 9639b46c9220e5c0ee2091b57d09620f721c6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 24/28] fix: plots rejected a single color given as an RGB
 tuple or a name like C1

---
 conjugate/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index b5acc8a..fbc8dd5 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -57,6 +58,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     return label
 
 
+def is_color_sequence(color) -> bool:
+    """Whether there are several colors. A name or an RGB tuple is only one."""
+    return isinstance(color, Iterable) and not is_color_like(color)
+
+
 class PlotDistMixin:
     """Base mixin in order to support plotting. Requires the dist attribute of the scipy distribution."""
 
@@ -178,7 +184,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_sequence(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +346,7 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_sequence(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From 645cf44b35949d9cd5d1abdc8bc6f81233956ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 25/28] fix: plots failed for labels from a generator

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index fbc8dd5..da191f6 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -36,7 +36,7 @@ def label_to_iterable(label: LABEL_INPUT, ncols: int) -> Iterable[str]:
         return [label(i) for i in range(ncols)]
 
     if isinstance(label, Iterable):
-        return label
+        return list(label)
 
     raise ValueError(
         "Label must be None, a string, iterable, or callable.",
-- 
2.43.0


From fa6b6c0c483a64e7f2a621f8a26a9c60a25ba048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 26/28] fix: default plot bounds of a vectorized Uniform

---
 conjugate/distributions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9c96d69..e88a335 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -500,8 +500,15 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        if isinstance(self.low, np.ndarray):
+            self.min_value = self.low.min(initial=np.inf)
+        else:
+            self.min_value = self.low
+
+        if isinstance(self.high, np.ndarray):
+            self.max_value = self.high.max(initial=-np.inf)
+        else:
+            self.max_value = self.high
 
     @property
     def dist(self):
-- 
2.43.0


From 554fe0900629b5a5cd35e5cdd69e37c27a071f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 27/28] fix: plot_cdf failed for BetaGeometric and
 CompoundGamma

---
 conjugate/_beta_geometric.py | 12 ++++++++++++
 conjugate/_compound_gamma.py | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 229db71..2278d0e 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -19,6 +19,15 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     return np.where(in_support, pmf, 0.0)[()]
 
 
+def beta_geometric_cdf(x, a, b, one_start: bool = True):
+    x, a, b = np.broadcast_arrays(x, a, b)
+
+    # all of the trials up to x fail with probability beta(a, b + trials) / beta(a, b)
+    trials = np.floor(x) if one_start else np.floor(x) + 1
+
+    return (1 - beta(a, b + np.maximum(trials, 0)) / beta(a, b))[()]
+
+
 class beta_geometric:
     """Implementation to work like scipy distribution classes.
 
@@ -51,3 +60,6 @@ class beta_geometric:
 
     def pmf(self, x):
         return beta_geometric_pmf(x, self.a, self.b, one_start=self.one_start)
+
+    def cdf(self, x):
+        return beta_geometric_cdf(x, self.a, self.b, one_start=self.one_start)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index d99d0a5..690c545 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import beta, betainc
 from scipy.stats import gamma
 
 from conjugate._random import resolve_random_state
@@ -14,6 +14,11 @@ def compound_gamma_pdf(x, a, b, q):
     return np.where(in_support, pdf, 0.0)[()]
 
 
+def compound_gamma_cdf(x, a, b, q):
+    x = np.maximum(x, 0)
+    return betainc(a, b, x / (x + q))
+
+
 class compound_gamma:
     """Implementation to work like scipy distribution classes.
 
@@ -42,3 +47,6 @@ class compound_gamma:
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
+
+    def cdf(self, x):
+        return compound_gamma_cdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 1be98a2b868ecdbd53b71f0c945d5293fff595ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 28/28] fix: Uniform failed for arrays of integers

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index e88a335..24dfc3d 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -501,12 +501,12 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.low, np.ndarray):
-            self.min_value = self.low.min(initial=np.inf)
+            self.min_value = self.low.astype(float).min(initial=np.inf)
         else:
             self.min_value = self.low
 
         if isinstance(self.high, np.ndarray):
-            self.max_value = self.high.max(initial=-np.inf)
+            self.max_value = self.high.astype(float).max(initial=-np.inf)
         else:
             self.max_value = self.high
 
-- 
2.43.0

