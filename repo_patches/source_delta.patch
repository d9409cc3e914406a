From ade647cecc3aadad08aa577c88a2e898d4879234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 01/23] fix: reject non-positive entries in lengths

---
 src/hmmlearn/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..a1dc977 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -23,6 +23,9 @@ def split_X_lengths(X, lengths):
         if cs[-1] != n_samples:
             raise ValueError(
                 f"lengths array {lengths} doesn't sum to {n_samples} samples")
+        if (np.asarray(lengths) <= 0).any():
+            raise ValueError(
+                f"lengths array {lengths} must only contain positive values")
         return np.split(X, cs)[:-1]
 
 
-- 
2.43.0


From 385ceff17d28ba3a76e10aaabe8bb7906f5ecd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 02/23] fix: covars_ of fitted spherical models has one matrix
 per component

---
 src/hmmlearn/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..da44253 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,8 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # One variance per component, possibly repeated along the features.
+        covars = np.reshape(covars, (n_components, -1))[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From dc8007c5f67052e77caac9ff23ed698e77b2de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 03/23] fix: GaussianHMM covariance re-estimation with fixed
 means

---
 src/hmmlearn/hmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..3352c88 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # The covariance update also uses the posterior mass and first moments.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From 7148f0e664753ddc8e97fd64dd3f7292e043b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 04/23] fix: default covars_prior of spherical GMMHMM is
 uninformative

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 3352c88..8bbda14 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -609,7 +609,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From 9b7d99c7143109ce198e3ffa246367472c880a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 05/23] fix: count the mixture weights of every component of
 GMMHMM

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..dd21edb 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -197,7 +197,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From 5decddaf69ecda3fd832eee73c551a8ebbd4ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 06/23] fix: sampled transitions never fall off the end of the
 cdf

---
 src/hmmlearn/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..01975ef 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -432,6 +432,7 @@ class _AbstractHMM(BaseEstimator):
         random_state = check_random_state(random_state)
 
         transmat_cdf = np.cumsum(self.transmat_, axis=1)
+        transmat_cdf = transmat_cdf / transmat_cdf[:, -1:]
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
-- 
2.43.0


From 80c79ec8051a31188e6e10fb7692c7ae8e5fcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 07/23] fix: sampled initial state never falls off the end of
 the cdf

---
 src/hmmlearn/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 01975ef..19845ff 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -436,6 +436,7 @@ class _AbstractHMM(BaseEstimator):
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
+            startprob_cdf = startprob_cdf / startprob_cdf[-1]
             currstate = (startprob_cdf > random_state.rand()).argmax()
 
         state_sequence = [currstate]
-- 
2.43.0


From 3b78932a4b2451437eb1a7590d453ddccbae4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 08/23] fix: sampled symbols never fall off the end of the cdf

---
 src/hmmlearn/_emissions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index dd21edb..2283377 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -105,6 +105,7 @@ class BaseCategoricalHMM(_AbstractHMM):
 
     def _generate_sample_from_state(self, state, random_state=None):
         cdf = np.cumsum(self.emissionprob_[state, :])
+        cdf = cdf / cdf[-1]
         random_state = check_random_state(random_state)
         return [(cdf > random_state.rand()).argmax()]
 
-- 
2.43.0


From a7097baf51c633cf3903598d193f159e53f459e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 09/23] fix: reject negative symbols when scoring or decoding

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 2283377..605d08b 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if X.min() < 0:
+            raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
 
     def _initialize_sufficient_statistics(self):
-- 
2.43.0


From bad3252b58c5031aeacf6dc347b02e902aabf176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 10/23] fix: PoissonHMM weighs the lambda prior by each state's
 own mass

---
 src/hmmlearn/hmm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 8bbda14..bb3a818 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1067,10 +1067,9 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
+            n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
-            # 0, where:
+            # 0, where (with y_bar = stats['obs'] / n):
             # kappas = betas / (betas + n)
             # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From cf8c03b666fe0af0e6011491931f13ad81e0c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 11/23] fix: GMMHMM initialisation draws from its own random
 state

---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index bb3a818..08e8208 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -544,6 +544,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._init_covar_priors()
         self._fix_priors_shape()
 
+        random_state = check_random_state(self.random_state)
         main_kmeans = cluster.KMeans(n_clusters=nc,
                                      random_state=self.random_state,
                                      n_init=10)  # sklearn >=1.2 compat.
@@ -562,9 +563,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From f86dd752a6789e6f37b3a19139d23a3ab00f2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 12/23] fix: MultinomialHMM initialises emissionprob_ when it
 is unset

even if 'e' is not in init_params, like every other model does
---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 08e8208..23f61f8 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -920,7 +920,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
         self.random_state = check_random_state(self.random_state)
-        if 'e' in self.init_params:
+        if self._needs_init('e', 'emissionprob_'):
             self.emissionprob_ = self.random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
-- 
2.43.0


From c5998a4f50003007fe44a662b813e3404b471210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 13/23] fix: VariationalCategoricalHMM initialises an unset
 emissionprob_prior_

even if emissionprob_posterior_ is set, like the other priors
---
 src/hmmlearn/vhmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..4602f6e 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -146,7 +146,8 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         """
         super()._init(X, lengths)
         random_state = check_random_state(self.random_state)
-        if self._needs_init("e", "emissionprob_posterior_"):
+        if (self._needs_init("e", "emissionprob_posterior_")
+                or self._needs_init("e", "emissionprob_prior_")):
             emissionprob_init = 1 / self.n_features
             if self.emissionprob_prior is not None:
                 emissionprob_init = self.emissionprob_prior
-- 
2.43.0


From faf4069d089a3788a08996dc4675db0d4bf9d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 14/23] fix: aic and bic of a model that was never scored

n_features is only set when the model is checked, so that counting the
parameters first failed for models whose parameters were assigned
---
 src/hmmlearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 19845ff..3bcd96c 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -999,8 +999,9 @@ class BaseHMM(_AbstractHMM):
         aic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + 2 * n_params
+        return -2 * log_prob + 2 * n_params
 
     def bic(self, X, lengths=None):
         """
@@ -1023,8 +1024,9 @@ class BaseHMM(_AbstractHMM):
         bic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + n_params * np.log(len(X))
+        return -2 * log_prob + n_params * np.log(len(X))
 
 
 _BaseHMM = BaseHMM  # Backcompat name, will be deprecated in the future.
-- 
2.43.0


From 5e68e9a9d6b232c2ed7f5a794450448d4efbbf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 15/23] fix: MultinomialHMM rejects emission probabilities that
 do not sum to 1

---
 src/hmmlearn/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 23f61f8..5886e95 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -934,6 +934,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
                 "emissionprob_ must have shape (n_components, n_features)")
         else:
             self.n_features = n_features
+        self._check_sum_1("emissionprob_")
         if self.n_trials is None:
             raise ValueError("n_trials must be set")
 
-- 
2.43.0


From e35b1d140830a9166f828bc67b2436e2e341bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 16/23] fix: scoring rejects samples of another dimension than
 the parameters

---
 src/hmmlearn/_emissions.py | 8 ++++++++
 src/hmmlearn/stats.py      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 605d08b..f1d2b72 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -383,13 +383,21 @@ class BasePoissonHMM(BaseHMM):
             "l": nc * nf,
         }
 
+    def _check_samples(self, X):
+        if X.shape[1] != np.shape(self.lambdas_)[1]:
+            raise ValueError(
+                f"X has {X.shape[1]} features, but lambdas_ has "
+                f"{np.shape(self.lambdas_)[1]}")
+
     def _compute_likelihood(self, X):
+        self._check_samples(X)
         probs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             probs[:, c] = poisson.pmf(X, self.lambdas_[c]).prod(axis=1)
         return probs
 
     def _compute_log_likelihood(self, X):
+        self._check_samples(X)
         logprobs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             logprobs[:, c] = poisson.logpmf(X, self.lambdas_[c]).sum(axis=1)
diff --git a/src/hmmlearn/stats.py b/src/hmmlearn/stats.py
index 7a01b8c..ac59eff 100644
--- a/src/hmmlearn/stats.py
+++ b/src/hmmlearn/stats.py
@@ -34,6 +34,10 @@ def log_multivariate_normal_density(X, means, covars, covariance_type='diag'):
         Array containing the log probabilities of each data point in
         X under each of the n_components multivariate Gaussian distributions.
     """
+    if X.shape[-1] != means.shape[-1]:
+        raise ValueError(
+            f"X has {X.shape[-1]} features, but the means have "
+            f"{means.shape[-1]}")
     log_multivariate_normal_density_dict = {
         'spherical': _log_multivariate_normal_density_spherical,
         'tied': _log_multivariate_normal_density_tied,
-- 
2.43.0


From 702a7a9e24a86c26b57a6e5d60f953dd0ba8d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 17/23] fix: VariationalGaussianHMM checks the shapes of its
 start and transition parameters

---
 src/hmmlearn/vhmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 4602f6e..f2b74eb 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -596,6 +596,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             raise ValueError(
                 f"{self.covariance_type} is invalid")
 
+        super()._check()
+
         means_shape = (self.n_components, self.n_features)
 
         self.means_prior_ = np.asarray(self.means_prior_, dtype=float)
-- 
2.43.0


From 1d929336247864dd193413da89338f8de56b8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 18/23] fix: start probabilities of more than one dimension are
 rejected

---
 src/hmmlearn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 3bcd96c..75249c4 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -968,7 +968,7 @@ class BaseHMM(_AbstractHMM):
             don't sum to 1.
         """
         self.startprob_ = np.asarray(self.startprob_)
-        if len(self.startprob_) != self.n_components:
+        if self.startprob_.shape != (self.n_components,):
             raise ValueError("startprob_ must have length n_components")
         self._check_sum_1("startprob_")
 
@@ -1135,10 +1135,10 @@ class VariationalBaseHMM(_AbstractHMM):
         nc = self.n_components
 
         self.startprob_prior_ = np.asarray(self.startprob_prior_)
-        if len(self.startprob_prior_) != nc:
+        if self.startprob_prior_.shape != (nc,):
             raise ValueError("startprob_prior_ must have length n_components")
         self.startprob_posterior_ = np.asarray(self.startprob_posterior_)
-        if len(self.startprob_posterior_) != nc:
+        if self.startprob_posterior_.shape != (nc,):
             raise ValueError("startprob_posterior_ must have length "
                              "n_components")
 
-- 
2.43.0


From ff22feede2a1a035ef35ef871fb25486161f8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 19/23] fix: diag and full covariances must have one entry per
 component

---
 src/hmmlearn/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index a1dc977..2cbe46a 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -46,13 +46,13 @@ def _validate_covars(covars, covariance_type, n_components):
             raise ValueError("'tied' covars must be symmetric, "
                              "positive-definite")
     elif covariance_type == 'diag':
-        if len(covars.shape) != 2:
+        if len(covars.shape) != 2 or len(covars) != n_components:
             raise ValueError("'diag' covars must have shape "
                              "(n_components, n_dim)")
         elif np.any(covars <= 0):
             raise ValueError("'diag' covars must be positive")
     elif covariance_type == 'full':
-        if len(covars.shape) != 3:
+        if len(covars.shape) != 3 or len(covars) != n_components:
             raise ValueError("'full' covars must have shape "
                              "(n_components, n_dim, n_dim)")
         elif covars.shape[1] != covars.shape[2]:
-- 
2.43.0


From 2b224fc0eb20d10bebe718e2210c9b35532ab2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 20/23] fix: kernels reject empty sequences and models instead
 of touching memory outside their arrays

---
 ext/_hmmc.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..a146e33 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -27,6 +27,13 @@ double logsumexp(double const* v, ssize_t n)
   return std::log(acc) + max;
 }
 
+void check_not_empty(ssize_t ns, ssize_t nc)
+{
+  if (ns < 1 || nc < 1) {
+    throw std::invalid_argument{"empty sequence or model"};
+  }
+}
+
 py::array_t<double> log(
   py::array_t<double, py::array::c_style | py::array::forcecast> x_)
 {
@@ -54,6 +61,7 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -112,6 +120,7 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -148,6 +157,7 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
@@ -182,6 +192,7 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -249,6 +260,7 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
@@ -286,6 +298,7 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
-- 
2.43.0


From 7f27fd2eed455b3ebcc44973f0cf7cf728509bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 21/23] fix: compute_log_xi_sum reads forward lattices of any
 memory layout

---
 ext/_hmmc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index a146e33..b041228 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -249,7 +249,7 @@ py::array_t<double> compute_scaling_xi_sum(
 }
 
 py::array_t<double> compute_log_xi_sum(
-  py::array_t<double> fwdlattice_,
+  py::array_t<double, py::array::c_style | py::array::forcecast> fwdlattice_,
   py::array_t<double> transmat_,
   py::array_t<double> bwdlattice_,
   py::array_t<double> log_frameprob_)
-- 
2.43.0


From fe26ce6d9b0bb2ba9df5ce51bf3d69f86fbf185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 22/23] fix: PoissonHMM initialises its rates from constant
 counts

---
 src/hmmlearn/hmm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 5886e95..0b68570 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1046,10 +1046,15 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
-                shape=mean_X**2 / var_X,
-                scale=var_X / mean_X,  # numpy uses theta = 1 / beta
-                size=(self.n_components, self.n_features))
+            if var_X > 0:
+                self.lambdas_ = self.random_state.gamma(
+                    shape=mean_X**2 / var_X,
+                    scale=var_X / mean_X,  # numpy uses theta = 1 / beta
+                    size=(self.n_components, self.n_features))
+            else:
+                # constant counts: all the mass is at their value
+                self.lambdas_ = np.full(
+                    (self.n_components, self.n_features), mean_X)
 
     def _check(self):
         super()._check()
-- 
2.43.0


From 966fd91fe0bb7f5d9882166c02e2dd65401a274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 23/23] fix: variational models set their point estimates
 whichever parameters are trained

---
 src/hmmlearn/base.py | 11 +++++------
 src/hmmlearn/vhmm.py | 21 +++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 75249c4..45e9ad7 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1234,14 +1234,13 @@ class VariationalBaseHMM(_AbstractHMM):
         """
         if 's' in self.params:
             self.startprob_posterior_ = self.startprob_prior_ + stats['start']
-            # For compatability in _AbstractHMM
-            self.startprob_ = (self.startprob_posterior_
-                               / self.startprob_posterior_.sum())
         if 't' in self.params:
             self.transmat_posterior_ = self.transmat_prior_ + stats['trans']
-            # For compatability in _AbstractHMM
-            self.transmat_ = (self.transmat_posterior_
-                              / self.transmat_posterior_.sum(axis=1)[:, None])
+        # For compatability in _AbstractHMM, whichever parameters are trained
+        self.startprob_ = (self.startprob_posterior_
+                           / self.startprob_posterior_.sum())
+        self.transmat_ = (self.transmat_posterior_
+                          / self.transmat_posterior_.sum(axis=1)[:, None])
 
     def _compute_lower_bound(self, curr_logprob):
         """
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index f2b74eb..a32b658 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -213,9 +213,9 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         if "e" in self.params:
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_ + stats['obs'])
-            # Provide the normalized probabilities at the posterior median
-            div = self.emissionprob_posterior_.sum(axis=1)[:, None]
-            self.emissionprob_ = self.emissionprob_posterior_ / div
+        # Provide the normalized probabilities at the posterior median
+        div = self.emissionprob_posterior_.sum(axis=1)[:, None]
+        self.emissionprob_ = self.emissionprob_posterior_ / div
 
     def _compute_lower_bound(self, log_prob):
         """Compute the lower bound of the model."""
@@ -731,8 +731,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None, None])
             elif self.covariance_type == "tied":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post'].sum()
@@ -748,7 +746,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = self.scale_posterior_ / self.dof_posterior_
             elif self.covariance_type == "diag":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -764,8 +761,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None])
             elif self.covariance_type == "spherical":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -783,8 +778,14 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                     self.scale_prior_
                     + term2.mean(axis=1))
                 self.scale_posterior_ = self.scale_posterior_
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_)
+
+        # Provide the covariances at the expected precisions
+        dof = self.dof_posterior_
+        if self.covariance_type == "full":
+            dof = dof[:, None, None]
+        elif self.covariance_type == "diag":
+            dof = dof[:, None]
+        self._covars_ = self.scale_posterior_ / dof
 
     def _compute_lower_bound(self, log_prob):
 
-- 
2.43.0

