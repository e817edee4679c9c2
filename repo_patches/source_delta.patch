From dde88c651dd106319afeaac22c30163ca168f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:26 +0000
Subject: [PATCH 01/33] fix: solve the constrained system in the nullspace
 kriging fallback

The fallback solved a triangular system as if it were symmetric and left
out the coupling term between the two parts of the weights. It also used
the particular coefficients in place of the Lagrange multipliers in the
variance. Weights and variances now agree with the regular route.
---
 gpmp/core/kriging.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gpmp/core/kriging.py b/gpmp/core/kriging.py
index f34b37d..d4ef8ab 100644
--- a/gpmp/core/kriging.py
+++ b/gpmp/core/kriging.py
@@ -232,24 +232,29 @@ def _kriging_predictor_nullspace(model, xi, xt, return_type=0):
     KW = gnp.matmul(K, W)
     G = gnp.matmul(W.T, KW)  # SPD in contrast space
 
-    # Solve alpha = G^{-1} Wᵀ K(Xi,Xt)
-    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit))
     # Solve beta  = Rq^{-T} P(Xt)ᵀ  (enforces unbiasedness constraints)
-    beta = gnp.solve(Rq.T, Pt.T, assume_a="sym")
+    beta = gnp.solve(Rq.T, Pt.T)
+    particular = gnp.matmul(Q1, beta)
+    # Solve alpha = G^{-1} Wᵀ (K(Xi,Xt) - K Q1 beta)
+    alpha, _ = gnp.cholesky_solve(
+        G, gnp.matmul(W.T, Kit - gnp.matmul(K, particular))
+    )
 
-    lambda_t = gnp.matmul(W, alpha) + gnp.matmul(Q1, beta)
+    lambda_t = gnp.matmul(W, alpha) + particular
+    # Lagrange multipliers mu = Rq^{-1} Q1ᵀ (K(Xi,Xt) - K lambda)
+    mu_t = gnp.solve(Rq, gnp.matmul(Q1.T, Kit - gnp.matmul(K, lambda_t)))
 
     if return_type == -1:
         zt_posterior_variance = None
     elif return_type == 0:
         v0 = model.covariance(xt, xt, model.covparam, pairwise=True)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = v0 - gnp.einsum("i..., i...", LM, RHS)
     elif return_type == 1:
         V0 = model.covariance(xt, xt, model.covparam, pairwise=False)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = V0 - gnp.matmul(LM.T, RHS)
     else:
         raise ValueError("return_type must be in {-1,0,1}")
-- 
2.43.0


From 7cd76576349f12256f786ef44faa43d6a504d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:01 +0000
Subject: [PATCH 02/33] fix: keep the Matern kernel finite at very large
 distances

---
 gpmp/kernel/matern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/kernel/matern.py b/gpmp/kernel/matern.py
index 8ce0002..ea9aca9 100644
--- a/gpmp/kernel/matern.py
+++ b/gpmp/kernel/matern.py
@@ -54,6 +54,9 @@ def maternp_kernel(p: int, h):
     gln = gnp.compute_gammaln(p)  # expects integer table access
     h = gnp.inftobigf(h)
     c = 2.0 * sqrt(p + 0.5)
+    # exp(-c h) is zero in double precision well before c h = 1000; larger
+    # distances would only overflow the polynomial (0 * inf = nan).
+    h = gnp.minimum(h, 1000.0 / c)
     twoch = 2.0 * c * h
     polynomial = gnp.ones(h.shape)
     for i in range(p):
-- 
2.43.0


From ee60d75501067ffd40834ce5c951399a065ed8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/33] fix: slice k-fold validation parts by their own bounds

---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..adfa446 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -192,8 +192,8 @@ class Dataset:
                 gnp.full((n_splits - r,), base, dtype=int),
             ]
         )
-        bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        ends = [int(b) for b in gnp.cumsum(sizes, axis=0)]
+        folds = [idx[a:b] for a, b in zip([0] + ends[:-1], ends)]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From 91b86b2ec0eb1bbdc5c6e3eebd2e6eaaca980ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:37 +0000
Subject: [PATCH 04/33] fix: standardise by the population standard deviation
 on both backends

---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index adfa446..061ed21 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -555,7 +555,7 @@ class Normalizer:
 
     @staticmethod
     def fit(x: Array) -> "Normalizer":
-        return Normalizer(x.mean(axis=0, keepdims=True), x.std(axis=0, keepdims=True))
+        return Normalizer(x.mean(axis=0, keepdims=True), gnp.std(x, axis=0, keepdims=True))
 
 
 class RobustScaler:
@@ -627,7 +627,7 @@ class ObservationScaler:
 
     @staticmethod
     def fit(z: Array) -> "ObservationScaler":
-        return ObservationScaler(z.mean(), z.std())
+        return ObservationScaler(z.mean(), gnp.std(z))
 
 
 # ======================================================================
-- 
2.43.0


From a11f79175996877f962637245af2ed1803dc9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:34 +0000
Subject: [PATCH 05/33] fix: penalise large variances in the power-law prior

The extra term beyond the cutoff was added to the log-prior, so variances
above the cutoff were rewarded instead of penalised.
---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From a0d6d3faf4d0a5b59bc3869554fff809f6a246f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:34 +0000
Subject: [PATCH 06/33] fix: make updates of the prior defaults all-or-nothing
 and refuse NaN

A refused update left the values that came before the refused one changed,
and a NaN passed the range tests of gamma, alpha and rho_min_range_factor.
---
 gpmp/kernel/prior_defaults.py | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gpmp/kernel/prior_defaults.py b/gpmp/kernel/prior_defaults.py
index dd0621c..e54e579 100644
--- a/gpmp/kernel/prior_defaults.py
+++ b/gpmp/kernel/prior_defaults.py
@@ -89,26 +89,32 @@ def set_default_prior_hyperparameters(
     """
     if gamma is not None:
         gamma = float(gamma)
-        if gamma <= 1.0:
+        if not (gamma > 1.0):
             raise ValueError("gamma must be > 1.")
-        _PRIOR_DEFAULTS.gamma = gamma
 
     if sigma2_coverage is not None:
         sigma2_coverage = float(sigma2_coverage)
         if not (0.0 < sigma2_coverage < 1.0):
             raise ValueError("sigma2_coverage must be in (0, 1).")
-        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
 
     if alpha is not None:
         alpha = float(alpha)
-        if alpha <= 0.0:
+        if not (alpha > 0.0):
             raise ValueError("alpha must be > 0.")
-        _PRIOR_DEFAULTS.alpha = alpha
 
     if rho_min_range_factor is not None:
         rho_min_range_factor = float(rho_min_range_factor)
-        if rho_min_range_factor <= 0.0:
+        if not (rho_min_range_factor > 0.0):
             raise ValueError("rho_min_range_factor must be > 0.")
+
+    # assign only once every value has been accepted
+    if gamma is not None:
+        _PRIOR_DEFAULTS.gamma = gamma
+    if sigma2_coverage is not None:
+        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
+    if alpha is not None:
+        _PRIOR_DEFAULTS.alpha = alpha
+    if rho_min_range_factor is not None:
         _PRIOR_DEFAULTS.rho_min_range_factor = rho_min_range_factor
 
 
@@ -121,18 +127,12 @@ def set_default_prior_hyperparameters_from_kwargs(kwargs):
     ``prior_logrho_alpha``, ``prior_logrho_min_range_factor``.
     Recognized keys are removed from ``kwargs``.
     """
-    if "prior_logsigma2_gamma" in kwargs:
-        set_default_prior_hyperparameters(gamma=kwargs.pop("prior_logsigma2_gamma"))
-    if "prior_logsigma2_coverage" in kwargs:
-        set_default_prior_hyperparameters(
-            sigma2_coverage=kwargs.pop("prior_logsigma2_coverage")
-        )
-    if "prior_logrho_alpha" in kwargs:
-        set_default_prior_hyperparameters(alpha=kwargs.pop("prior_logrho_alpha"))
-    if "prior_logrho_min_range_factor" in kwargs:
-        set_default_prior_hyperparameters(
-            rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor")
-        )
+    set_default_prior_hyperparameters(
+        gamma=kwargs.pop("prior_logsigma2_gamma", None),
+        sigma2_coverage=kwargs.pop("prior_logsigma2_coverage", None),
+        alpha=kwargs.pop("prior_logrho_alpha", None),
+        rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor", None),
+    )
 
 
 def resolve_prior_defaults_for_selection(
-- 
2.43.0


From 8493c11fac3d15c96b9b0dfbdb5335d7b4b10f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:53 +0000
Subject: [PATCH 07/33] fix: let isnan, isinf and isfinite take Python numbers
 on the torch backend

The range-based bound and the empirical search box test plain floats, which
raised a TypeError on torch for constant columns and single observations.
---
 gpmp/num/torch_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..3fac2be 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -69,9 +69,6 @@ from torch import (
     reshape,
     where,
     any,
-    isnan,
-    isinf,
-    isfinite,
     isclose,
     allclose,
     hstack,
@@ -369,6 +366,9 @@ sin = scalar_safe(torch.sin)
 cos = scalar_safe(torch.cos)
 tan = scalar_safe(torch.tan)
 tanh = scalar_safe(torch.tanh)
+isnan = scalar_safe(torch.isnan)
+isinf = scalar_safe(torch.isinf)
+isfinite = scalar_safe(torch.isfinite)
 
 # ..................................................
 
-- 
2.43.0


From cff90aff4796aa95d3e93654e41d8edba604bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:53 +0000
Subject: [PATCH 08/33] fix: return the best visited point when the final value
 is NaN

A NaN reported by the optimiser compared false with the best value seen, so
the NaN point was returned in place of the best one.
---
 gpmp/kernel/parameter_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..5dbe190 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,7 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if r.fun > best_criterion:
+    if best_params is not None and not (r.fun <= best_criterion):
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 5318181b89a8b16a3398655c1f548e4d8d59a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:40 +0000
Subject: [PATCH 09/33] fix: give a zero gradient where a selection criterion
 failed on torch

A linear-algebra failure was mapped to plus infinity, but asking for the
gradient at that point then raised and stopped the search.
---
 gpmp/num/torch_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 3fac2be..b4f3bb0 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -600,6 +600,9 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value):
+                # failed evaluation: no direction to follow
+                return torch.zeros_like(self._p_value)
             raise RuntimeError("Gradient is None.")
         return gradients
 
-- 
2.43.0


From 0f1009e0f6e722454f2622f1fee6c51ca3b2c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:40 +0000
Subject: [PATCH 10/33] fix: map linear-algebra failures of batched criteria to
 plus infinity on torch

The numpy backend already did so. On torch the failure reached the caller and
a later gradient call returned the one of an earlier point.
---
 gpmp/num/torch_backend.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index b4f3bb0..884aed6 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -607,6 +607,21 @@ class DifferentiableSelectionCriterion:
         return gradients
 
 
+def _linalg_failure_to_inf(evaluate):
+    """Map linear-algebra failures of a batched criterion to +inf, with a zero gradient."""
+
+    def evaluate_(self, param):
+        try:
+            return evaluate(self, param)
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                self._gradient = torch.zeros_like(asarray(param))
+                return inf
+            raise
+
+    return evaluate_
+
+
 class BatchDifferentiableSelectionCriterion:
     """
     Scalar selection criterion evaluated on mini-batches.
@@ -667,6 +682,7 @@ class BatchDifferentiableSelectionCriterion:
                     self._batch_iter = iter(self.loader)
                     yield next(self._batch_iter)
 
+    @_linalg_failure_to_inf
     def evaluate(self, param: TensorLike) -> torch.Tensor:
         total, n = 0.0, 0
         for xb, zb in self._batches():
@@ -680,6 +696,7 @@ class BatchDifferentiableSelectionCriterion:
             total /= n
         return total
 
+    @_linalg_failure_to_inf
     def evaluate_no_grad(self, param: TensorLike) -> _torch_dtype:
         total, n = 0.0, 0
         with torch.no_grad():
@@ -692,6 +709,7 @@ class BatchDifferentiableSelectionCriterion:
             raise ValueError("Loader is empty.")
         return total / n if self.reduction == "mean" else total
 
+    @_linalg_failure_to_inf
     def evaluate_pre_grad(self, param: TensorLike) -> _torch_dtype:
         p = self._prepare_param(param, req_grad=True)
         grad = None  # accumulated gradient
-- 
2.43.0


From 0bd8dbb64ec30756707ef502f27bd7ff1366aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:06 +0000
Subject: [PATCH 11/33] fix: record the log-target at the initial state of each
 chain

The first entry of log_target_values stayed NaN although the first step
evaluates the target there.
---
 gpmp/mcmc/mh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..d8fd3b8 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -432,6 +432,7 @@ class MetropolisHastings:
                     c,
                     log_target_x_current=prev_log_target,
                 )
+                self.log_target_values[c, t - 1] = log_target_prev
                 self.log_target_values[c, t] = log_target_next
             self.global_iter += 1
             if show_global_progress:
-- 
2.43.0


From 9b6328c67a269f9c53d5b5e3ca741c379ae136cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:06 +0000
Subject: [PATCH 12/33] fix: let a single chain run long burn-in periods

The early-stopping test compares chains and raised an error as soon as a
single chain had run twenty adaptation intervals.
---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index d8fd3b8..039bd6b 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -568,7 +568,7 @@ class MetropolisHastings:
             else:
                 raise ValueError("adaptation_method must be 'RM' or 'Haario'.")
             # Early stopping diagnostics: check if we have enough samples and convergence is achieved
-            if diag and self.global_iter >= n_diag_samples:
+            if diag and self.n_chains >= 2 and self.global_iter >= n_diag_samples:
                 rates = self.compute_sliding_rates(self.options.sliding_rate_width)
                 i0 = max(0, self.global_iter - n_diag_samples)
                 i1 = self.global_iter
-- 
2.43.0


From 4fd67870a3ded6239572b141cd2ab24014f9c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:04 +0000
Subject: [PATCH 13/33] fix: add the jitter to the proposal covariance of
 particle moves

The retry after a rejected covariance used a name that is not imported, so
the move failed instead of retrying.
---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..bea1e17 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -397,7 +397,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(self.dim)  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From 6bf19781ce63ec2e66bc1ee4352194e201e265bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:52 +0000
Subject: [PATCH 14/33] fix: take the fill distance as the largest distance
 from a test point to the design

The smallest distance over all test points was returned instead.
---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..8814ebd 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -95,7 +95,7 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
         n = x.shape[0]
     filldist = 0
     for i in range(n):
-        D = cdist(sample, x)
+        D = cdist(sample, x[i : i + 1])
         d = np.min(D)
         if d > filldist:
             filldist = d
-- 
2.43.0


From f8d970d0b5c2b2ec521fc9860bf43210be59732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:52 +0000
Subject: [PATCH 15/33] fix: allow single-point maximin Latin hypercube designs

The separation distance of a single point is undefined and raised an error.
---
 gpmp/misc/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 8814ebd..6d9cadd 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -261,7 +261,7 @@ def maximinlhs(dim, n, box, max_iter=1000):
     maximindist = 0
     for i in range(max_iter):
         sample = sampler.random(n)
-        d = mindist(sample)
+        d = mindist(sample) if n > 1 else np.inf
         if d > maximindist:
             maximindist = d
             sample_maximin = sample
@@ -295,7 +295,7 @@ def maximinldlhs(dim, n, box):
     maximindist = 0
     for i in range(max_iter):
         sample = sampler.random(n)
-        d = mindist(sample)
+        d = mindist(sample) if n > 1 else np.inf
         if d > maximindist:
             maximindist = d
             sample_maximin = sample
-- 
2.43.0


From 66b06655b23e09717a1cdf75e2e6e33947a31295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:19 +0000
Subject: [PATCH 16/33] fix: accept any discrepancy in low discrepancy designs

In high dimension the discrepancy of every draw can exceed the initial value of one million, and no sample was kept.
---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 6d9cadd..e249709 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -223,7 +223,7 @@ def ldrandunif(dim, n, box, max_iter=50):
     -----
     FIXME: optimization method
     """
-    mindiscrepany = 1e6  # large number
+    mindiscrepany = np.inf
     for i in range(max_iter):
         sample = np.random.rand(n, dim)
         d = discrepancy(sample)
-- 
2.43.0


From fb6e1126ebfd921782378433ad421b909f957c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:17 +0000
Subject: [PATCH 17/33] fix: label the rows and columns of table selections the
 right way round

---
 gpmp/misc/dataframe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..71178b2 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -43,18 +43,18 @@ class DataFrame:
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                return DataFrame(self.data[row_key, self.colnames.index(col_key)], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                return DataFrame(self.data[self.rownames.index(row_key), col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                return DataFrame(self.data[self.rownames.index(key), :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                return DataFrame(self.data[:, self.colnames.index(key)], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From 4035b8b88956a9c7ff85345e591c9885e6adec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:17 +0000
Subject: [PATCH 18/33] fix: keep single-row and single-column table selections
 two-dimensional

Their data were one-dimensional, so that the selection could be neither shown, indexed nor extended.
---
 gpmp/misc/dataframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 71178b2..46431a5 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -45,16 +45,16 @@ class DataFrame:
             if isinstance(row_key, slice) and isinstance(col_key, slice):
                 return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], [col_key], self.rownames[row_key])
+                return DataFrame(self.data[row_key, self.colnames.index(col_key)].reshape(-1, 1), [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], self.colnames[col_key], [row_key])
+                return DataFrame(self.data[self.rownames.index(row_key), col_key].reshape(1, -1), self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], self.colnames, [key])
+                return DataFrame(self.data[self.rownames.index(key), :].reshape(1, -1), self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], [key], self.rownames)
+                return DataFrame(self.data[:, self.colnames.index(key)].reshape(-1, 1), [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From bb6e6d7125fd652b2650c52fa093d1f717c07cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 19/33] fix: give each table its own lists of row and column
 names

Appending to a table also appended the name to the tables and lists sharing it.
---
 gpmp/misc/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 46431a5..7f8c08e 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -36,8 +36,8 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
-- 
2.43.0


From 556232b268ae4e79683c7c65dd78ebd3373f7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:00 +0000
Subject: [PATCH 20/33] fix: compute test-set PIT values with the torch backend

The predictions are returned as NumPy arrays and were handed on unconverted.
---
 gpmp/modeldiagnosis/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index b69d7c3..1b339ce 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -143,8 +143,8 @@ def compute_performance(
             zpm, zpv = model.predict(xi, zi_arr, xt)
         else:
             zpm, zpv = zpmzpv
-            zpm = gnp.asarray(zpm)
-            zpv = gnp.asarray(zpv)
+        zpm = gnp.asarray(zpm)
+        zpv = gnp.asarray(zpv)
 
         zpm_vec = _as_1d(zpm)
         n = int(zt_vec.shape[0])
-- 
2.43.0


From ad7f060515f183de89248d1204d935ecfef6ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:10 +0000
Subject: [PATCH 21/33] fix: pair each observation with its own prediction in
 PIT values of column data

Observations given as a column were broadcast against the vector of predictions.
---
 gpmp/modeldiagnosis/performance.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index 1b339ce..ee23bbd 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -129,9 +129,10 @@ def compute_performance(
         out["loo_Q2"] = 1 - press / tss
 
         if compute_pit:
-            zloov_arr = gnp.asarray(zloov)
+            zloom_arr = gnp.asarray(zloom).reshape(zi_arr.shape)
+            zloov_arr = gnp.asarray(zloov).reshape(zi_arr.shape)
             scale = gnp.sqrt(gnp.clip(zloov_arr, 0.0, gnp.inf))
-            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom, scale=scale)
+            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom_arr, scale=scale)
 
     if xtzt is not None:
         xt, zt = xtzt
@@ -167,8 +168,10 @@ def compute_performance(
         out["test_R2"] = 1 - rss / tss
 
         if compute_pit:
-            scale = gnp.sqrt(gnp.clip(zpv, 0.0, gnp.inf))
-            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm, scale=scale)
+            zpm_arr = zpm.reshape(zt_arr.shape)
+            zpv_arr = zpv.reshape(zt_arr.shape)
+            scale = gnp.sqrt(gnp.clip(zpv_arr, 0.0, gnp.inf))
+            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm_arr, scale=scale)
 
     return out
 
-- 
2.43.0


From be57b42a2a464b1830be61a428e40ec640edbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:50 +0000
Subject: [PATCH 22/33] fix: accept initial states given as (dim, n_chains)

The number of chains was taken for the dimension, so that this documented shape was refused or, in dimension one, read as a single state.
---
 gpmp/mcmc/param_posterior.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..0af49ac 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -101,7 +101,14 @@ def _infer_dim(
     info: object,
     param_initial_states,
     box,
+    n_chains: Optional[int] = None,
 ) -> int:
+    if info is not None:
+        x0 = gnp.asarray(info.covparam)
+        if x0.ndim != 1:
+            raise ValueError("info.covparam must be 1D.")
+        return int(x0.shape[0])
+
     if param_initial_states is not None:
         theta = gnp.asarray(param_initial_states)
         if theta.ndim == 0:
@@ -109,15 +116,10 @@ def _infer_dim(
         if theta.ndim == 1:
             return int(theta.shape[0])
         if theta.ndim == 2:
-            return int(theta.shape[1])
+            r, c = int(theta.shape[0]), int(theta.shape[1])
+            return r if c == n_chains and r not in (1, n_chains) else c
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
-    if info is not None:
-        x0 = gnp.asarray(info.covparam)
-        if x0.ndim != 1:
-            raise ValueError("info.covparam must be 1D.")
-        return int(x0.shape[0])
-
     if box is not None:
         lower, _ = box
         if gnp.isscalar(lower):
@@ -416,7 +418,7 @@ def sample_from_selection_criterion_mh(
         require_differentiable=False,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
@@ -595,7 +597,7 @@ def sample_from_selection_criterion_nuts(
         require_differentiable=True,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
-- 
2.43.0


From 804eba1d346def75e7592c0893e14cb00fca1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:50 +0000
Subject: [PATCH 23/33] fix: infer the dimension from boxes with one scalar
 bound

---
 gpmp/mcmc/param_posterior.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 0af49ac..464f16c 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -121,12 +121,14 @@ def _infer_dim(
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
     if box is not None:
-        lower, _ = box
-        if gnp.isscalar(lower):
+        sizes = [
+            len(b) for b in box if hasattr(b, "__len__") and getattr(b, "ndim", 1) > 0
+        ]
+        if not sizes:
             raise ValueError(
                 "Cannot infer dim from scalar box. Provide param_initial_states or info.covparam."
             )
-        return int(len(lower))
+        return max(sizes)
 
     raise ValueError(
         "Cannot infer dim. Provide param_initial_states or info.covparam, or a non-scalar box."
-- 
2.43.0


From ba9d5113754464d6efdf0bc4663ca01b315b9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:50 +0000
Subject: [PATCH 24/33] fix: accept scalar bounds in the initialization box of
 the SMC sampler

---
 gpmp/mcmc/param_posterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 464f16c..b37dd66 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -732,7 +732,9 @@ def sample_from_selection_criterion_smc(
         raise ValueError("init_box must be provided for SMC.")
 
     dim = _infer_dim(info, None, init_box)
-    _, _, _, _ = _normalize_bounds(init_box, dim, box_name="init_box")
+    _, _, lower_init, upper_init = _normalize_bounds(
+        init_box, dim, box_name="init_box"
+    )
 
     lower_b = upper_b = None
     if sampling_box is not None:
@@ -768,7 +770,7 @@ def sample_from_selection_criterion_smc(
         target_logpdf_param=final_temperature,
         compute_next_logpdf_param_method="ess",
         min_ess_ratio=min_ess_ratio,
-        init_box=init_box,
+        init_box=[lower_init, upper_init],
         n_particles=n_particles,
         mh_steps=mh_steps,
         debug=debug,
-- 
2.43.0


From c4bdd82c7a292fc4a91235eb2467e2725767ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:50 +0000
Subject: [PATCH 25/33] fix: give zero density to parameters whose criterion
 fails in the SMC sampler

A failing evaluation, even outside the sampling box, stopped the sampler.
---
 gpmp/mcmc/param_posterior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index b37dd66..74ffb09 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -743,7 +743,11 @@ def sample_from_selection_criterion_smc(
         )
 
     def _criterion_scalar(theta):
-        return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        try:
+            v = f(theta)
+        except Exception:
+            return gnp.inf
+        return gnp.to_scalar(gnp.asarray(v).reshape(()))
 
     def logpdf_temp(x, temperature):
         x = gnp.asarray(x)
-- 
2.43.0


From 0e749a32751c758d6f4455c99339d43b485be2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 26/33] fix: solve transposed triangular systems with the torch
 backend

---
 gpmp/num/torch_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 884aed6..3ba5e21 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -868,18 +868,19 @@ def solve_triangular(
     overwrite_b=False,
     check_finite=False,
 ):
+    upper = not lower
     if trans in (0, "N", "n"):
         Aop = A
     elif trans in (1, "T", "t"):
-        Aop = A.mT
+        Aop, upper = A.mT, not upper
     elif trans in (2, "C", "c"):
-        Aop = A.mH
+        Aop, upper = A.mH, not upper
     else:
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
         B,
-        upper=not lower,
+        upper=upper,
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From cf3fceffa7e89c078806fa2cdded91e2c3b22753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 27/33] fix: divide the torch normal density by the scale

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 3ba5e21..5ad30d5 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -994,7 +994,7 @@ class normal:
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / (scale * sqrt(2 * pi)) * exp(-0.5 * t**2)
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 276ffacaa8243e759ef723ef914ad56eb778186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 28/33] fix: keep the torch normal log-cdf finite in the lower
 tail

---
 gpmp/num/torch_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 5ad30d5..477152c 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -987,8 +987,7 @@ class normal:
     @staticmethod
     def logcdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return log(d.cdf(x))
+        return torch.special.log_ndtr((x - loc) / scale)
 
     @staticmethod
     def pdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 5336add7c18bd065973f5b2ec92476cbe72c7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 29/33] fix: treat vectors as one variable in torch cov with
 rowvar=False

---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 477152c..b2925b9 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -419,13 +419,13 @@ def cov(
     x = asarray(m, dtype=_resolve_torch_dtype(dtype))
     if x.ndim == 1:
         x = x.reshape(1, -1)
-    if not rowvar:
+    elif not rowvar:
         x = x.transpose(0, 1)
     if y is not None:
         y = asarray(y, dtype=_resolve_torch_dtype(dtype))
         if y.ndim == 1:
             y = y.reshape(1, -1)
-        if not rowvar:
+        elif not rowvar:
             y = y.transpose(0, 1)
         x = concatenate((x, y), axis=0)
 
-- 
2.43.0


From 24b12064f6562ee109927721620cad9fd378db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 30/33] fix: convert to 64-bit integers with the torch backend

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index b2925b9..d0d06e3 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -246,7 +246,7 @@ def asdouble(x):
 
 
 def asint(x):
-    return asarray(x).to(torch.int)
+    return asarray(x).to(torch.int64)
 
 
 def to_np(x):
-- 
2.43.0


From f66f3e8babc8acab3fcebde07599618d19b1cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 31/33] fix: reduce over all axes by default in torch min and
 max

---
 gpmp/num/torch_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index d0d06e3..be14baa 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -460,12 +460,18 @@ def norm(x, axis=None, ord=2):
     return torch.norm(x, dim=axis, p=ord)
 
 
-def min(x, axis=0, keepdims=False):
+def min(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.min(x)
+        return m.reshape((1,) * x.ndim) if keepdims else m
     m = torch.min(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
 
-def max(x, axis=0, keepdims=False):
+def max(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.max(x)
+        return m.reshape((1,) * x.ndim) if keepdims else m
     m = torch.max(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
-- 
2.43.0


From 0273e2f9b32177599082642381b813070a1a37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 32/33] fix: use Cartesian indexing by default in torch
 meshgrid

---
 gpmp/num/torch_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index be14baa..ebb17f3 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -89,7 +89,6 @@ from torch import (
     arange,
     linspace,
     logspace,
-    meshgrid,
     floor,
     ceil,
     abs,
@@ -351,6 +350,10 @@ def split(x, indices_or_sections, dim=0):
     return torch.split(x, sizes.tolist(), dim=dim)
 
 
+def meshgrid(*xi, indexing="xy"):
+    return torch.meshgrid(*xi, indexing=indexing)
+
+
 def transpose(x, dim0, dim1):
     """Torch-style transpose: swap two dimensions."""
     return torch.transpose(x, dim0, dim1)
-- 
2.43.0


From 778e58a9f1fabbfed927c44cf3b42af017b6d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:48 +0000
Subject: [PATCH 33/33] fix: compute matrix norms with the torch backend as
 with numpy

---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index ebb17f3..a3a64bc 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -459,8 +459,8 @@ def percentile(
     return torch.quantile(x, q / 100.0, dim=axis, keepdim=keepdims, out=out)
 
 
-def norm(x, axis=None, ord=2):
-    return torch.norm(x, dim=axis, p=ord)
+def norm(x, axis=None, ord=None):
+    return torch.linalg.norm(x, ord=ord, dim=axis)
 
 
 def min(x, axis=None, keepdims=False):
-- 
2.43.0

