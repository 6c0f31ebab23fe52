From 3a5a4e4b89dca6f9c2b78944cda8749821623629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 01/22] fix: correct sign and reflection of half-infinite upper
 limits in integrate_box

integrate_box with a finite lower limit and an infinite upper limit returned
minus the integral from minus infinity to the lower limit.
---
 gpcm/exppoly.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..295e3d3 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -588,9 +588,14 @@ class ExpPoly:
         for name, lower, upper in name_and_lims:
             parts_new = []
             for part in parts:
-                if not is_inf(upper):
-                    upper = _as_poly(upper)  # Ensure that it is a polynomial.
-                    parts_new.append(part.translate_var(name, upper))
+                if is_inf(upper):
+                    # The integral from `lower` to infinity is the integral of the
+                    # function reflected around `lower` from minus infinity to zero.
+                    lower = _as_poly(lower)  # Ensure that it is a polynomial.
+                    parts_new.append(part.substitute(name, lower - var(name)))
+                    continue
+                upper = _as_poly(upper)  # Ensure that it is a polynomial.
+                parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
                     parts_new.append(-part.translate_var(name, lower))
-- 
2.43.0


From 380691f7aca5d6efacab6d97879a826fa83aba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 02/22] fix: discard zero terms in polynomials

Polynomials with terms that cancel compared unequal to the same polynomial
without those terms, and the zero polynomial broke highest_power and
substitute.
---
 gpcm/exppoly.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 295e3d3..8747a70 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -303,7 +303,11 @@ def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_terms.append(reduce(operator.add, associated_terms, 0))
+        merged_term = reduce(operator.add, associated_terms, 0)
+        # Discard terms which are identically zero. Otherwise, polynomials which are
+        # equal might have different terms.
+        if not (isinstance(merged_term.const, B.Number) and merged_term.const == 0):
+            merged_terms.append(merged_term)
     return merged_terms
 
 
@@ -392,7 +396,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
@@ -405,7 +409,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
-- 
2.43.0


From a3b43eeed419d427d681bfb12b9735dd75ab093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 03/22] fix: make the zeroth power of a polynomial a polynomial

Raising a polynomial to the power zero returned an integer, which cannot be
evaluated or substituted into.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 8747a70..3c4c284 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -469,7 +469,7 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
-        return reduce(operator.mul, [self] * power, 1)
+        return reduce(operator.mul, [self] * power, const(1))
 
 
 @_dispatch
-- 
2.43.0


From b7236fa41f41e81da879c14908258c3bd37e910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/22] fix: closest_psd for eigenvalues of equal magnitude and
 opposite sign

The sign of eigenvalues was determined by matching up left and right singular
vectors, which is not possible if singular values are repeated.
---
 gpcm/util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..b9d6964 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -149,11 +149,16 @@ def closest_psd(a, inv=False):
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
     u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
     if inv:
-        s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+        # Like the pseudo-inverse, keep eigenvalues which are numerically zero at zero.
+        tol = B.length(s) * np.finfo(B.dtype(s)).eps * B.max(s)
+        s = B.where(s <= tol, 0, 1 / B.where(s <= tol, 1, s))
+    # Average `a` and its absolute value: this retains the positive eigenvalues and sets
+    # the negative ones to zero. Do not attempt to match up individual singular vectors,
+    # because they are not uniquely determined if eigenvalues have equal magnitude.
+    v_s = v * B.expand_dims(s, axis=-2)
+    res = (B.mm(v_s, u, tr_b=True) + B.mm(v_s, v, tr_b=True)) / 2
+    return (res + B.transpose(res)) / 2
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0


From 074241a38877a89d0bec7376f16bf79cb047f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 05/22] fix: scale PSD estimate by the correct total power

The total power was computed by integrating over unsorted frequencies, which is
wrong, and can even be negative, if there is power near the Nyquist frequency.
---
 gpcm/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index b9d6964..df4d42a 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -108,8 +108,9 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     # Should be real and positive, but the numerics may not be in our favour.
     psd = np.abs(np.real(psd))
 
-    # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # Now scale appropriately: the total power should equal `k[0]`. Note that `freqs` is
+    # not sorted, but that it does form an equally spaced periodic grid.
+    total_power = np.sum(psd) * freqs[1]
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From b2026131d33b6277cb9180d64d6379ca1fd06253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 06/22] fix: make the schemes mean-field-gradient and
 mean-field-ca-gradient fit

ignore_qs did not accept the absence of current approximate posteriors to
ignore, and ca-bfgs was never recognised.
---
 gpcm/approx.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..6579e06 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,15 +89,15 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
-    def ignore_qs(self, previous, current):
+    def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
 
         Args:
             previous (bool): Ignore all previous approximate posteriors.
-            current (bool or str): Current approximate posteriors to ignore. Set to
-                `True` or `False` to ignore all or none or to `z` or `u` to ignore
-                a specific approximate posterior.
+            current (bool or str, optional): Current approximate posteriors to ignore.
+                Set to `True` or `False` to ignore all or none or to `z` or `u` to
+                ignore a specific approximate posterior. Defaults to `False`.
 
         Returns:
             list[str]: Appropriate list of regexes.
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From 7b73d5fb983e1aa7a8309b95c7aca3fc8155f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 07/22] fix: predict_fourier for mean-field approximations

predict_fourier passes num_samples to the approximation, but the mean-field
approximation did not accept it.
---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 6579e06..8daa15b 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Ignored: no samples are necessary. Provided to
+                ensure a consistent interface between all approximations.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From 6b7500f45a66f081a957a3190a5b3907c5226e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 08/22] fix: use stored posterior samples in predict_filter

Under the structured approximation, predict_filter sampled from the parameters
of q(u), which are not fitted, rather than using the Gibbs samples.
---
 gpcm/approx.py |  7 +++++--
 gpcm/model.py  | 11 ++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 8daa15b..a25f414 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -670,9 +670,12 @@ class MeanField(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self.p_u.sample(num_samples)
+        us = self._sample_p_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
-        return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
+        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
+
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
 
     @_dispatch
     def predict_z(self, num_samples: B.Int = 1000):
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..3d061c5 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -172,19 +172,20 @@ class AbstractGPCM(Model):
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
             return state, B.flatten(h)
 
-        # Perform sampling.
+        # Perform sampling. Sample :math:`\hat u` from the approximation, because samples
+        # might have been stored.
+        us = self.approximation._sample_p_u(num_samples)
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From 5d049620d5452f865e853e1798e8c200dcb7ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 09/22] fix: include the scale of the window in the kernel of
 the filter

GPCM.k_h() lacked the factor alpha_t^2 of k_h(t1, t2), so uncertainty in
predict_filter was off by that factor.
---
 gpcm/gpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..2e3a8bf 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -246,7 +246,7 @@ class GPCM(AbstractGPCM):
         """
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
-        k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
+        k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)  # Filter before window
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-- 
2.43.0


From 796a2227ac0ec5cc92bd203d9a2d7bebe37be10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 10/22] fix: normalise the transform in the RGPCM using the
 clipped gamma

gamma_t was computed before gamma was clipped, so the transform did not have
unity power, even though it is documented to.
---
 gpcm/rgpcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..ee03851 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,13 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
+        # Must ensure that `gamma < alpha`.
+        gamma = min(gamma, self.alpha / 1.5)
+
         if gamma_t is None:
             gamma_t = B.sqrt(2 * gamma)
 
-        # Must ensure that `gamma < alpha`.
-        self.gamma = min(gamma, self.alpha / 1.5)
+        self.gamma = gamma
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From 8e613c71bd5ef62b07668ec20ee24c01dded4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 11/22] fix: bound inducing points of the filter correctly
 regardless of sign

If t_u did not contain both negative and positive points, the inducing points
were on or outside their bounds, which gave NaNs.
---
 gpcm/gpcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 2e3a8bf..3d28997 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -276,11 +276,13 @@ class GPCM(AbstractGPCM):
             self.gamma = self.ps.positive(self.gamma, name="gamma")
         self.omega = self.ps.positive(self.omega, name="omega")
         self.omega_t = self.omega_t  # Do not learn variance of inter-domain transform!
-        # Bound the inducing points so they don't move away too far.
+        # Bound the inducing points so they don't move away too far. The inducing points
+        # must lie strictly within the bounds, whatever their signs.
+        t_u_min, t_u_max = min(self.t_u), max(self.t_u)
         self.t_u = self.ps.bounded(
             self.t_u,
-            lower=min(self.t_u) * 1.5,
-            upper=max(self.t_u) * 1.5,
+            lower=t_u_min - max(0.5 * abs(t_u_min), 1e-4),
+            upper=t_u_max + max(0.5 * abs(t_u_max), 1e-4),
             name="t_u",
         )
         self.t_z = self.ps.unbounded(self.t_z, name="t_z")
-- 
2.43.0


From bcebd44225cbb342b4e7a1824f664c2ebd18f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 12/22] fix: integrate_half over two variables with
 array-valued quadratic coefficients

The correlation coefficient was not reshaped along with the other arguments of
the CDF.
---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 3c4c284..fe781bb 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -707,7 +707,7 @@ class ExpPoly:
         num = reduce(operator.mul, orig_shape, 1)
         x1 = B.reshape(x1, num)
         x2 = B.reshape(x2, num)
-        rho = rho * B.ones(x1)
+        rho = B.reshape(rho + B.zeros(B.dtype(rho), *orig_shape), num)
         cdf_part = B.reshape(B.bvn_cdf(x1, x2, rho), *orig_shape)
 
         # Compute exponentiated part.
-- 
2.43.0


From fec66fa86d40a75a60b7bdb9c11691f3b8ec736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 13/22] fix: merge terms whose intermediate sums cancel

Merging three or more terms of the same factors failed if an intermediate sum
was zero; for example, (1 + x + x**2) * (1 - x + x**2).
---
 gpcm/exppoly.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index fe781bb..634ce06 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -303,7 +303,10 @@ def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_term = reduce(operator.add, associated_terms, 0)
+        # Sum the constants rather than the terms: if an intermediate sum is zero, then
+        # that term loses its factors, and the remaining terms cannot be added anymore.
+        merged_const = reduce(operator.add, [x.const for x in associated_terms])
+        merged_term = Term(merged_const, *factors)
         # Discard terms which are identically zero. Otherwise, polynomials which are
         # equal might have different terms.
         if not (isinstance(merged_term.const, B.Number) and merged_term.const == 0):
-- 
2.43.0


From 2d21e3c3eda0c6668f5209d969276a48d6970f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 14/22] fix: coordinate ascent and collapsed bounds of
 conditioned mean-field models use the previous posterior as prior

---
 gpcm/approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index a25f414..9a439ae 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -186,7 +186,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            NaturalNormal(0, self.model.K_u),
             z,
         )
 
@@ -205,7 +205,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u,
             q_z.mean,
             q_z.m2,
         )
@@ -225,7 +225,7 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            NaturalNormal(0, self.model.K_z),
             u,
         )
 
@@ -244,12 +244,12 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z,
             q_u.mean,
             q_u.m2,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, prior, x, x2=None):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,8 +257,8 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
-            K + (A + B.sum(inner, axis=0)) / self.model.noise,
+            prior.lam + B.mm(I_sum, x) / self.model.noise,
+            prior.prec + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
     def _predict_moments(self, ts, u, u2, z, z2):
-- 
2.43.0


From bf1a767118a1df723ce09e0f26ed796809207a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 15/22] fix: evaluate I_ux of the RGPCM stably for times far
 from the origin

---
 gpcm/rgpcm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index ee03851..90145f2 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -320,6 +320,11 @@ def compute_I_ux(model, t1=None, t2=None):
 
     t1 = t1[:, None, None, None]
     t2 = t2[None, :, None, None]
+    # The integral only depends on the difference between `t1` and `t2`. Shift the times to
+    # the origin, because the expression below is unstable for times far away from it.
+    t_min = B.minimum(t1, t2)
+    t1 = t1 - t_min
+    t2 = t2 - t_min
     t_u_1 = model.t_u[None, None, :, None]
     t_u_2 = model.t_u[None, None, None, :]
     ga = model.gamma - model.alpha
-- 
2.43.0


From 6e874bc6326fedc44fa0860d52c5a528352912a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 16/22] fix: do not count the noise twice in plots of
 predictions

---
 experiments/experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index 4859c0d..c122d4d 100644
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -397,7 +397,8 @@ def analyse_plots(
     for i, model in enumerate(models):
         # Construct model and make predictions.
         mu, var = model.predict(t_plot)
-        std = B.sqrt(var)
+        # `var` includes the observation noise.
+        std = B.sqrt(B.maximum(var - model.noise, 0))
 
         plt.subplot(3, 1, 1 + i)
         plt.title(f"Function ({model.name})")
@@ -415,7 +416,7 @@ def analyse_plots(
         plt.fill_between(
             t_plot, mu - 2 * std, mu + 2 * std, facecolor="tab:green", alpha=0.2
         )
-        error = 2 * B.sqrt(model.ps.noise() + std**2)  # Model and noise error
+        error = 2 * B.sqrt(var)  # Model and noise error
         plt.plot(t_plot, mu + error, c="tab:green", ls="--")
         plt.plot(t_plot, mu - error, c="tab:green", ls="--")
 
-- 
2.43.0


From f2d8375e18f8df1a6c974c2f5c0de4a47ab14538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 17/22] fix: use the 16% and 84% quantiles for the central 68%
 interval of summarised samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index df4d42a..39a232c 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From 5dd9d068f962c3c3112e226c14a780f79014743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 18/22] fix: plot the predictions of the EQ experiment over the
 range of the data

---
 experiments/eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/eq.py b/experiments/eq.py
index d741380..ee1066e 100644
--- a/experiments/eq.py
+++ b/experiments/eq.py
@@ -9,7 +9,7 @@ args, wd = setup("eq")
 n = 881  # Add last one for `linspace`.
 noise = 0.1
 t = B.linspace(-44, 44, n)
-t_plot = B.linspace(44, 44, 500)
+t_plot = B.linspace(-44, 44, 500)
 
 # Setup true model and GPCM models.
 kernel = EQ()
-- 
2.43.0


From 268373157bfdc54d4ef9d536d1272bfe247a7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 19/22] fix: do not count one attempt too many in elliptical
 slice sampling

---
 gpcm/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index d9a840a..88410a9 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -94,7 +94,7 @@ class ESS:
         self._draw_proposal(lower, upper)
         if self.log_lik_x_proposed > u:
             # Proposal is accepted.
-            return self.x_proposed, self.log_lik_x_proposed, attempts + 1
+            return self.x_proposed, self.log_lik_x_proposed, attempts
         else:
             # Proposal rejected. Shrink bracket and try again.
             if self.theta > 0:
-- 
2.43.0


From 0b39ef4826d62b343533f44727a98a9179fdf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 20/22] fix: exclude lag zero from the autocorrelation time of
 the ESS chain

---
 gpcm/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index 88410a9..d566a9f 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -128,7 +128,7 @@ class ESS:
                         ess = []
                         chain = B.stack(*[B.flatten(x)[0] for x in samples[m:]], axis=0)
                         corrs = autocorr(chain, window=True, lags=5)
-                        ess.append(len(samples) / (1 + 2 * np.sum(corrs)))
+                        ess.append(len(samples) / (1 + 2 * np.sum(corrs[1:])))
                         ess = np.mean(ess)
                     else:
                         ess = np.nan
-- 
2.43.0


From fb4fe1596873b402b632cec732a2bd241285fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 21/22] fix: transform the predicted kernel of the crude oil
 experiment with the square of the scale

---
 experiments/paper/crude_oil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/paper/crude_oil.py b/experiments/paper/crude_oil.py
index 2846027..d82993d 100644
--- a/experiments/paper/crude_oil.py
+++ b/experiments/paper/crude_oil.py
@@ -105,8 +105,8 @@ if args.predict:
         # Carefully untransform kernel prediction.
         pred_k = (
             pred_k.x,
-            pred_k.mean * normaliser._scale,
-            pred_k.var * normaliser._scale**2,
+            pred_k.mean * normaliser._scale**2,
+            pred_k.var * normaliser._scale**4,
         )
         pred_psd = posterior.predict_psd()
         # Carefully untransform PSD prediction.
-- 
2.43.0


From f24f18756a0e991c8b118fa7d92c792462e77169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 22/22] fix: offset the predicted PSD of the crude oil
 experiment in decibels

---
 experiments/paper/crude_oil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/paper/crude_oil.py b/experiments/paper/crude_oil.py
index d82993d..8f95423 100644
--- a/experiments/paper/crude_oil.py
+++ b/experiments/paper/crude_oil.py
@@ -112,9 +112,9 @@ if args.predict:
         # Carefully untransform PSD prediction.
         pred_psd = (
             pred_psd.x,
-            pred_psd.mean + 20 * B.log(normaliser._scale),
-            pred_psd.err_95_lower + 20 * B.log(normaliser._scale),
-            pred_psd.err_95_upper + 20 * B.log(normaliser._scale),
+            pred_psd.mean + 20 * np.log10(normaliser._scale),
+            pred_psd.err_95_lower + 20 * np.log10(normaliser._scale),
+            pred_psd.err_95_upper + 20 * np.log10(normaliser._scale),
         )
         # Save predictions.
         wd.save(pred_f, model.name.lower(), "pred_f.pickle")
-- 
2.43.0

