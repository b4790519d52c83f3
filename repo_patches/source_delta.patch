From fba74bf3ca4768780866ad44a06420394e37d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 01/94] fix: check tau also when passed by keyword

---
 pyproximal/ProxOperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..cac9f84 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -19,7 +19,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """
 
     def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+        tau = args[2] if len(args) > 2 else kwargs.get("tau")
+        if tau is not None and np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From 8aa02559621d965a01750101c34747fd425265bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 02/94] fix: allow integer scalars in __rmul__ of ProxOperator

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index cac9f84..80c8e37 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -304,7 +304,7 @@ class ProxOperator:
 
     def __rmul__(self, sigma: Union[float, int, "ProxOperator"]) -> "ProxOperator":
         if isinstance(sigma, (int, float)):
-            return self.postcomposition(sigma)
+            return self.postcomposition(float(sigma))
         else:
             return self.chain(sigma)
 
-- 
2.43.0


From e614e6e0d924c970edf87c9a54e1d9dad1e9f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 03/94] fix: do not advance prox counter when tau is rejected

---
 pyproximal/proximal/L0.py        | 6 +++---
 pyproximal/proximal/L1.py        | 2 +-
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/RelaxedMS.py | 2 +-
 pyproximal/proximal/TV.py        | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/L0.py b/pyproximal/proximal/L0.py
index 95668e8..95051e3 100644
--- a/pyproximal/proximal/L0.py
+++ b/pyproximal/proximal/L0.py
@@ -103,8 +103,8 @@ class L0(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         x = _hardthreshold(x, tau * sigma)
@@ -155,8 +155,8 @@ class L0Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         radius = _current_radius(self.radius, self.count)
         self.ball.radius = radius
@@ -217,8 +217,8 @@ class L10Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
         radius = _current_radius(self.radius, self.count)
diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..6dd3bf7 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -134,8 +134,8 @@ class L1(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         if self.g is None:
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fba06a9 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -211,8 +211,8 @@ class L2(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a679a52..a583742 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -93,8 +93,8 @@ class RelaxedMumfordShah(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         kappa = _current_sigma(self.kappa, self.count)
diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..8d3ad75 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -83,8 +83,8 @@ class TV(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
-- 
2.43.0


From 87673963e557827ed44c25013cff1b3e6d5902a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 04/94] fix: do not modify input vector in L2.prox

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index fba06a9..a1051e6 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From b359d859a46bc243e9b7d6f2d2bd005584a9b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/94] fix: switch between the two branches of Huber.prox at
 alpha + tau

---
 pyproximal/proximal/Huber.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..3ffed88 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -36,8 +36,8 @@ class Huber(ProxOperator):
 
         \prox_{\tau H_\alpha(\cdot)}(\mathbf{x}) =
         \begin{cases}
-        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha \\
-        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha
+        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha + \tau \\
+        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha + \tau
         \end{cases}
 
     """
@@ -60,12 +60,11 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
-        # alternative from https://math.stackexchange.com/questions/1650411/
-        # proximal-operator-of-the-huber-loss-function... currently commented
-        # as it does not provide the same result
+        # equivalent to https://math.stackexchange.com/questions/1650411/
+        # proximal-operator-of-the-huber-loss-function
         # y = (1. - tau / np.maximum(np.abs(x), tau + self.alpha)) * x
 
         return y
-- 
2.43.0


From c0b0135c1c46d82d965dbb5538e001986fd33a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 06/94] fix: L1.proxdual with complex input or
 iteration-dependent sigma

---
 pyproximal/proximal/L1.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 6dd3bf7..ed01621 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -147,10 +147,16 @@ class L1(ProxOperator):
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        if not isinstance(self.gdual, np.ndarray):
-            x = self.box(x)
-        else:
+        if isinstance(self.gdual, np.ndarray):
             x = self._proxdual_moreau(x, tau)
+        elif np.iscomplexobj(x):
+            # projection onto the complex ball of radius sigma
+            x = x - _softthreshold(x, _current_sigma(self.sigma, self.count))
+        elif callable(self.sigma):
+            sigma = _current_sigma(self.sigma, self.count)
+            x = BoxProj(-sigma, sigma)(x)
+        else:
+            x = self.box(x)
         return x
 
 
-- 
2.43.0


From f0da984f38124fce4c6138912918b2a518e316a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 07/94] fix: L21 and L21_plus_L1 norms of complex inputs

---
 pyproximal/proximal/L21.py         | 6 +++---
 pyproximal/proximal/L21_plus_L1.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..1277161 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -38,7 +38,7 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
-- 
2.43.0


From d2496dcbbec811263e7b4a7164ad7ffdf7811c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 08/94] fix: L21_plus_L1.prox for groups with zero norm and for
 axis different from 0

---
 pyproximal/proximal/L21_plus_L1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 1277161..9a6947f 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -46,9 +46,9 @@ class L21_plus_L1(ProxOperator):
         thresh = self.sigma * tau
         l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
         # Axis defines what dimension to perform grouping over
-        aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
-        )
+        aux_l21 = np.sqrt(np.sum(l1**2, axis=axis, keepdims=True))
+        # groups with zero norm are set to zero by l1
+        aux_l21[aux_l21 == 0] = 1.0
         l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
         x = np.nan_to_num(x / np.abs(x)) * l1 * l21
         return x
-- 
2.43.0


From 8c29b9a9bea8e5bd9a8799cc8ec2b978d13e650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 09/94] fix: evaluate singular value functionals with the
 singular values of the matrix

---
 pyproximal/proximal/Nuclear.py              | 10 +++++++---
 pyproximal/proximal/QuadraticEnvelope.py    |  5 ++---
 pyproximal/proximal/SingularValuePenalty.py |  5 ++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..3fcade9 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,13 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        S = np.linalg.svd(X, compute_uv=False)
+        sigma = (
+            self.sigma[: S.size]
+            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1
+            else self.sigma
+        )
+        return float(np.sum(sigma * S))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..c825097 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -282,10 +282,9 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
+        S = np.linalg.svd(X, compute_uv=False)
         return float(
-            np.sum(self.penalty(np.sqrt(eigs)))
+            np.sum(self.penalty(S))
             + 0.5 * np.linalg.norm(X - self.M, "fro")
         )
 
diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..6ec0a03 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,9 +47,8 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(self.penalty(np.sqrt(eigs))))
+        S = np.linalg.svd(X, compute_uv=False)
+        return float(np.sum(self.penalty(S)))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From e14d406aafcf79825086e401b76782ae155c91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 10/94] fix: L1BallProj leaves vectors inside the ball
 unchanged

---
 pyproximal/projection/L1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..3841a20 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -49,6 +49,9 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        # vectors inside the ball are already feasible
+        if np.sum(np.abs(x)) <= self.radius:
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From 6cbd6416c5ba994fe9ed014087e1dc5512248f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 11/94] fix: L0BallProj and L10BallProj with zero radius

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..d1c2c5b 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
 
-- 
2.43.0


From 3888cd3f2c497d5038ffaf952c92acdb81044c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 12/94] fix: IntersectionProj does not modify its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 7374a5eb5500be2bb2a410ae1e51368794fe2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 13/94] fix: QuadraticEnvelopeCard.prox with tau larger than
 one

---
 pyproximal/proximal/QuadraticEnvelope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index c825097..24243a4 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -87,7 +87,8 @@ class QuadraticEnvelopeCard(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         r = np.abs(x)
-        idx = r < np.sqrt(2 * self.mu)
+        # for tau > 1, hard thresholding at sqrt(2 * mu * tau)
+        idx = r < np.sqrt(2 * self.mu * max(tau, 1.0))
         if tau >= 1:
             r[idx] = 0
         else:
-- 
2.43.0


From f1d4087e7f075022b5975d95457e14e4c28d93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 14/94] fix: QuadraticEnvelopeCardIndicator.prox with tau
 larger or equal to one

---
 pyproximal/proximal/QuadraticEnvelope.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 24243a4..a5e390f 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,7 +1,7 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
+from pyproximal.projection import L0BallProj
 from pyproximal.ProxOperator import ProxOperator, _check_tau
 
 
@@ -190,7 +190,8 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
         if rho <= 1:
-            return _hardthreshold(y, tau)
+            # keep the r0 largest entries
+            return L0BallProj(self.r0)(y)
         if y.size <= self.r0:
             return y
 
-- 
2.43.0


From 52e01261179ecde06372cc5e528ee72e8fe7a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 15/94] fix: TV with dims=None

---
 pyproximal/proximal/TV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 8d3ad75..ba501ad 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, True)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
-- 
2.43.0


From a4239df68e2c4f582e52b47f0787d6ad300a9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 16/94] fix: Quadratic.grad returns a new vector

---
 pyproximal/proximal/Quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..4ab8f7f 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -133,7 +133,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
             g = 0.0
         return g
-- 
2.43.0


From 88946785fccbc3e4ab3c9b039f00f4e5ecf89961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 17/94] fix: Orthogonal.__call__ does not modify its input

---
 pyproximal/proximal/Orthogonal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..d770612 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -76,8 +76,7 @@ class Orthogonal(ProxOperator):
         self.b = b if b is not None else 0.0
 
     def __call__(self, x: NDArray) -> bool | float | int:
-        y = self.Q.matvec(x)
-        y += self.b
+        y = self.Q.matvec(x) + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From 9cd10b4e76a01c3286f0bc7c85b752219f55ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 18/94] fix: parallel_dykstra_prox does not modify the provided
 weights

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From d734f41977042b5f84cd46dad4a4d59d55997e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 19/94] fix: QuadraticEnvelopeCardIndicator evaluation with
 r0=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a5e390f..0d51aa2 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -175,9 +175,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
         tmp = np.diff(sums) > 0
-        k_star = int(np.argmax(tmp))
-        if k_star == 0 and not tmp[k_star]:
-            k_star = self.r0 - 1
+        k_star = int(np.argmax(tmp)) if np.any(tmp) else self.r0 - 1
         return float(
             0.5
             * (
-- 
2.43.0


From cb0f075a7a8badaaaa5ded69f2ecef41df502e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 20/94] fix: Simplex with axis=-2

---
 pyproximal/proximal/Simplex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 6a5a3ee..075b5b2 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -39,6 +39,8 @@ class _Simplex(ProxOperator):
         if dims is not None and len(dims) != 2:
             msg = "provide only 2 dimensions, or None"
             raise ValueError(msg)
+        if dims is not None and axis < 0:
+            axis = axis + len(dims)
         self.n = n
         self.radius = radius
         self.dims = dims
-- 
2.43.0


From af27ebeecfc46b00fd8326a3d31e0ef239f01a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 21/94] fix: do not stop Dykstra in IntersectionProj whilst its
 corrections are changing

---
 pyproximal/projection/Intersection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..ecfd186 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -56,6 +56,7 @@ class IntersectionProj:
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
+            x12old = x12.copy()
             for i1 in range(self.k - 1):
                 for i2 in range(i1 + 1, self.k):
                     xtilde = x[i2] - x[i1] + x12[i1, i2]
@@ -68,6 +69,10 @@ class IntersectionProj:
                     x[i1] = x[i1] + 0.5 * (xdtilde - x12[i1, i2])
                     x[i2] = x[i2] - 0.5 * (xdtilde - x12[i1, i2])
                     x12[i1, i2] = xdtilde
-            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:
+            # x may temporarily stall whilst the correction terms are still changing
+            if (
+                max(np.sum(np.abs(x - xold), axis=0)) < self.tol
+                and np.max(np.abs(x12 - x12old)) < self.tol
+            ):
                 break
         return x.ravel()
-- 
2.43.0


From 8d5aaf7dea6e591e97d350f8755f3ef29dbe224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 22/94] fix: warm start of lsqr with zero right-hand side in L2
 and Quadratic

---
 pyproximal/proximal/L2.py        | 5 ++++-
 pyproximal/proximal/Quadratic.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index a1051e6..37ae123 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -251,8 +251,11 @@ class L2(ProxOperator):
                 ) * (self.Op.H * self.Op)
                 if self.solver == "legacy":
                     if get_module_name(get_array_module(x)) == "numpy":
+                        # lsqr stops immediately when warm started with a zero
+                        # right-hand side
+                        x0 = self.x0 if np.any(y) else None
                         x = sp_lsqr(
-                            Op1, y, iter_lim=niter, x0=self.x0, **self.kwargs_solver
+                            Op1, y, iter_lim=niter, x0=x0, **self.kwargs_solver
                         )[0]
                     else:
                         x = lsqr(Op1, y, niter=niter, x0=self.x0, **self.kwargs_solver)[
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 4ab8f7f..c754458 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -109,7 +109,9 @@ class Quadratic(ProxOperator):
                 x = Op1.div(y)
             else:
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
-                x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
+                # lsqr stops immediately when warm started with a zero right-hand side
+                x0 = self.x0 if np.any(y) else None
+                x = lsqr(Op1, y, iter_lim=self.niter, x0=x0)[0]
             if self.warm:
                 self.x0 = x
         elif self.b is not None:
-- 
2.43.0


From ca7c6f4e034490d9fac8dc6cec6d396dc147c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 23/94] fix: QuadraticEnvelopeRankL2.prox index error at the
 last breakpoint

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 0d51aa2..6a02a46 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -320,7 +320,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
             s = b / a
 
-            if p[k] <= s <= p[k + 1]:
+            if p[k] <= s and (k + 1 == n or s <= p[k + 1]):
                 zk = np.maximum(s, yk)
                 zk[self.r0 :] = np.minimum(s, (1 + rho) * yk[self.r0 :])
                 break
-- 
2.43.0


From fd7b93052257fe88eefdf2966967137906157250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 24/94] fix: do not stop parallel_dykstra_prox whilst the
 proximal points disagree

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 683b030..1a8d8dd 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -112,7 +112,7 @@ def parallel_dykstra_prox(
         x = ncp.sum(w[:, None] * prox_z, axis=0)
         z = z + x - prox_z
 
-        if ncp.abs(x - x_old).max() < tol:
+        if max(ncp.abs(x - x_old).max(), ncp.abs(x - prox_z).max()) < tol:
             break
 
     return x
-- 
2.43.0


From bfab756fd32de20623b28fe06d74811bdc00d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 25/94] fix: gradtest_proximal does not perturb the imaginary
 part of real vectors

---
 pyproximal/utils/gradtest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..4a1b2a6 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -94,6 +94,8 @@ def gradtest_proximal(
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
     r_or_i = np.random.randint(0, 2)
+    if not ncp.iscomplexobj(x):
+        r_or_i = 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
-- 
2.43.0


From 64c3a171c467867973e37226427d0fd0901723f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 26/94] fix: gradient tests do not modify the vectors they are
 given

---
 pyproximal/utils/gradtest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 4a1b2a6..d526046 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -102,6 +102,7 @@ def gradtest_proximal(
         delta1 = delta * 1j
 
     # extract gradient value to test
+    x = x.copy()
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -204,7 +205,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.flatten(), Op.y.flatten()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 375b2b24eebc3008ace31d08bf052dd2dbedc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 27/94] fix: account for rtol in gradient tests

---
 pyproximal/utils/gradtest.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index d526046..1bf5669 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -111,8 +111,8 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_part = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_part, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -239,10 +239,8 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
-    )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_part = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_part, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From aaae624564656013c06d053615cd1b5888274b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 28/94] fix: Log1.prox of complex vectors

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From 18b8ba1ddbdea8075a985462e05c0f6382c69d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 29/94] fix: TV.prox with singleton dimensions

---
 pyproximal/proximal/TV.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index ba501ad..ca34143 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -184,9 +184,10 @@ class TV(ProxOperator):
 
         iter = 0
         while iter <= niter:
-            # Current Solution
-            if self.ndim >= 1:
-                div = np.concatenate(
+            # Current Solution (axes with a single sample have no gradient)
+            div = np.zeros_like(rr)
+            if self.ndim >= 1 and x.shape[0] > 1:
+                div += np.concatenate(
                     (
                         np.expand_dims(
                             rr[0,],
@@ -200,7 +201,7 @@ class TV(ProxOperator):
                     ),
                     axis=0,
                 )
-            if self.ndim >= 2:
+            if self.ndim >= 2 and x.shape[1] > 1:
                 div += np.concatenate(
                     (
                         np.expand_dims(
@@ -228,7 +229,7 @@ class TV(ProxOperator):
                     ),
                     axis=1,
                 )
-            if self.ndim >= 3:
+            if self.ndim >= 3 and x.shape[2] > 1:
                 div += np.concatenate(
                     (
                         np.expand_dims(
@@ -260,7 +261,7 @@ class TV(ProxOperator):
                     ),
                     axis=2,
                 )
-            if self.ndim >= 4:
+            if self.ndim >= 4 and x.shape[3] > 1:
                 div += np.concatenate(
                     (
                         np.expand_dims(
-- 
2.43.0


From 31a3e61c914fc3f777ec56d152b6be6279a6e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 30/94] fix: ProximalPoint with tol failing when the objective
 reaches zero

---
 pyproximal/optimization/primal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..fc76097 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -184,8 +184,9 @@ def ProximalPoint(
         # objective does not decrease below tolerance
         if tol is not None:
             pfold = pf
-            pf = prox(x)
-            if np.abs(1.0 - pf / pfold) < tol:
+            pf = float(prox(x))
+            # avoid division by pfold, as the objective may reach zero
+            if np.abs(pf - pfold) < tol * max(np.abs(pfold), np.finfo(float).tiny):
                 tolbreak = True
 
         # show iteration logger
-- 
2.43.0


From e5724d343a8581d098486c96dd24ad10762fad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 31/94] fix: relaxation in ProximalGradient with acceleration
 or backtracking

---
 pyproximal/optimization/primal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fc76097..8813b63 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -380,17 +380,15 @@ def ProximalGradient(
             if eta == 1.0:
                 x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
             else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
+                x = y + eta * (
+                    proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau) - y
                 )
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
             if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+                x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From f972d1d648c5fd7e922e18158b203bc2163ec6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 32/94] fix: sufficient decrease condition of ProximalGradient
 for complex vectors

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 8813b63..8b61e72 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 113081f1a2ea61be2027a81d7abe73ab70da1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 33/94] fix: initial history of AndersonProximalGradient

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 8b61e72..2f1e5f0 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -627,10 +627,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
-- 
2.43.0


From 78b7a1cf1e660f80c5ebc72609168a9357cf2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 34/94] fix: regularization in AndersonProximalGradient

---
 pyproximal/optimization/primal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2f1e5f0..d901375 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -652,7 +652,10 @@ def AndersonProximalGradient(
 
         # solve for alpha coefficients
         Rstack = np.vstack(R)
-        Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
+        Rinv = np.linalg.pinv(
+            Rstack @ Rstack.T
+            + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
+        )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
         alpha = Rinvones / (ones[None] @ Rinvones)
-- 
2.43.0


From ece469c41c3d868752baf1516852061b1e9cef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 35/94] fix: safeguard of AndersonProximalGradient compares
 with the current iterate

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d901375..01d2531 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -682,6 +682,7 @@ def AndersonProximalGradient(
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From 96bb1de466fa6213c3ff4099dcb4277f88057963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 36/94] fix: rounding in the check of the weights of
 GeneralizedProximalGradient

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 01d2531..6d4333b 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -810,7 +810,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From 9a3533f67de60b8b2e3761a52e465d899d3f0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 37/94] fix: GeneralizedProximalGradient with integer x0

---
 pyproximal/optimization/primal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 6d4333b..ae2667e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -858,17 +858,17 @@ def GeneralizedProximalGradient(
         xold = x.copy()
 
         # gradient
-        grad = np.zeros_like(x)
+        grad = 0.0
         for _, proxf in enumerate(proxfs):
-            grad += proxf.grad(x)
+            grad = grad + proxf.grad(x)
 
         # proximal step
-        x = np.zeros_like(x)
+        x = 0.0
         for i, proxg in enumerate(proxgs):
             ztmp = 2 * y - zs[i] - tau * grad
             ztmp = proxg.prox(ztmp, tau * epsg[i] / weights[i])
-            zs[i] += eta * (ztmp - y)
-            x += weights[i] * zs[i]
+            zs[i] = zs[i] + eta * (ztmp - y)
+            x = x + weights[i] * zs[i]
 
         # update y
         if acceleration == "vandenberghe":
-- 
2.43.0


From e941a81526ec0936aa5dcdcefd296e96978f1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 38/94] fix: GeneralizedProximalGradient uses eta only without
 acceleration

---
 pyproximal/optimization/primal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index ae2667e..51c68cb 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -847,6 +847,10 @@ def GeneralizedProximalGradient(
     if tau is None:
         tau = 1.0
 
+    # relaxation is used only without acceleration
+    if acceleration in ["vandenberghe", "fista"]:
+        eta = 1.0
+
     # initialize model
     t = 1.0
     x = x0.copy()
-- 
2.43.0


From a501f85da498102e0c0c7a9ee76690406a583960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 39/94] fix: iteration log of proximal gradient solvers with
 vector tau

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 51c68cb..972fa5a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -436,7 +436,7 @@ def ProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
@@ -713,7 +713,7 @@ def AndersonProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
-- 
2.43.0


From eab6ad3b752a9347495d58a3b6847935a1cd6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 40/94] fix: dual update of ADMML2 with gfirst=True

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 972fa5a..6a1c67a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1345,6 +1345,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From d46cd2d98475a328841d868234de7a175857ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 41/94] fix: LinearizedADMM with z0

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 6a1c67a..42fc3ad 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1477,7 +1477,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From 945a130901df31da1a12dfdb19e73684fbb14f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 42/94] fix: automatic choice of alpha and beta in TwIST

---
 pyproximal/optimization/primal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 42fc3ad..d45c8a3 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1623,14 +1623,16 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H * A
+            emin = AHA.eigs(neigs=1, symmetric=True, which="SM")[0]
+            emax = AHA.eigs(neigs=1, symmetric=True, which="LM")[0]
         else:
             emax, emin = eigs
+        emin, emax = max(0.0, float(emin)), max(1.0, float(emax))
         k = emin / emax
         rho = (1 - sqrt(k)) / (1 + sqrt(k))
-        alpha = 1 + rho**2
-        beta = 2 * alpha / (emax + emin)
+        alpha = 1 + rho**2 if alpha is None else alpha
+        beta = 2 * alpha / (emax + emin) if beta is None else beta
 
     # compute proximal of g on initial guess (x_1)
     xold = x0.copy()
-- 
2.43.0


From 212a79cd5d952845f242198f4f9692fa29938d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 43/94] fix: initial vector of PPXA with weights and multiple
 starting vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d45c8a3..3a9a549 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1952,7 +1952,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From df1c158f609064e8bdd140c5c6f7f4e353bc1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 44/94] fix: PPXA and ConsensusADMM with tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 3a9a549..9b5c660 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1973,7 +1973,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2107,7 +2107,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 0c7ea08e4ed07133f3c55bdea643336ca4cf1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 45/94] fix: PrimalDual does not modify the dual variable when
 adding z

---
 pyproximal/optimization/primaldual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..7d113a3 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
-- 
2.43.0


From e63509a1c9a6d70044eab7dba73a333d3f3b0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 46/94] fix: AdaptivePrimalDual with additional vector z

---
 pyproximal/optimization/primaldual.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 7d113a3..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 7e37cc9f2332ffa22c55098dcbf73bbedc8ec497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 47/94] fix: AdaptivePrimalDual with non-zero starting vector

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From db3ee6d4ab1ed0b14c32f596ed7f611c7724cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 48/94] fix: AdaptivePrimalDual stops only when both residuals
 are below tol

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f48ccf8..c17f474 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -351,7 +351,7 @@ def AdaptivePrimalDual(
     p = d = tol + 1.0
 
     iiter = 0
-    while iiter < niter and p > tol and d > tol:
+    while iiter < niter and (p > tol or d > tol):
         # store old values
         xold = x.copy()
         yold = y.copy()
-- 
2.43.0


From 473fa55a7c96e758cf69630ab71ed8e0d36b50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 49/94] fix: use proxg in the y backtracking of PALM

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..5dcf38c 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 80ae429b7e97afa1947c5f9218ab3f30d1c828d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 50/94] fix: use proxg and the inertial point in the y
 backtracking of iPALM

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 5dcf38c..b3ce975 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From d815bcb041a173c6ad30a8830bf6b3e5748ba6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 51/94] fix: iPALM with backtracking only for the y update

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index b3ce975..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
-- 
2.43.0


From 8a5ec7f0a1046426ab09ea4017718205071e8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 52/94] fix: first x step of PALM and iPALM uses y0

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..17d76ea 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -166,6 +166,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    # ensure that the first x step uses y0
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -345,6 +347,8 @@ def iPALM(
 
     x, y = x0.copy(), y0.copy()
     xold, yold = x0.copy(), y0.copy()
+    # ensure that the first x step uses y0
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         z = x + a[0] * (x - xold)
-- 
2.43.0


From 50f82df428e0e9eef309318af5a8d668b8875f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 53/94] fix: sufficient decrease condition of PALM and iPALM
 for complex vectors

---
 pyproximal/optimization/palm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 17d76ea..bba6c13 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 332b2b83eba1f0c4efd7486e70a1dc1a49ed54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 54/94] fix: ProximalGradient evaluates the gradient of
 bilinear operators at the current point

---
 pyproximal/optimization/primal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 9b5c660..7f24fec 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -373,6 +373,10 @@ def ProximalGradient(
     pfg = np.inf
     tolbreak = False
 
+    # set internal parameters for bilinear operator
+    if isinstance(proxf, BilinearOperator):
+        proxf.updatexy(y)
+
     # iterate
     for iiter in range(niter):
         xold = x.copy()
@@ -392,10 +396,6 @@ def ProximalGradient(
             if eta != 1.0:
                 x = y + eta * (x - y)
 
-        # update internal parameters for bilinear operator
-        if isinstance(proxf, BilinearOperator):
-            proxf.updatexy(x)
-
         # update y
         if acceleration == "vandenberghe":
             omega = iiter / (iiter + 3)
@@ -407,6 +407,10 @@ def ProximalGradient(
             omega = 0
         y = x + omega * (x - xold)
 
+        # update internal parameters for bilinear operator
+        if isinstance(proxf, BilinearOperator):
+            proxf.updatexy(y)
+
         # run callback
         if callback is not None:
             callback(x)
-- 
2.43.0


From 6c1560c55a7e0b83a6c6a1b36cc543d72ed5f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 55/94] fix: breakdown of the inner LSQR of SR3 once the exact
 solution is found

---
 pyproximal/optimization/sr3.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..453d6a4 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -61,9 +61,15 @@ def _lsqr(
     data -= Op.matvec(x0)
     x = x0
     beta = np.linalg.norm(data)
+    if beta == 0.0:
+        # x0 is an exact solution
+        return x
     u = data / beta
     v = Op.rmatvec(u)
     alpha = np.linalg.norm(v)
+    if alpha == 0.0:
+        # x0 is a least-squares solution
+        return x
     v = v / alpha
     w = v
     phi_bar = beta
@@ -71,10 +77,14 @@ def _lsqr(
     for _ in range(iter_lim):
         u = Op.matvec(v) - alpha * u
         beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
+        if beta > 0.0:
+            u = u / beta
+            v = Op.rmatvec(u) - beta * v
+            alpha = np.linalg.norm(v)
+            if alpha > 0.0:
+                v = v / alpha
+        else:
+            alpha = 0.0
         rho = np.sqrt(rho_bar**2 + beta**2)
         c = rho_bar / rho
         s = beta / rho
@@ -82,7 +92,10 @@ def _lsqr(
         rho_bar = -c * alpha
         phi = c * phi_bar
         phi_bar = s * phi_bar
-        x += (phi / rho) * w
+        x = x + (phi / rho) * w
+        if alpha == 0.0:
+            # solution found, the bidiagonalization cannot be continued
+            return x
         temp = Reg.matvec(x)
         z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
         if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-- 
2.43.0


From 38fba6c77b7ab44f38f84e7067f78de6c938abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 56/94] fix: integer overflow in the misfit term of Segment

---
 pyproximal/optimization/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5063220..0351675 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -95,7 +95,7 @@ def Segment(
     ncl = len(cl)
 
     # Data (difference between image and center of classes)
-    g = sigma / 2.0 * (y.reshape(1, dimsprod) - cl[:, np.newaxis]) ** 2
+    g = sigma / 2.0 * (1.0 * y.reshape(1, dimsprod) - cl[:, np.newaxis]) ** 2
     if clsigmas is not None:
         g /= clsigmas[:, np.newaxis]
     g = g.ravel()
-- 
2.43.0


From c8fb51bd0fa0ce06de7c16c1a0241e6ecc274308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 57/94] fix: step sizes of Segment for images with more than
 two dimensions

---
 pyproximal/optimization/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 0351675..4357ccb 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -116,7 +116,7 @@ def Segment(
     )
 
     # Steps
-    L = 8.0 / sampling**2
+    L = 4.0 * ndims / sampling**2
     tau = 1.0
     mu = 1.0 / (tau * L)
 
-- 
2.43.0


From cc465dc875b97daf1090d1c68e6a0ca7bb02017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 58/94] fix: AndersonProximalGradient with zero residuals

---
 pyproximal/optimization/primal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 7f24fec..7acfcc3 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -662,7 +662,13 @@ def AndersonProximalGradient(
         )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-        alpha = Rinvones / (ones[None] @ Rinvones)
+        Rinvsum = np.sum(Rinvones)
+        if Rinvsum != 0.0:
+            alpha = Rinvones / Rinvsum
+        else:
+            # all residuals are zero, the current fix point is a solution
+            alpha = np.zeros_like(ones)
+            alpha[0] = 1.0
 
         if not safeguard:
             # update auxiliary variable
-- 
2.43.0


From 9e04b1484ac326b2ebc17eba489eb3837c455a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 59/94] fix: warm start of lsqr with zero right-hand side in
 ADMML2

---
 pyproximal/optimization/primal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 7acfcc3..770e9ef 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1332,7 +1332,8 @@ def ADMML2(
         head = "   Itn       x[0]          f           g       J = f + g"
         print(head)
 
-    # run iterations
+    # run iterations (the previous x is not used as initial guess of the augmented
+    # system when its data is zero, as lsqr stops prematurely in that case)
     sqrttau = 1.0 / sqrt(tau)
     for iiter in range(niter):
         if gfirst:
@@ -1346,7 +1347,7 @@ def ADMML2(
                 [
                     A,
                 ],
-                x0=x,
+                x0=x if np.any(b) or np.any(z - u) else None,
                 dataregs=[
                     z - u,
                 ],
@@ -1364,7 +1365,7 @@ def ADMML2(
                 [
                     A,
                 ],
-                x0=x,
+                x0=x if np.any(b) or np.any(z - u) else None,
                 dataregs=[
                     z - u,
                 ],
-- 
2.43.0


From 4411f75a9e1dee0c44ee218a57c936170ae64cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 60/94] fix: warm start of lsqr with zero right-hand side in
 SR3

---
 pyproximal/optimization/sr3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 453d6a4..52f4934 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -199,11 +199,12 @@ def SR3(
                 Reg,
             )
         else:
+            # lsqr stops prematurely when warm started with a zero right-hand side
             x = sp_lsqr(
                 AL,
                 np.concatenate((data, np.sqrt(kappa) * v)),
                 iter_lim=iter_lim_inner,
-                x0=x,
+                x0=x if np.any(data) or np.any(v) else None,
             )[0]
         # Compute the outer iteration
         w_old = w
-- 
2.43.0


From ef715f107f7aa4eaf0f22b0ca535315c2e974735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 61/94] fix: truncation of integer vectors in Huber

---
 pyproximal/proximal/Huber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 3ffed88..467b561 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -49,7 +49,7 @@ class Huber(ProxOperator):
         self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x)
+        h = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         xabs = np.abs(x)
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
@@ -58,7 +58,7 @@ class Huber(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        y = np.zeros_like(x)
+        y = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         xabs = np.abs(x)
         mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
-- 
2.43.0


From 04119ac5e9b3916eba38f9f28ee0d4c7799dc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 62/94] fix: truncation of integer vectors in SCAD

---
 pyproximal/proximal/SCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 9e7ef77..147dda0 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,7 +64,7 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x)
+        f = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         absx = np.abs(x)
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
@@ -78,7 +78,7 @@ class SCAD(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        theta = x.copy()
+        theta = x.astype(np.result_type(x.dtype, np.float32))
         absx = np.abs(x)
         first_threshold = self.sigma * (self.a - 1 - tau + tau * self.a) / (self.a - 1)
         ind = absx <= first_threshold
-- 
2.43.0


From 0ff12a006451d7b7a1a81d38a59e1daceec95aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 63/94] fix: truncation of integer vectors in Log and Log1

---
 pyproximal/proximal/Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 8b4a3c4..8a72181 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -90,7 +90,7 @@ class Log(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / np.log(self.gamma + 1)
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         b = self.gamma * np.abs(x) - 1
         discriminant = b**2 - 4 * self.gamma * (k * self.gamma - np.abs(x))
         idx = discriminant >= 0
@@ -163,7 +163,7 @@ class Log1(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         tau1 = self.sigma * tau
         thresh = np.sqrt(2 * tau1) - self.delta
-        x1 = np.zeros_like(x, dtype=x.dtype)
+        x1 = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         if np.iscomplexobj(x):
             x1[np.abs(x) > thresh] = (
                 0.5
-- 
2.43.0


From bed01b92ce9d7639d769412b4e8f975ca546ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 64/94] fix: truncation of integer vectors in Geman

---
 pyproximal/proximal/Geman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..cf166c1 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -64,7 +64,7 @@ class Geman(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         b = 2 * self.gamma - np.abs(x)
         c = self.gamma**2 - 2 * self.gamma * np.abs(x)
         d = self.gamma * self.sigma * tau - self.gamma**2 * np.abs(x)
-- 
2.43.0


From c95f42775c0cec4f9b77cd71c1780920be00d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 65/94] fix: truncation of integer vectors in ETP

---
 pyproximal/proximal/ETP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 8643114..586bc85 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -72,7 +72,7 @@ class ETP(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / (1 - np.exp(-self.gamma))
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
 
         # Get real-valued solutions to the Lambert W function
         tmp = np.exp(-np.abs(x) * self.gamma) * k * self.gamma**2
-- 
2.43.0


From 9aa2eb626414f8f11febaa0a516bf6b2fcd7eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 66/94] fix: truncation of integer vectors in Simplex with dims

---
 pyproximal/proximal/Simplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 075b5b2..04df2ca 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -83,7 +83,7 @@ class _Simplex(ProxOperator):
             x = x.reshape(self.dims)
             if self.axis == 0:
                 x = x.T
-            y = np.zeros_like(x)
+            y = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
             for i in range(self.dims[self.otheraxis]):
                 y[i] = self.simplex(x[i])
             if self.axis == 0:
-- 
2.43.0


From 50bb290b47b76d77b7426825aafc448244ab027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 67/94] fix: truncation of integer vectors in VStack with restr

---
 pyproximal/proximal/VStack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/VStack.py b/pyproximal/proximal/VStack.py
index 8c3cc6a..bcae622 100644
--- a/pyproximal/proximal/VStack.py
+++ b/pyproximal/proximal/VStack.py
@@ -103,7 +103,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.prox(restr.matvec(x), tau)
         return f
@@ -122,7 +122,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.grad(restr.matvec(x))
         return f
-- 
2.43.0


From 67b8482ddace38b9f83908963ff2ab6ac0fe9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 68/94] fix: truncation of integer vectors in IntersectionProj

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index ecfd186..b5dc1af 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n).copy()
+        x = x.reshape(self.k, self.n).astype(np.result_type(x.dtype, np.float32))
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 58d0d3d8e26b41db2a4f1bc08eff9587111a2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 69/94] fix: truncation of integer vectors in
 QuadraticEnvelopeCard

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 6a02a46..172c4fc 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -86,7 +86,7 @@ class QuadraticEnvelopeCard(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        r = np.abs(x)
+        r = np.abs(x.astype(np.result_type(x.dtype, np.float32)))
         # for tau > 1, hard thresholding at sqrt(2 * mu * tau)
         idx = r < np.sqrt(2 * self.mu * max(tau, 1.0))
         if tau >= 1:
-- 
2.43.0


From 824522be478d95f5ea5a223a0f3846cc9d325989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 70/94] fix: TV.prox failed for integer vectors

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index ca34143..06101f5 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -97,7 +97,7 @@ class TV(ProxOperator):
         # TODO implement test_gamma
 
         # Initialization
-        x = x.reshape(self.dims)
+        x = x.reshape(self.dims).astype(np.result_type(x.dtype, np.float32), copy=False)
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-- 
2.43.0


From 71b1b39cf473b582c380104fff0a68e3a607cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 71/94] fix: truncation of integer vectors in the parallel
 Dykstra projection

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 1a8d8dd..56d630a 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -69,7 +69,7 @@ def parallel_dykstra_projection(
     r"""Compute Dykstra's projection algorithm for :math:`m \ge 2`."""
     ncp = get_array_module(x0)
 
-    u = x0.copy()
+    u = x0.astype(ncp.result_type(x0.dtype, ncp.float32))
     m = len(proj_ops)
     z = [ncp.zeros_like(u) for _ in range(m)]
 
-- 
2.43.0


From 5a886a855e9219469a4f028c1164ee4ee0883d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 72/94] fix: truncation of integer vectors in the numba engine
 of Simplex

---
 pyproximal/proximal/Simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 04df2ca..1ab5852 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -139,6 +139,7 @@ class _Simplex_numba(_Simplex):
             x = x.reshape(self.dims)
             if self.axis == 0:
                 x = x.T
+            x = x.astype(np.result_type(x.dtype, np.float32), copy=False)
             y = simplex_jit(
                 x,
                 self.coeffs,
-- 
2.43.0


From 38b4579156edadb07da4a9452e26c7e65fdd7cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 73/94] fix: AdaptivePrimalDual log numbers its iterations from
 one

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index c17f474..115cb7c 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -399,7 +399,7 @@ def AdaptivePrimalDual(
                 pg = 0.0 if isinstance(pg, bool) else pg
                 zx = 0.0 if z is None else np.dot(z, x)
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
-                    iiter + 1,
+                    iiter,
                     np.real(to_numpy(x[0])),
                     pf,
                     pg,
-- 
2.43.0


From 912bdeacd61e15c19a9b9af4c62ba2c7a4c21df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 74/94] fix: L2 keeps its factorisation consistent when its
 computation is interrupted

---
 pyproximal/proximal/L2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 37ae123..dc35e11 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -240,10 +240,11 @@ class L2(ProxOperator):
                         x = Op1.div(y, densesolver=self.densesolver)
                 else:
                     if self.tausigma != tau * self.sigma:
-                        # recompute factorization
-                        self.tausigma = tau * self.sigma
-                        ATA = np.eye(self.Op.shape[1]) + self.tausigma * self.ATA
+                        # recompute factorization (and store tausigma only
+                        # once this has succeeded)
+                        ATA = np.eye(self.Op.shape[1]) + tau * self.sigma * self.ATA
                         self.cl = cho_factor(ATA)
+                        self.tausigma = tau * self.sigma
                     x = cho_solve(self.cl, y)
             elif self.normaleqs:
                 Op1 = Identity(self.Op.shape[1], dtype=self.Op.dtype) + float(
-- 
2.43.0


From 9dc87ee31692fb768b4e09b27c56e983c98d81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 75/94] fix: iteration counts and step sizes may be NumPy
 scalars

---
 pyproximal/optimization/primaldual.py | 4 ++--
 pyproximal/proximal/L2.py             | 2 +-
 pyproximal/proximal/TV.py             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 115cb7c..eded95a 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -137,10 +137,10 @@ def PrimalDual(
 
     # check if tau and mu are scalars or arrays
     fixedtau = fixedmu = False
-    if isinstance(tau, (int, float)):
+    if np.ndim(tau) == 0:
         tau = tau * ncp.ones(niter, dtype=x0.dtype)
         fixedtau = True
-    if isinstance(mu, (int, float)):
+    if np.ndim(mu) == 0:
         mu = mu * ncp.ones(niter, dtype=x0.dtype)
         fixedmu = True
 
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index dc35e11..2b71985 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -215,7 +215,7 @@ class L2(ProxOperator):
     @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
-        if isinstance(self.niter, int):
+        if not callable(self.niter):
             niter = self.niter
         else:
             niter = self.niter(self.count)
diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 06101f5..d7e9f14 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -87,7 +87,7 @@ class TV(ProxOperator):
     @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
-        if isinstance(self.niter, int):
+        if not callable(self.niter):
             niter = self.niter
         else:
             niter = self.niter(self.count)
-- 
2.43.0


From 508ea5a19aeaed25653401606b7eaea930bb0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 76/94] fix: numba Simplex handles entries beyond 1e10

---
 pyproximal/proximal/Simplex.py        | 14 +++++++-------
 pyproximal/proximal/_Simplex_numba.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 1ab5852..881aad0 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -112,14 +112,14 @@ class _Simplex_numba(_Simplex):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         if self.dims is None:
-            bisect_lower = -1
+            bisect_lower = -1.0
             while (
-                fun_jit(bisect_lower, x, self.coeffs, self.radius, 0, 10000000000) < 0
+                fun_jit(bisect_lower, x, self.coeffs, self.radius, 0, np.inf) < 0
             ):
                 bisect_lower *= 2
-            bisect_upper = 1
+            bisect_upper = 1.0
             while (
-                fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, 10000000000) > 0
+                fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, np.inf) > 0
             ):
                 bisect_upper *= 2
             c = bisect_jit(
@@ -127,14 +127,14 @@ class _Simplex_numba(_Simplex):
                 self.coeffs,
                 self.radius,
                 0,
-                10000000000,
+                np.inf,
                 bisect_lower,
                 bisect_upper,
                 self.maxiter,
                 self.ftol,
                 self.xtol,
             )
-            y = np.minimum(np.maximum(x - c * self.coeffs, 0), 10000000000)
+            y = np.minimum(np.maximum(x - c * self.coeffs, 0), np.inf)
         else:
             x = x.reshape(self.dims)
             if self.axis == 0:
@@ -145,7 +145,7 @@ class _Simplex_numba(_Simplex):
                 self.coeffs,
                 self.radius,
                 0,
-                10000000000,
+                np.inf,
                 self.maxiter,
                 self.ftol,
                 self.xtol,
diff --git a/pyproximal/proximal/_Simplex_numba.py b/pyproximal/proximal/_Simplex_numba.py
index 177e8e3..38311f6 100644
--- a/pyproximal/proximal/_Simplex_numba.py
+++ b/pyproximal/proximal/_Simplex_numba.py
@@ -111,10 +111,10 @@ def simplex_jit(
     """
     y = np.zeros_like(x)
     for i in range(x.shape[0]):
-        bisect_lower = -1
+        bisect_lower = -1.0
         while fun_jit(bisect_lower, x[i], coeffs, scalar, lower, upper) < 0:
             bisect_lower *= 2
-        bisect_upper = 1
+        bisect_upper = 1.0
         while fun_jit(bisect_upper, x[i], coeffs, scalar, lower, upper) > 0:
             bisect_upper *= 2
         c = bisect_jit(
-- 
2.43.0


From fb464bad24e45395afda100e12cb336f692da67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 77/94] fix: Euclidean with zero weight failed at the origin

---
 pyproximal/proximal/Euclidean.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Euclidean.py b/pyproximal/proximal/Euclidean.py
index 4e1a939..369ff7f 100644
--- a/pyproximal/proximal/Euclidean.py
+++ b/pyproximal/proximal/Euclidean.py
@@ -48,14 +48,17 @@ class Euclidean(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
+        # (a vanishing denominator means that both x and sigma are zero)
         x = (
-            1.0 - (tau * self.sigma) / max(float(np.linalg.norm(x)), tau * self.sigma)
+            1.0
+            - (tau * self.sigma)
+            / (max(float(np.linalg.norm(x)), tau * self.sigma) or 1.0)
         ) * x
         return x
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        x = self.sigma * x / (max(float(np.linalg.norm(x)), self.sigma))
+        x = self.sigma * x / (max(float(np.linalg.norm(x)), self.sigma) or 1.0)
         return x
 
     def grad(self, x: NDArray) -> NDArray:
-- 
2.43.0


From 03e7903c7563a9001e818ca8fa597307cf23e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 78/94] fix: L21 with zero weight gave NaN for zero groups

---
 pyproximal/proximal/L21.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index 5cf2f17..4607886 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -73,7 +73,9 @@ class L21(ProxOperator):
         x = x.reshape(self.ndim, len(x) // self.ndim)
         aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
-        x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
+        denom = np.maximum(aux, tau * self.sigma)
+        denom[denom == 0] = 1.0
+        x = (1 - (tau * self.sigma) / denom) * x.ravel()
         return x
 
     @_check_tau
@@ -81,5 +83,7 @@ class L21(ProxOperator):
         x = x.reshape(self.ndim, len(x) // self.ndim)
         aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
-        x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
+        denom = np.maximum(aux, self.sigma)
+        denom[denom == 0] = 1.0
+        x = self.sigma * x.ravel() / denom
         return x
-- 
2.43.0


From fc14b8c348b9d7383cd9fe876a0950c4ca9fc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 79/94] fix: EuclideanBall of zero radius failed at its center

---
 pyproximal/projection/Euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Euclidean.py b/pyproximal/projection/Euclidean.py
index 83c99af..47e8ff4 100644
--- a/pyproximal/projection/Euclidean.py
+++ b/pyproximal/projection/Euclidean.py
@@ -38,6 +38,6 @@ class EuclideanBallProj:
 
     def __call__(self, x: NDArray) -> NDArray:
         x = self.center + self.radius / (
-            max(float(np.linalg.norm(x - self.center)), self.radius)
+            max(float(np.linalg.norm(x - self.center)), self.radius) or 1.0
         ) * (x - self.center)
         return x
-- 
2.43.0


From f4e8fcdc7e16bfcffdae445e151c6fadb424b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 80/94] fix: Geman.prox with a negligible weight set entries to
 zero

---
 pyproximal/proximal/Geman.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index cf166c1..37e9a67 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -83,8 +83,10 @@ class Geman(ProxOperator):
     ) -> tuple[NDArray, NDArray]:
         f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
         g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
+        # the equation also has three real roots whenever d is negative, in which
+        # case the discriminant may still be rounded to a positive number
+        idx = (g**2.0 / 4.0 - f <= 0) | (d < 0)
         sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
+        k = np.arccos(np.clip(-(g[idx] / (2 * sqrtf)), -1.0, 1.0))
         loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
         return idx, loc_mins
-- 
2.43.0


From dd52cdb2560e54967b34c59e7ded072b556c1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 81/94] fix: RelaxedMumfordShah.prox failed with zero sigma

---
 pyproximal/proximal/RelaxedMS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a583742..1f4d252 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -100,7 +100,7 @@ class RelaxedMumfordShah(ProxOperator):
         kappa = _current_sigma(self.kappa, self.count)
 
         x = np.where(
-            np.abs(x) <= np.sqrt(kappa / sigma * (1 + 2 * tau * sigma)),
+            np.sqrt(sigma) * np.abs(x) <= np.sqrt(kappa * (1 + 2 * tau * sigma)),
             _l2(x, tau * sigma),
             x,
         )
-- 
2.43.0


From 533af59b3151a1f053789829471fec6525681be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 82/94] fix: TV.prox failed or gave NaN with zero weight

---
 pyproximal/proximal/TV.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index d7e9f14..b2303a7 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -98,6 +98,9 @@ class TV(ProxOperator):
 
         # Initialization
         x = x.reshape(self.dims).astype(np.result_type(x.dtype, np.float32), copy=False)
+        if gamma == 0:
+            # the functional vanishes
+            return x.ravel().copy()
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-- 
2.43.0


From f1096f932c16f27e38433fa68134330e88d43a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 83/94] fix: L2.prox with densesolver=factorize failed with
 zero weight

---
 pyproximal/proximal/L2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 2b71985..0a2b2ad 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -175,10 +175,10 @@ class L2(ProxOperator):
                 "Available options are: 'legacy', 'cg', 'cgls'."
             )
             raise ValueError(msg)
-        # when using factorize, store the first tau*sigma=0 so that the
-        # first time it will be recomputed (as tau cannot be 0)
+        # when using factorize, store the first tau*sigma=-1 so that the
+        # first time it will be recomputed (as tau*sigma cannot be negative)
         if self.densesolver == "factorize":
-            self.tausigma = 0.0
+            self.tausigma = -1.0
 
         # create data term
         if (
-- 
2.43.0


From 128cdfc93266dc1a47021b4b4f7a5618d933e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 84/94] fix: QuadraticEnvelopeCardIndicator failed with r0=0

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 172c4fc..9f6b79a 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -171,6 +171,8 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         if x.size <= self.r0 or np.count_nonzero(x) <= self.r0:
             return 0
+        if self.r0 == 0:
+            return np.inf
         xs = np.sort(np.abs(x))[::-1]
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
@@ -187,7 +189,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     @_check_tau
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
-        if rho <= 1:
+        if rho <= 1 or self.r0 == 0:
             # keep the r0 largest entries
             return L0BallProj(self.r0)(y)
         if y.size <= self.r0:
-- 
2.43.0


From 36908a2244dcba57538383709662fec96deb5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 85/94] fix: QuadraticEnvelopeRankL2.prox with r0 larger than
 the full rank

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 9f6b79a..7ba2b8b 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -302,7 +302,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
         ind = np.argsort(r, kind="quicksort")
         p = r[ind]
 
-        a = (n - self.r0) / rho
+        a = max(n - self.r0, 0) / rho
         b = (rho + 1) / rho * np.sum(yk[self.r0 :])
 
         # Base case
-- 
2.43.0


From 0d2375db49b92f37eb358c28b01145d8209ac281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 86/94] fix: gradient tests truncated the perturbation of
 integer vectors

---
 pyproximal/utils/gradtest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 1bf5669..a36725b 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -102,7 +102,7 @@ def gradtest_proximal(
         delta1 = delta * 1j
 
     # extract gradient value to test
-    x = x.copy()
+    x = x.astype(np.result_type(x.dtype, np.float32))
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -206,6 +206,8 @@ def gradtest_bilinear(
 
     # extract x and y from Op
     x, y = Op.x.flatten(), Op.y.flatten()
+    x = x.astype(np.result_type(x.dtype, np.float32))
+    y = y.astype(np.result_type(y.dtype, np.float32))
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From bce6e552f3563630affd4c03ffedbff0f39ebffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 87/94] fix: Quadratic.grad returned a scalar for a constant
 functional

---
 pyproximal/proximal/Quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index c754458..1ff3249 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -137,5 +137,5 @@ class Quadratic(ProxOperator):
         elif self.b is not None:
             g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         return g
-- 
2.43.0


From 72974caf7cb78fdf5c220c66ec935bdf005ddc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 88/94] fix: SCAD value of complex vectors ignored the modulus

---
 pyproximal/proximal/SCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 147dda0..dc0f9f5 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,13 +64,13 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         absx = np.abs(x)
+        f = np.zeros_like(absx, dtype=np.result_type(absx.dtype, np.float32))
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
         f[ind] = (
-            -(x[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
+            -(absx[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
         ) / (2 * (self.a - 1))
         ind = absx > self.a * self.sigma
         f[ind] = (self.a + 1) * self.sigma**2 / 2
-- 
2.43.0


From a3527dafa289215b06431c2a28fff2d01342cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 89/94] fix: Huber value of complex vectors was computed in a
 complex array

---
 pyproximal/proximal/Huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 467b561..f837d0c 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -49,8 +49,8 @@ class Huber(ProxOperator):
         self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         xabs = np.abs(x)
+        h = np.zeros_like(xabs, dtype=np.result_type(xabs.dtype, np.float32))
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
         h[mask] = xabs[mask] - self.alpha / 2.0
-- 
2.43.0


From 41ed3ed315c2531a2c08ad06e27531b832acb5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 90/94] fix: ETP.prox compared complex squares for complex
 vectors

---
 pyproximal/proximal/ETP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 586bc85..5a6e296 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -83,8 +83,8 @@ class ETP(ProxOperator):
 
         # Check which stationary points are global minima
         idx_minima = (
-            tau * self.elementwise(stat_points) + (stat_points - x[idx]) ** 2 / 2
-            < x[idx] ** 2 / 2
+            tau * self.elementwise(stat_points) + np.abs(stat_points - x[idx]) ** 2 / 2
+            < np.abs(x[idx]) ** 2 / 2
         )
         idx[idx] = idx_minima
         out[idx] = stat_points[idx_minima]
-- 
2.43.0


From f8f98e30e5d9d2b3e5f38109f416db50dd4a3e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 91/94] fix: low-rank functional leaves its internal x replaced
 when an evaluation fails

---
 pyproximal/utils/bilinear.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyproximal/utils/bilinear.py b/pyproximal/utils/bilinear.py
index ed63e3f..f373852 100644
--- a/pyproximal/utils/bilinear.py
+++ b/pyproximal/utils/bilinear.py
@@ -151,17 +151,12 @@ class LowRankFactorizedMatrix(BilinearOperator):
         # x can be concatenated [x,y] or just x if y is provided
         if y is None:
             x, y = x[: self.sizex], x[self.sizex :]
-        # store original self.x to restore after calculation,
-        # as _matvecy uses self.x
-        xold = self.x.copy()
-        # temporarily update self.x for _matvecy
-        self.updatex(x)
-        # compute residual: note that _matvecy(y) computes
-        # Op(X @ Y) where Y is obtained reshaping y into
-        # a matrix
-        res = self.d - self._matvecy(y)
-        # restore original self.x
-        self.updatex(xold)
+        # compute residual directly from the provided x and y, such that the
+        # internal variables are left untouched (also if the evaluation fails)
+        X = x.reshape(self.n, self.k) @ y.reshape(self.k, self.m)
+        if self.Op is not None:
+            X = self.Op @ X.ravel()
+        res = self.d - X.ravel()
         return float(np.linalg.norm(res) ** 2 / 2.0)
 
     def _matvecx(self, x: NDArray) -> NDArray:
-- 
2.43.0


From 06a6e3ea4506c40ae238dfcdbac611dee3bb19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 92/94] fix: Log is accurate for small shape parameters

---
 pyproximal/proximal/Log.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 8a72181..01785de 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -85,18 +85,25 @@ class Log(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        return self.sigma / np.log(self.gamma + 1) * np.log(self.gamma * np.abs(x) + 1)
+        return self.sigma / np.log1p(self.gamma) * np.log1p(self.gamma * np.abs(x))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        k = tau * self.sigma / np.log(self.gamma + 1)
+        k = tau * self.sigma / np.log1p(self.gamma)
         out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
         b = self.gamma * np.abs(x) - 1
         discriminant = b**2 - 4 * self.gamma * (k * self.gamma - np.abs(x))
         idx = discriminant >= 0
         c = np.sqrt(discriminant[idx])
         # The stationary point (b[idx] - c) / (2 * self.gamma) is always a local maximum, and is therefore not checked
-        r = np.vstack((np.zeros_like(c), (b[idx] + c) / (2 * self.gamma)))
+        # (b[idx] + c) / (2 * self.gamma), without cancellation if b is negative
+        b = b[idx]
+        root = np.where(
+            b < 0,
+            2 * (np.abs(x[idx]) - k * self.gamma) / (c + np.where(b < 0, -b, 1.0)),
+            (b + c) / (2 * self.gamma),
+        )
+        r = np.vstack((np.zeros_like(c), root))
         val = tau * self.elementwise(r) + (r - np.abs(x[idx])) ** 2 / 2
         idx_minima = np.argmin(val, axis=0)
         out[idx] = r[idx_minima, list(range(r.shape[1]))]
-- 
2.43.0


From 88dcac8eea0187945df34bc6f754ea554f8fc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 93/94] fix: ETP is accurate for small shape parameters

---
 pyproximal/proximal/ETP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 5a6e296..6854a4f 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -65,13 +65,13 @@ class ETP(ProxOperator):
     def elementwise(self, x: NDArray) -> NDArray:
         return (
             self.sigma
-            / (1 - np.exp(-self.gamma))
-            * (1 - np.exp(-self.gamma * np.abs(x)))
+            / np.expm1(-self.gamma)
+            * np.expm1(-self.gamma * np.abs(x))
         )
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        k = tau * self.sigma / (1 - np.exp(-self.gamma))
+        k = -tau * self.sigma / np.expm1(-self.gamma)
         out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
 
         # Get real-valued solutions to the Lambert W function
-- 
2.43.0


From 4c4ffb1aa97e731a1e0f583e0c5c85adf9c652bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 94/94] fix: Geman.prox is accurate for small and large shape
 parameters

---
 pyproximal/proximal/Geman.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 37e9a67..972aee4 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -65,10 +65,9 @@ class Geman(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         out = np.zeros_like(x, dtype=np.result_type(x.dtype, np.float32))
-        b = 2 * self.gamma - np.abs(x)
-        c = self.gamma**2 - 2 * self.gamma * np.abs(x)
-        d = self.gamma * self.sigma * tau - self.gamma**2 * np.abs(x)
-        idx, loc_mins = self._find_local_minima(b, c, d)
+        idx, loc_mins = self._find_local_minima(
+            np.abs(x), self.gamma, self.gamma * self.sigma * tau
+        )
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
             < np.abs(x[idx]) ** 2 / 2
@@ -79,14 +78,13 @@ class Geman(ProxOperator):
 
     @staticmethod
     def _find_local_minima(
-        b: NDArray, c: NDArray, d: NDArray
+        x: NDArray, gamma: float, d: float
     ) -> tuple[NDArray, NDArray]:
-        f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
-        g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        # the equation also has three real roots whenever d is negative, in which
-        # case the discriminant may still be rounded to a positive number
-        idx = (g**2.0 / 4.0 - f <= 0) | (d < 0)
-        sqrtf = np.sqrt(f[idx])
-        k = np.arccos(np.clip(-(g[idx] / (2 * sqrtf)), -1.0, 1.0))
-        loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
+        # with z = x - (x + gamma) * r the cubic equation becomes r * (1 - r)^2 = q,
+        # whose smallest root is the local minimum (computed without cancellation)
+        xg = x + gamma
+        q = d / xg**2 / xg
+        idx = 27.0 * q / 4.0 <= 1.0
+        r = 4.0 / 3.0 * np.sin(np.arcsin(np.sqrt(27.0 * q[idx] / 4.0)) / 3.0) ** 2
+        loc_mins = x[idx] - xg[idx] * r
         return idx, loc_mins
-- 
2.43.0

