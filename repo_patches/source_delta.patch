From c3a199b0f2c77800806ec8af08c870c61ec4854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 01/26] fix: parallel solvers crash on kernels with a
 one-dimensional state

Exp.transition_matrix indexed dt, which the parallel solvers pass as a Python
int for the first step, and squeezing b and eta dropped their only axis.
---
 src/smolgp/kernels/base.py                       | 2 +-
 src/smolgp/solvers/integrated/parallel/kalman.py | 4 ++--
 src/smolgp/solvers/parallel/kalman.py            | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..d34e85a 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -789,7 +789,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.exp(jnp.array([[-dt / self.scale]]))
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..8de02b0 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -123,7 +123,7 @@ def make_associative_params(
         P = transition @ P0 @ transition.T  # Q(0,0) = 0
 
         A = Reset
-        b = jnp.squeeze(m)
+        b = m
         C = P
 
         eta = jnp.zeros(state_dim)
@@ -164,7 +164,7 @@ def make_associative_params(
         Kk = jnp.linalg.solve(Sk.T, (Q_dt @ Hk.T).T).T
         factor = I_nx - Kk @ Hk
         A = factor @ Phi_dt
-        b = jnp.squeeze(Kk @ jnp.atleast_1d(yk))
+        b = Kk @ jnp.atleast_1d(yk)
         C = factor @ Q_dt
         C = 0.5 * (C + C.T)
 
diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..64bff84 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 3bb2ee0f1cb1bc462ffad7e8765b32995afee15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 02/26] fix: Constant kernel could not be conditioned (self.eye
 does not exist)

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index d34e85a..18b8dbd 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -547,7 +547,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From 7726521885baa8fadc626d3a6b5c868f1cdfce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 03/26] fix: scaled kernels could not be built and left the
 process noise unscaled

Scale had no name, so scalar * kernel raised; its process noise was that of the
unscaled kernel, which gave the wrong posterior; and a scaled integrated kernel
was run through the instantaneous solver.
---
 src/smolgp/gp.py           | 11 +++++++++--
 src/smolgp/kernels/base.py |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..b753240 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -17,7 +17,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum, Product
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -71,6 +71,13 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _is_integrated(kernel: StateSpaceModel) -> bool:
+    """Whether a leaf kernel, or the kernel it wraps (e.g. Scale), is integrated"""
+    while isinstance(kernel, Wrapper):
+        kernel = kernel.kernel
+    return isinstance(kernel, IntegratedStateSpaceModel)
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -327,7 +334,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = any([_is_integrated(k) for k in kernels])
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 18b8dbd..08726d5 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -478,6 +478,11 @@ class Scale(Wrapper):
 
     scale: JAXArray | float
 
+    def __init__(self, kernel, scale, name: str | None = None):
+        self.kernel = kernel
+        self.scale = scale
+        self.name = kernel.name if name is None else name
+
     def stationary_covariance(self) -> JAXArray:
         return self.scale * self.kernel.stationary_covariance()
 
@@ -485,6 +490,9 @@ class Scale(Wrapper):
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From b203d8441b39bc95c17b705470497e7924cb116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 04/26] fix: unique kernel names failed for sums that contain a
 product

A product is one component of a sum, but renaming descended into its factors,
whose names were never counted (KeyError). Also skip suffixes already in use.
---
 src/smolgp/gp.py           | 12 ++++--------
 src/smolgp/kernels/base.py |  6 ++++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index b753240..4d88d43 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -54,15 +54,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (a Product is a single component)
         if counts[k.name] > 1:
-            idx = used[k.name]
+            while (newname := f"{k.name}_{used[k.name]}") in counts:
+                used[k.name] += 1
             used[k.name] += 1
-            newname = f"{k.name}_{idx}"
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 08726d5..06fb2b4 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,12 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name: str | None = None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        if name is None:
+            name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = name
 
     @property
     def dimension(self) -> int:
-- 
2.43.0


From 6b518570e64f43f0afb82e8fef2fc53523218a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/26] fix: the product component of a sum was extracted as
 identically zero

---
 src/smolgp/kernels/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 06fb2b4..2e328da 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -401,12 +401,6 @@ class Product(StateSpaceModel):
         Pinf2 = self.kernel2.stationary_covariance()
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
-    def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
-
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
         H1 = self.kernel1.observation_matrix(X)
-- 
2.43.0


From 03c22eb21f29122371e05bd38aa7245556620bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 06/26] fix: a single data or test point lost its axis, and
 conditioning on one failed

---
 src/smolgp/gp.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 4d88d43..6490293 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -156,7 +156,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_mean(mu), _squeeze_var(var)
 
 
 class PredictedStates(eqx.Module):
@@ -196,7 +196,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_mean(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -209,7 +209,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_var(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -680,10 +680,10 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = _squeeze_mean(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+                    var = _squeeze_var(
+                        jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    )
 
         if return_var:
             return mu, var
@@ -879,6 +879,16 @@ class ConditionResult(NamedTuple):
     """
 
 
+def _squeeze_mean(mu: JAXArray) -> JAXArray:
+    """(M, 1) -> (M,) for a scalar observation model, also when M = 1"""
+    return mu[..., 0] if mu.shape[-1] == 1 else mu
+
+
+def _squeeze_var(var: JAXArray) -> JAXArray:
+    """(M, 1, 1) -> (M,) for a scalar observation model, also when M = 1"""
+    return var[..., 0, 0] if var.shape[-1] == 1 else var
+
+
 def _default_diag(reference: JAXArray) -> JAXArray:
     """Default to adding some amount of jitter to the diagonal, just in case,
     we use sqrt(eps) for the dtype of the mean function because that seems to
-- 
2.43.0


From f3bca681f0dc13368fe414ec1ab3b7006bffdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 07/26] fix: condition(y, X_test) failed to unpack the
 conditioned states

---
 src/smolgp/gp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 6490293..8fb25b2 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -556,7 +556,10 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            m_test, P_test = self.solver.predict(X_test, states())
+            H_test = jax.vmap(observation_model)(X_test)
+            mu = _squeeze_mean(jax.vmap(lambda H, m: H @ m)(H_test, m_test))
+            var = _squeeze_var(jax.vmap(lambda H, P: H @ P @ H.T)(H_test, P_test))
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From 5e9cab9433bc769f9eb54326616637ca5541a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 08/26] fix: zero-length exposures at the first or last event
 gave wrong results

A zero-length exposure ends before it starts. When it came last, smoothing began
from the reset state although starts are smoothed pre-reset; when it came first,
the parallel filter skipped its measurement.
---
 .../solvers/integrated/parallel/kalman.py      | 18 +++++++++++++-----
 src/smolgp/solvers/integrated/parallel/rts.py  |  7 ++++++-
 src/smolgp/solvers/integrated/rts.py           | 12 ++++++++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 8de02b0..9b2aa4d 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -131,6 +131,15 @@ def make_associative_params(
 
         return (A, b, C, eta, J)
 
+    def make_first_end_params(m0, P0):
+        """The first state is an exposure-end if that exposure has zero length"""
+        Hk = H_array[obsid[0]]
+        S = Hk @ P0 @ Hk.T + R[obsid[0]]
+        K = jnp.linalg.solve(S.T, (P0 @ Hk.T).T).T
+        b = m0 + K @ (y[obsid[0]] - Hk @ m0)
+        C = P0 - K @ S @ K.T
+        return (jnp.zeros_like(P0), b, C, jnp.zeros(state_dim), jnp.zeros_like(P0))
+
     def to_start_params(ops):
         (
             Phi_dt,
@@ -175,11 +184,10 @@ def make_associative_params(
         J = _a @ _c
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(
-        Phi_aug,
-        m0,
-        P0,
-        RESET(instid[0]),
+    A0, b0, C0, eta0, J0 = jax.lax.cond(
+        stateid[0] == 0,
+        lambda: make_first_params(Phi_aug, m0, P0, RESET(instid[0])),
+        lambda: make_first_end_params(m0, P0),
     )
     t_delta = jnp.diff(t_states)
 
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..b24ce4e 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -128,7 +128,12 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # an exposure-start is smoothed pre-reset
+    ends_on_start = stateid[-1] == 0
+    EN, gN, LN = make_last_params(
+        jnp.where(ends_on_start, m_pred[-1], m_filter[-1]),
+        jnp.where(ends_on_start, P_pred[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..685dd8f 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -93,8 +93,12 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state, or from its pre-reset
+    # values if it is an exposure-start (which is smoothed pre-reset)
+    ends_on_start = stateid[-1] == 0
+    m_last = jnp.where(ends_on_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(ends_on_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
@@ -102,6 +106,6 @@ def integrated_rts_smoother(
     m_smooth_reversed, P_smooth_reversed = outputs
 
     # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From 2428c8e5ba261e5b7e9556ffa460945834d8fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 09/26] fix: ParallelStateSpaceSolver differed from
 StateSpaceSolver in three inputs

Structured coordinates (a tuple X) failed in predict, condition() without
return_v_S could not be unpacked, and a coordinate-dependent observation model
was evaluated at the time lag instead of at the data.
---
 src/smolgp/solvers/parallel/kalman.py | 14 ++++++++------
 src/smolgp/solvers/parallel/solver.py |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 64bff84..50fdcca 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -31,7 +31,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
     asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
-    m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
+    m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, t, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
     m_filt, P_filt = b, C
     if return_v_S:
@@ -53,11 +53,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         H,
         m0,
         P0,
+        t0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
+        H0 = H(t0)
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -79,13 +80,14 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         H,
         Q,
         t_delta,
+        t,
         y,
         r,
     ):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
+        Hk = H(t)
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +103,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, t[0], y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, None, None, 0, 0, 0, 0),
+    )(Phi, H, Q, t_delta, t[1:], y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..f156755 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From cd249da6a6024d31633339da982dc3b8071f7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 10/26] fix: smoothing was NaN for exposures that start
 simultaneously

The smoothing gain inverted an exactly singular predicted covariance when
two instruments start an exposure at the same time (their integral states are
then copies of each other) or after a zero-variance reset.
---
 src/smolgp/helpers.py                         | 19 +++++++++++++++++++
 src/smolgp/solvers/integrated/parallel/rts.py |  5 +++--
 .../solvers/integrated/parallel/solver.py     |  3 ++-
 src/smolgp/solvers/integrated/rts.py          |  6 ++++--
 src/smolgp/solvers/integrated/solver.py       |  3 ++-
 5 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..0d2e3b1 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -11,6 +11,25 @@ def block_view(A, b):
     return A.reshape(N, b, M, b).transpose(0, 2, 1, 3)
 
 
+def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
+    """
+    The RTS smoothing gain G = P @ A.T @ inv(P_pred)
+
+    P_pred is singular if an integral state has just been reset (zero variance) or
+    is a copy of another one (exposures that start at the same time on different
+    instruments). Inflating the variance of such a state leaves it zero gain, which
+    is exact because it adds no information to that of the other states.
+    """
+    var = jnp.diag(P_pred)
+    std = jnp.sqrt(jnp.abs(var))
+    tol = 8 * jnp.finfo(P_pred.dtype).eps
+    diff = jnp.abs(P_pred[:, None, :] - P_pred[None, :, :])
+    same = jnp.all(diff <= tol * std[:, None, None] * std[None, None, :], axis=-1)
+    redundant = jnp.any(jnp.tril(same, -1), axis=1) | (var == 0)
+    P_safe = P_pred + jnp.diag(jnp.where(redundant, var + 1.0, 0.0))
+    return jnp.linalg.solve(P_safe.T, (P @ A.T).T).T
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index b24ce4e..5e8fda8 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -102,9 +104,8 @@ def make_associative_params(
         )
 
         A = Phik @ Pk @ Phik.T + Qk
-        b = Pk @ Phik.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = smoothing_gain(Pk, Phik, A)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..6ef04a4 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,6 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -225,7 +226,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 685dd8f..c8f3857 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
@@ -72,14 +74,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = smoothing_gain(P_k_pre, AR, P_pred_next)
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = smoothing_gain(P_k, A_k, P_pred_next)
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..7bff2ba 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,6 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -220,7 +221,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From 5feb613b8d6026935413648eaf11bee5a5ab0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 11/26] fix: overdamped SHO kernel was NaN after a long gap

sinh and cosh overflow once eta*omega*dt exceeds ~700 although their product
with the exponential is finite.
---
 src/smolgp/kernels/base.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 2e328da..1cc0d74 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -656,9 +656,11 @@ class SHO(StateSpaceModel):
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
             x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # exp(-w*dt/2q) included in sinh and cosh, as these overflow at long lags
+            exp = jnp.exp(-0.5 * w * dt / q + x)
+            sinh = -0.5 * exp * jnp.expm1(-2 * x)
+            cosh = exp - sinh
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -715,14 +717,14 @@ class SHO(StateSpaceModel):
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
             x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
-            sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            # exp(-a) included in sinh2 and sinhsq, as these overflow at long lags
+            exp = jnp.exp(2 * x - a)
+            sinh2 = -0.5 * exp * jnp.expm1(-4 * x)
+            sinhsq = 0.25 * exp * jnp.square(jnp.expm1(-2 * x))
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + sinh2 / f - sinhsq / (2 * n2 * q2))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-- 
2.43.0


From 6fa6877233cbec50a2000b6b488785bd19ea1e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 12/26] fix: integrated kernels were wrong or NaN after long
 gaps or in large time units

The Van Loan products multiply growing with decaying exponentials: the process
noise of an overdamped IntegratedSHO lost all precision for lags of ~10/omega,
all others overflowed at longer lags, and expm returned NaN where dt is large in
the units of the coordinate. Sum the Taylor series over a short step and double
it instead, and use the closed form in terms of F at long lags.
---
 src/smolgp/helpers.py            | 37 +++++++++++++++++++
 src/smolgp/kernels/integrated.py | 63 +++++++++++++++++++++++---------
 2 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 0d2e3b1..b4b32d4 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -1,3 +1,4 @@
+import jax
 import jax.numpy as jnp
 from jax.scipy.linalg import expm
 from tinygp.helpers import JAXArray
@@ -30,6 +31,42 @@ def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
     return jnp.linalg.solve(P_safe.T, (P @ A.T).T).T
 
 
+def discretize(
+    F: JAXArray, QL: JAXArray, dt: JAXArray, terms: int = 16, doublings: int = 6
+) -> tuple[JAXArray, JAXArray]:
+    """
+    Transition matrix A = exp(F dt) and process noise Q = ∫0^dt exp(F s) QL exp(F^T s) ds
+
+    Sums the Taylor series for a step dt / 2**doublings (which is where the products
+    of the Van Loan method cancel) and then doubles that step up to dt. Accurate as
+    long as dt is no more than a few times the timescales of F.
+
+    Parameters:
+        F: StateSpaceModel.design_matrix
+        QL: L @ Qc @ L.T
+        dt: time step between measurements (dt = X2 - X1)
+
+    Returns:
+        A, Q: Transition and process noise covariance matrices over time step dt
+    """
+    h = dt / 2**doublings
+    I = jnp.eye(len(F))
+
+    def add_term(k, carry):
+        A, Q, dA, dQ = carry
+        dA = F @ dA * (h / k)
+        FdQ = F @ dQ
+        dQ = (FdQ + FdQ.T) * (h / (k + 1))
+        return A + dA, Q + dQ, dA, dQ
+
+    def double(_, carry):
+        A, Q = carry
+        return A @ A, A @ Q @ A.T + Q
+
+    A, Q, _, _ = jax.lax.fori_loop(1, terms + 1, add_term, (I, QL * h, I, QL * h))
+    return jax.lax.fori_loop(0, doublings, double, (A, Q))
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..7e3b0f1 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -38,7 +38,7 @@ from tinygp.helpers import JAXArray
 
 import smolgp.kernels
 from smolgp.kernels import StateSpaceModel
-from smolgp.helpers import Phibar_from_VanLoan
+from smolgp.helpers import discretize
 
 
 class IntegratedStateSpaceModel(StateSpaceModel):
@@ -143,11 +143,19 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L_aug = jnp.vstack([L] + [0.0] * self.num_insts)
         return L_aug
 
+    def _is_long_lag(self, dt: JAXArray) -> JAXArray:
+        """Whether dt is long compared to the timescales of the process"""
+        F = self.base_model.design_matrix()
+        absdet = jnp.abs(jnp.linalg.det(F))
+        rate = jnp.maximum(-jnp.trace(F), absdet ** (1 / self.d))
+        return (rate * dt > 8.0) & (absdet > 0.0)
+
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
         The integrated transition matrix between two states at coordinates X1 and X2, $A_k$
 
-        By default uses the Van Loan method to compute Phibar = ∫0^dt exp(F s) ds
+        By default computes Phibar = ∫0^dt exp(F s) ds numerically, or from
+        Phibar = F^-1 (Phi - I) if dt is long compared to the relaxation time.
 
         Overload this method if you wish to define the integrated transition matrix analytically.
         """
@@ -155,7 +163,20 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        is_long = self._is_long_lag(dt)
+
+        d = self.d
+        I = jnp.eye(d)
+        Z = jnp.zeros((d, d))
+        C = jnp.block([[F, I], [Z, Z]])
+        expC, _ = discretize(C, jnp.zeros_like(C), jnp.where(is_long, 0.0, dt))
+        Phibar_short = expC[:d, d:]
+
+        F_safe = jnp.where(is_long, F, I)
+        dt_safe = jnp.where(is_long, dt, 0.0)
+        Phi = self.base_model.transition_matrix(0, dt_safe)
+        Phibar_long = jnp.linalg.solve(F_safe, Phi - I)
+        return jnp.where(is_long, Phibar_long, Phibar_short)
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -176,29 +197,39 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Computes the submatrices Qaug12, Qaug21, and Qaug22
         needed to assemble the augmented process noise matrix.
 
-        By default uses the Van Loan method to compute these submatrices.
+        By default computes these submatrices numerically, or from the stationary
+        covariance of [x, z] if dt is long compared to the relaxation time.
         Overload this method if you wish to define these submatrices analytically.
         """
 
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
+        is_long = self._is_long_lag(dt)
         F = self.base_model.design_matrix()
         L = self.base_model.noise_effect_matrix()
         Qc = self.base_model.noise()
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
-        F3 = vanloan["F3"]
-        H2 = vanloan["H2"]
-        K1 = vanloan["K1"]
+        # one integral state is enough, as all of them have the same process noise
+        d = self.d
+        F_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(F).at[d, 0].set(1.0)
+        QL_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(L @ Qc @ L.T)
+        _, Q_short = discretize(F_aug, QL_aug, jnp.where(is_long, 0.0, dt))
 
-        M = F3.T @ H2
-        F3TK1 = F3.T @ K1
-        W = F3TK1 + F3TK1.T
+        # Q = Cov([x, z]) - A @ Pinf @ A.T, with z = ∫0^dt x(s) ds of a stationary x
+        I = jnp.eye(d)
+        F_safe = jnp.where(is_long, F, I)
+        dt_safe = jnp.where(is_long, dt, 0.0)
+        Pinf = self.base_model.stationary_covariance()
+        Phi = self.base_model.transition_matrix(0, dt_safe)
+        Phibar = jnp.linalg.solve(F_safe, Phi - I)
+        Phibarbar = jnp.linalg.solve(F_safe, Phibar - dt_safe * I)
+        Qxz_long = Phibar @ Pinf[:, :1] - Phi @ Pinf @ Phibar[:1, :].T
+        Qzz_long = (2 * Phibarbar @ Pinf - Phibar @ Pinf @ Phibar.T)[:1, :1]
 
-        Qaug12 = M[:, :1]
+        Qaug12 = jnp.where(is_long, Qxz_long, Q_short[:d, d:])
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = jnp.where(is_long, Qzz_long, Q_short[d:, d:])
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -307,8 +338,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -343,8 +373,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
-- 
2.43.0


From 0c07295905fd45d9bf256987720cf94b6d8d4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 13/26] fix: SHO process noise depended on the units and lost
 precision at short lags

Elements below 1e-14 were set to zero whatever the units of sigma and omega
(with sigma ~ 1e-7 the process becomes deterministic), and the terms of the
analytic IntegratedSHO form cancel for omega*dt << 1, which corrupted the
smoothing of events that are close to each other.
---
 src/smolgp/kernels/base.py       | 5 +----
 src/smolgp/kernels/integrated.py | 8 ++++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 1cc0d74..b49f478 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -705,10 +705,7 @@ class SHO(StateSpaceModel):
             Q11 = -expm1 - (sin2 / f + sinsq / (2 * n2 * q2)) * exp
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
-            Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows
+            return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 7e3b0f1..e49b70e 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -432,9 +432,6 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
@@ -445,7 +442,10 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
             critical,
-            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
+            # the terms of the underdamped form cancel at short lags
+            lambda dt: jax.lax.cond(
+                (q > 0.5) & (w * dt > 0.5), underdamped, overdamped, dt
+            ),
             dt,
         )
 
-- 
2.43.0


From c6b54128e35ac274add795eb0096d377bf85f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 14/26] fix: back-to-back exposures could be reset just before
 they end

t + dt/2 of one exposure and t - dt/2 of the next one on the same instrument
differ by rounding errors. Whenever the start came out an ulp before the end, the
integral state was reset before it was observed, so the likelihood was wrong.
---
 src/smolgp/helpers.py                            | 15 +++++++++++++++
 src/smolgp/solvers/integrated/parallel/solver.py |  6 +++---
 src/smolgp/solvers/integrated/solver.py          |  6 +++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index b4b32d4..75a0642 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -12,6 +12,21 @@ def block_view(A, b):
     return A.reshape(N, b, M, b).transpose(0, 2, 1, 3)
 
 
+def argsort_events(t: JAXArray, stateid: JAXArray) -> JAXArray:
+    """
+    Chronological order of exposure starts (stateid=0) and ends (stateid=1)
+
+    Ends go before starts at the same time. Times that differ only by the rounding
+    error of midpoint -/+ exptime/2 are the same time: back-to-back exposures would
+    otherwise be reset just before they end.
+    """
+    order = jnp.argsort(t)
+    tol = 4 * jnp.finfo(t.dtype).eps * jnp.max(jnp.abs(t))
+    is_later = jnp.diff(t[order], prepend=t[order][:1]) > tol
+    rank = jnp.zeros(t.shape, int).at[order].set(jnp.cumsum(is_later))
+    return jnp.lexsort((-stateid, rank))
+
+
 def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
     """
     The RTS smoothing gain G = P @ A.T @ inv(P_pred)
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 6ef04a4..d64f045 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,7 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import smoothing_gain
+from smolgp.helpers import argsort_events, smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -67,8 +67,8 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
         # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        sortidx = argsort_events(t_states, stateid)
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 7bff2ba..5b3b3e0 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,7 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import smoothing_gain
+from smolgp.helpers import argsort_events, smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -68,8 +68,8 @@ class IntegratedStateSpaceSolver(eqx.Module):
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
         # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        sortidx = argsort_events(t_states, stateid)
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
-- 
2.43.0


From 46be2ca3bf197f9d58cede128697e4bca116d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 15/26] fix: integer midpoints truncated the exposure start and
 end times

---
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d64f045..2c0813f 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -61,7 +61,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 5b3b3e0..580e178 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -62,7 +62,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
-- 
2.43.0


From e0fc71694b10140ca289174de273c71ef4ccdbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 16/26] fix: integer times failed in StateSpaceSolver

---
 src/smolgp/solvers/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..132e946 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -77,7 +77,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros_like(t[0]),
             k,
         )
 
-- 
2.43.0


From 41999a678a6f11de1befebe5eb142530644ccb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 17/26] fix: smoothing inverted singular covariances of idle or
 duplicate integral states

The predicted covariance includes the integral state of every instrument. Those of
idle instruments, and of exposures that start together, are nearly or exactly
linear combinations of the others, and any rounding error was then amplified
without bounds. Leave them out of the smoothing gain, which is exact because no
later data depends on them.
---
 src/smolgp/helpers.py                         | 74 +++++++++++++++----
 src/smolgp/solvers/integrated/parallel/rts.py | 11 ++-
 .../solvers/integrated/parallel/solver.py     | 13 +++-
 src/smolgp/solvers/integrated/rts.py          | 12 ++-
 src/smolgp/solvers/integrated/solver.py       | 12 ++-
 5 files changed, 92 insertions(+), 30 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 75a0642..4a4ed9b 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -12,38 +12,80 @@ def block_view(A, b):
     return A.reshape(N, b, M, b).transpose(0, 2, 1, 3)
 
 
-def argsort_events(t: JAXArray, stateid: JAXArray) -> JAXArray:
+def sort_events(t: JAXArray, stateid: JAXArray) -> tuple[JAXArray, JAXArray]:
     """
     Chronological order of exposure starts (stateid=0) and ends (stateid=1)
 
     Ends go before starts at the same time. Times that differ only by the rounding
     error of midpoint -/+ exptime/2 are the same time: back-to-back exposures would
     otherwise be reset just before they end.
+
+    Returns:
+        sortidx: Indices that sort the events
+        t_sorted: Times of the sorted events
     """
     order = jnp.argsort(t)
     tol = 4 * jnp.finfo(t.dtype).eps * jnp.max(jnp.abs(t))
     is_later = jnp.diff(t[order], prepend=t[order][:1]) > tol
     rank = jnp.zeros(t.shape, int).at[order].set(jnp.cumsum(is_later))
-    return jnp.lexsort((-stateid, rank))
+    sortidx = jnp.lexsort((-stateid, rank))
+    t_rank = jnp.full(t.shape, jnp.inf, t.dtype).at[rank].min(t)
+    return sortidx, t_rank[rank[sortidx]]
+
+
+def relevant_states(
+    kernel, t_states: JAXArray, instids: JAXArray, obsid: JAXArray, stateid: JAXArray
+) -> JAXArray:
+    """
+    Which elements of the state vector the data after each state depend on
+
+    The integral of an instrument matters only during its exposures. Of several
+    exposures that start at the same time, only the one that ends last does, because
+    the integrals of the others are copies of it. Leaving out the other elements keeps
+    the predicted covariance matrix regular.
 
+    Parameters:
+        kernel: IntegratedStateSpaceModel kernel
+        t_states, instids, obsid, stateid: time, instrument, observation and
+            start/end (0/1) of each of the K states
 
-def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
+    Returns:
+        Boolean array (K+1, dimension) where element k applies between states k-1 and k
     """
-    The RTS smoothing gain G = P @ A.T @ inv(P_pred)
+    K = len(t_states)
+    insts = jnp.arange(kernel.dimension)  # at least all of the instruments
+    is_integral = jax.vmap(lambda i: jnp.diag(kernel.reset_matrix(i)) == 0)(insts)
+    is_start = stateid == 0
+
+    # position of the start and end of each observation
+    k = jnp.arange(K)
+    k_start = jnp.zeros(K, int).at[obsid].max(jnp.where(is_start, k, 0))
+    k_end = jnp.zeros(K, int).at[obsid].max(jnp.where(is_start, 0, k))
+
+    # the last of the exposures with the same start to end
+    rank = jnp.cumsum(jnp.diff(t_states, prepend=t_states[:1]) > 0)
+    last_end = jnp.zeros(K, int).at[rank].max(jnp.where(is_start, k_end[obsid], 0))
+    counts = (k_end[obsid] == last_end[rank[k_start[obsid]]]) & (
+        k_end[obsid] > k_start[obsid]
+    )
 
-    P_pred is singular if an integral state has just been reset (zero variance) or
-    is a copy of another one (exposures that start at the same time on different
-    instruments). Inflating the variance of such a state leaves it zero gain, which
-    is exact because it adds no information to that of the other states.
+    change = jnp.where(is_start, 1, -1) * counts
+    active = jnp.cumsum(change[:, None] * is_integral[instids], axis=0) > 0
+    active = jnp.concatenate([jnp.zeros_like(active[:1]), active])
+    return active | ~jnp.any(is_integral, axis=0)
+
+
+def smoothing_gain(
+    P: JAXArray, A: JAXArray, P_pred: JAXArray, relevant: JAXArray
+) -> JAXArray:
+    """
+    The RTS smoothing gain G = P @ A.T @ inv(P_pred) in terms of the relevant
+    elements of the predicted state (the gain of the others is zero)
     """
-    var = jnp.diag(P_pred)
-    std = jnp.sqrt(jnp.abs(var))
-    tol = 8 * jnp.finfo(P_pred.dtype).eps
-    diff = jnp.abs(P_pred[:, None, :] - P_pred[None, :, :])
-    same = jnp.all(diff <= tol * std[:, None, None] * std[None, None, :], axis=-1)
-    redundant = jnp.any(jnp.tril(same, -1), axis=1) | (var == 0)
-    P_safe = P_pred + jnp.diag(jnp.where(redundant, var + 1.0, 0.0))
-    return jnp.linalg.solve(P_safe.T, (P @ A.T).T).T
+    relevant = relevant & (jnp.diag(P_pred) > 0)  # e.g. an integral just after its reset
+    P_safe = jnp.where(relevant[:, None] & relevant, P_pred, jnp.eye(len(P_pred)))
+    C = jnp.where(relevant, P @ A.T, 0.0)
+    return jnp.linalg.solve(P_safe.T, C.T).T
 
 
 def discretize(
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 5e8fda8..aadb543 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,12 +3,13 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
-from smolgp.helpers import smoothing_gain
+from smolgp.helpers import relevant_states, smoothing_gain
 
 
 def ParallelIntegratedRTSSmoother(
     kernel,
     t_states,
+    obsid,
     stateid,
     instid,
     kalman_results,
@@ -19,6 +20,7 @@ def ParallelIntegratedRTSSmoother(
     Parameters:
         kernel: StateSpaceModel kernel
         t_states: time coordinates of the states
+        obsid: which observation is being made at each state
         stateid: exposure start/end indicators
         instid: instrument IDs
         kalman_results: output from Kalman filter:
@@ -33,6 +35,7 @@ def ParallelIntegratedRTSSmoother(
     Phi_aug = kernel.transition_matrix
     Q_aug = kernel.process_noise
     RESET = kernel.reset_matrix
+    relevant = relevant_states(kernel, t_states, instid, obsid, stateid)
 
     asso_params = make_associative_params(
         Phi_aug,
@@ -41,6 +44,7 @@ def ParallelIntegratedRTSSmoother(
         t_states,
         stateid,
         instid,
+        relevant,
         m_pred,
         P_pred,
         m_filter,
@@ -60,6 +64,7 @@ def make_associative_params(
     t_states,
     stateid,
     instid,
+    relevant,
     m_pred,
     P_pred,
     m_filter,
@@ -82,6 +87,7 @@ def make_associative_params(
         mf,
         Pf,
         sid_current,
+        relevant_next,
     ):
         def end_state():
             Phik = Phi_dt
@@ -105,7 +111,7 @@ def make_associative_params(
 
         A = Phik @ Pk @ Phik.T + Qk
 
-        E = smoothing_gain(Pk, Phik, A)
+        E = smoothing_gain(Pk, Phik, A, relevant_next)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
@@ -127,6 +133,7 @@ def make_associative_params(
         m_filter[:-1],
         P_filter[:-1],
         stateid[:-1],
+        relevant[1:-1],
     )
 
     # an exposure-start is smoothed pre-reset
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 2c0813f..452c3a0 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,7 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import argsort_events, smoothing_gain
+from smolgp.helpers import relevant_states, smoothing_gain, sort_events
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -67,8 +67,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
         # enforce end times before start times at same t
-        sortidx = argsort_events(t_states, stateid)
-        t_states = jax.lax.cummax(t_states[sortidx])
+        sortidx, t_states = sort_events(t_states, stateid)
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
@@ -102,6 +101,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         return ParallelIntegratedRTSSmoother(
             self.kernel,
             t_states,
+            obsid,
             stateid,
             instid,
             kalman_results,
@@ -190,6 +190,11 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         during = ~past & ~future  # Interpolate
         cases = past.astype(int) * 0 + during.astype(int) * 1 + future.astype(int) * 2
 
+        # Elements of the state needed for smoothing
+        relevant = relevant_states(
+            self.kernel, t_states, instid[obsid], obsid, stateid
+        )
+
         # Shorthand for matrices
         A_aug = lambda dt: self.kernel.transition_matrix(0, dt)
         Q_aug = lambda dt: self.kernel.process_noise(0, dt)
@@ -226,7 +231,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next, relevant[k_next])
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index c8f3857..a0760a2 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
-from smolgp.helpers import smoothing_gain
+from smolgp.helpers import relevant_states, smoothing_gain
 
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
@@ -28,8 +28,11 @@ def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_resul
     # Model components
     A_aug = kernel.transition_matrix
     RESET = kernel.reset_matrix
+    relevant = relevant_states(kernel, t_states, instid[obsid], obsid, stateid)
 
-    return integrated_rts_smoother(A_aug, RESET, t_states, obsid, instid, stateid, *kalman_results)
+    return integrated_rts_smoother(
+        A_aug, RESET, t_states, obsid, instid, stateid, relevant, *kalman_results
+    )
 
 
 @jax.jit
@@ -40,6 +43,7 @@ def integrated_rts_smoother(
     obsid,
     instid,
     stateid,
+    relevant,
     m_filtered,
     P_filtered,
     m_predicted,
@@ -74,14 +78,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = smoothing_gain(P_k_pre, AR, P_pred_next)
+            G_k = smoothing_gain(P_k_pre, AR, P_pred_next, relevant[k + 1])
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = smoothing_gain(P_k, A_k, P_pred_next)
+            G_k = smoothing_gain(P_k, A_k, P_pred_next, relevant[k + 1])
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 580e178..b14ae50 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,7 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import argsort_events, smoothing_gain
+from smolgp.helpers import relevant_states, smoothing_gain, sort_events
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -68,8 +68,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
         # enforce end times before start times at same t
-        sortidx = argsort_events(t_states, stateid)
-        t_states = jax.lax.cummax(t_states[sortidx])
+        sortidx, t_states = sort_events(t_states, stateid)
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
@@ -185,6 +184,11 @@ class IntegratedStateSpaceSolver(eqx.Module):
         during = ~past & ~future  # Interpolate
         cases = past.astype(int) * 0 + during.astype(int) * 1 + future.astype(int) * 2
 
+        # Elements of the state needed for smoothing
+        relevant = relevant_states(
+            self.kernel, t_states, instid[obsid], obsid, stateid
+        )
+
         # Shorthand for matrices
         A_aug = lambda dt: self.kernel.transition_matrix(0, dt)
         Q_aug = lambda dt: self.kernel.process_noise(0, dt)
@@ -221,7 +225,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next, relevant[k_next])
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From 165c6fca7c401b574ddd94b88bdb369f70830689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 18/26] fix: conditioning on IntegratedCosine was NaN

The process has no process noise, so the integral since the start of an exposure
is a linear combination of the state and the predicted covariance is singular.
---
 src/smolgp/helpers.py            | 5 ++++-
 src/smolgp/kernels/integrated.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 4a4ed9b..d41688b 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -69,8 +69,11 @@ def relevant_states(
         k_end[obsid] > k_start[obsid]
     )
 
+    # the integral of a deterministic process (e.g. Cosine) is known from its state
+    counts_state = is_integral & (jnp.diag(kernel.process_noise(0.0, 1.0)) > 0)
+
     change = jnp.where(is_start, 1, -1) * counts
-    active = jnp.cumsum(change[:, None] * is_integral[instids], axis=0) > 0
+    active = jnp.cumsum(change[:, None] * counts_state[instids], axis=0) > 0
     active = jnp.concatenate([jnp.zeros_like(active[:1]), active])
     return active | ~jnp.any(is_integral, axis=0)
 
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index e49b70e..87a71fe 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -227,6 +227,11 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Qxz_long = Phibar @ Pinf[:, :1] - Phi @ Pinf @ Phibar[:1, :].T
         Qzz_long = (2 * Phibarbar @ Pinf - Phibar @ Pinf @ Phibar.T)[:1, :1]
 
+        # a deterministic process (e.g. Cosine) has no process noise
+        is_random = jnp.any(QL_aug != 0.0)
+        Qxz_long = jnp.where(is_random, Qxz_long, 0.0)
+        Qzz_long = jnp.where(is_random, Qzz_long, 0.0)
+
         Qaug12 = jnp.where(is_long, Qxz_long, Q_short[:d, d:])
         Qaug21 = Qaug12.T
         Qaug22 = jnp.where(is_long, Qzz_long, Q_short[d:, d:])
-- 
2.43.0


From 52feed03236e20a41a928e2a1d5fb0f82cc53574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 19/26] fix: gradient with respect to the quality of a
 critically damped SHO was NaN

---
 src/smolgp/kernels/base.py       | 50 +++++++++++++++++++++++---------
 src/smolgp/kernels/integrated.py |  6 ++--
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index b49f478..98af0c6 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -604,7 +604,26 @@ class SHO(StateSpaceModel):
         self.quality = quality
         self.sigma = sigma
         self.name = name
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
+        eta2 = jnp.abs(1 - 1 / (4 * self.quality**2))
+        # the square root has no derivative at critical damping
+        self.eta = jnp.where(eta2 == 0, 0.0, jnp.sqrt(jnp.where(eta2 == 0, 1.0, eta2)))
+
+    def _is_critical(self) -> JAXArray:
+        return jnp.isclose(self.quality, 0.5)
+
+    def _safe_eta(self) -> JAXArray:
+        """eta for the formulas of the under- and overdamped cases, which divide by it"""
+        return jnp.where(self._is_critical(), 1.0, self.eta)
+
+    def _critical_terms(self, dt: JAXArray) -> tuple[JAXArray, JAXArray]:
+        """
+        cos(x) and sin(x) / eta with x = eta * omega * dt, to first order in eta^2
+        so that the derivatives with respect to the quality are those of the limit
+        """
+        eta2 = 1 - 1 / (4 * self.quality**2)
+        wdt = self.omega * dt
+        x2 = eta2 * jnp.square(wdt)
+        return 1 - x2 / 2, wdt * (1 - x2 / 6)
 
     def design_matrix(self) -> JAXArray:
         """The design (also called the feedback) matrix for the SHO process, F"""
@@ -635,13 +654,14 @@ class SHO(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        n = self._safe_eta()
         w = self.omega
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            return jnp.exp(-w * dt) * jnp.array(
-                [[1 + w * dt, dt], [-jnp.square(w) * dt, 1 - w * dt]]
+            cos, sin = self._critical_terms(dt)  # sin is sin/n
+            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+                [[cos + sin / (2 * q), sin / w], [-w * sin, cos - sin / (2 * q)]]
             )
 
         def underdamped(dt: JAXArray) -> JAXArray:
@@ -665,7 +685,7 @@ class SHO(StateSpaceModel):
             )
 
         return jax.lax.cond(
-            jnp.allclose(q, 0.5),
+            self._is_critical(),
             critical,
             lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
             dt,
@@ -676,18 +696,20 @@ class SHO(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        n = self._safe_eta()
         w = self.omega
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            arg = 2 * w * dt
-            argexp = arg * jnp.exp(-arg)
-            expm1 = jnp.expm1(-arg)
-            wdt = w * dt
-            Q11 = -expm1 - argexp * (1 + wdt)
-            Q12 = Q21 = w * wdt * argexp
-            Q22 = jnp.square(w) * (-expm1 - argexp * (-1 + wdt))
+            a = w * dt / q
+            cos, sin = self._critical_terms(dt)  # sin is sin/n
+            sincos = sin * cos / q
+            sinsq = jnp.square(sin) / (2 * jnp.square(q))
+            exp = jnp.exp(-a)
+            expm1 = jnp.expm1(-a)
+            Q11 = -expm1 - (sincos + sinsq) * exp
+            Q12 = Q21 = 2 * w * q * sinsq * exp
+            Q22 = jnp.square(w) * (-expm1 + (sincos - sinsq) * exp)
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         def underdamped(dt: JAXArray) -> JAXArray:
@@ -725,7 +747,7 @@ class SHO(StateSpaceModel):
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-            jnp.allclose(q, 0.5),
+            self._is_critical(),
             critical,
             lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
             dt,
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 87a71fe..d27828b 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -320,18 +320,18 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         self.omega = omega
         self.quality = quality
         self.sigma = sigma
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
 
         # Base model
         self.base_model = smolgp.kernels.SHO(
             omega=self.omega, quality=self.quality, sigma=self.sigma
         )
+        self.eta = self.base_model.eta
 
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The integrated transition matrix Phibar for the SHO process"""
 
         # Shorthand notations
-        n = self.eta
+        n = self.base_model._safe_eta()
         w = self.omega
         q = self.quality
         a = -0.5 * w / q
@@ -397,7 +397,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        n = self.base_model._safe_eta()
         w = self.omega
         q = self.quality
         a = -0.5 * w / q
-- 
2.43.0


From 7b67cd31e15309ebac53648b875ff3964b0f88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 20/26] fix: kernel(X), the variance at each coordinate, raised
 for state space kernels

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 98af0c6..ff132d1 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From f86eb50287887f61919c46f270535f4b0316ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 21/26] fix: matrix exponentials were NaN at long lags or in
 large units

---
 src/smolgp/helpers.py      | 9 ++++++---
 src/smolgp/kernels/base.py | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index d41688b..69178e9 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -3,6 +3,9 @@ import jax.numpy as jnp
 from jax.scipy.linalg import expm
 from tinygp.helpers import JAXArray
 
+# jax's default of 16 makes the exponential NaN at long lags or in large units
+MAX_SQUARINGS = 48
+
 
 def block_view(A, b):
     Nb, Mb = A.shape
@@ -148,7 +151,7 @@ def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXA
     b = len(F)  # block size
     Z = jnp.zeros_like(F)
     C = jnp.block([[-F, QL], [Z, F.T]])
-    VanLoanBlock = expm(C * dt)
+    VanLoanBlock = expm(C * dt, max_squarings=MAX_SQUARINGS)
     G2 = VanLoanBlock[:b, b:]
     F3 = VanLoanBlock[b:, b:]
     return F3.T @ G2
@@ -173,7 +176,7 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     Z = jnp.zeros((b, b))
     I = jnp.eye(b)
     C = jnp.block([[F, I], [Z, Z]])
-    VanLoanBlock = expm(C * dt)
+    VanLoanBlock = expm(C * dt, max_squarings=MAX_SQUARINGS)
     G3 = VanLoanBlock[:b, b:]
     return G3
 
@@ -210,7 +213,7 @@ def VanLoan(
             [Z, Z, Z, Z],
         ]
     )
-    VanLoanBlock = block_view(expm(C * dt), b)
+    VanLoanBlock = block_view(expm(C * dt, max_squarings=MAX_SQUARINGS), b)
 
     F1 = VanLoanBlock[0, 0]
     G1 = VanLoanBlock[0, 1]
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ff132d1..27e3a75 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -26,7 +26,7 @@ from tinygp.helpers import JAXArray
 from tinygp.kernels.base import Kernel
 from tinygp.solvers.quasisep.block import Block
 
-from smolgp.helpers import Q_from_VanLoan
+from smolgp.helpers import MAX_SQUARINGS, Q_from_VanLoan
 
 
 def extract_leaf_kernels(kernel, all=False):
@@ -133,7 +133,7 @@ class StateSpaceModel(Kernel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return expm(F * dt)
+        return expm(F * dt, max_squarings=MAX_SQUARINGS)
 
     def process_noise(self, X1: JAXArray, X2: JAXArray, use_van_loan=False) -> JAXArray:
         """
-- 
2.43.0


From 77bd6edeff1e69158a47bc27967c2a2f08090683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 22/26] fix: kernels derived from IntegratedSHO recursed
 without end

---
 src/smolgp/kernels/integrated.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index d27828b..4129e70 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -258,8 +258,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
         if force_numerical:
-            Qaug12, Qaug21, Qaug22 = super(type(self), self).integrated_process_noise(
-                X1, X2
+            Qaug12, Qaug21, Qaug22 = IntegratedStateSpaceModel.integrated_process_noise(
+                self, X1, X2
             )
         else:
             Qaug12, Qaug21, Qaug22 = self.integrated_process_noise(X1, X2)
@@ -343,7 +343,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_transition_matrix(t1, t2)
+            return super(IntegratedSHO, self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -378,7 +378,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_transition_matrix(t1, t2)
+            return super(IntegratedSHO, self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
@@ -407,7 +407,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(dt: JAXArray) -> JAXArray:
             # TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return super(IntegratedSHO, self).integrated_process_noise(0, dt)
 
         def underdamped(dt: JAXArray) -> JAXArray:
             x = a * dt
@@ -442,7 +442,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return super(IntegratedSHO, self).integrated_process_noise(0, dt)
 
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
-- 
2.43.0


From 4a39fe5bd9ec6c77ae44a790339abc3f8dc5538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 23/26] fix: predict(kernel=index), as documented, raised

---
 src/smolgp/gp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 8fb25b2..fd16f8a 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -631,6 +631,9 @@ class GaussianProcess(eqx.Module):
             respectively.
         """
 
+        if isinstance(kernel, int):
+            kernel = extract_leaf_kernels(self.kernel)[kernel]
+
         if self.states is None:
             # Need to condition the GP first
             assert y is not None, (
-- 
2.43.0


From 0e2f8463be6c1a5eb71b47ea37879097e09cf899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 24/26] fix: evaluate the covariance with the observation model
 of each instant

The branch for X1 < X2 had the observation models of the two instants swapped, so that
the covariance matrix was not symmetric for a model that is not observed the same way
at all times.
---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 27e3a75..7123ce7 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From 788a25fa2aaa66b3d8e6de33cabc0e92a46fd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 25/26] fix: rename kernels whose __init__ does not take their
 fields

dataclasses.replace calls __init__ with the fields of the kernel. Two terms of a sum built
from a user's kernel (e.g. a subclass of SHO with its own parameters) raised TypeError, or
got their parameters transformed twice.
---
 src/smolgp/gp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index fd16f8a..5511df8 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import copy
 from collections.abc import Sequence
 from functools import partial
 from typing import (
@@ -28,8 +29,6 @@ from smolgp.solvers.integrated import ParallelIntegratedStateSpaceSolver
 if TYPE_CHECKING:
     from tinygp.numpyro_support import TinyDistribution
 
-import dataclasses
-
 
 def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     """
@@ -59,7 +58,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             while (newname := f"{k.name}_{used[k.name]}") in counts:
                 used[k.name] += 1
             used[k.name] += 1
-            return dataclasses.replace(k, name=newname)
+            # not dataclasses.replace, as the arguments of a
+            # user's __init__ need not be the fields it sets
+            renamed = copy.copy(k)
+            object.__setattr__(renamed, "name", newname)
+            return renamed
         else:
             # Single occurrence: leave unchanged
             return k
-- 
2.43.0


From 6900a4018259cd9cd92b494d8a621947b7cce598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 26/26] fix: error_bound of ExpSineSquared bounds the error for
 every gamma and sigma

---
 src/smolgp/kernels/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 7123ce7..df7f156 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1198,10 +1198,12 @@ class ExpSineSquared(Wrapper):
         An upper bound on the error in the covariance
         from the Taylor series approximation.
 
+        The terms left out are cosines with positive coefficients,
+        so their sum is largest at zero lag, where the full series is 1.
         See Sec 3.4 of Solin & Särkkä (2014).
         """
-        J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        kept = jnp.trace(self.kernel.stationary_covariance()) / 2
+        return jnp.square(self.sigma) * jnp.maximum(1 - kept, 0.0)
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0

