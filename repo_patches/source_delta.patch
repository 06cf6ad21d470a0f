From 019fa6ee1be18e89cf1e12bb6e3ab4e20faed73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 01/26] fix: generic prior transition used jnp.trapezoid,
 absent from the supported JAX (AttributeError)

---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From dead6f04838a08d1605a14ba705fcd97f92c045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 02/26] fix: Matern companion drift used inverse powers of
 lambda, wrong unless lambda = 1

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 516da0a1b764c8921c013fc71dba30b398d24ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 03/26] fix: euler_maruyama_pathwise(standard=True) scaled the
 caller's increments in place

---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From 16db45119411275cbf10c94c20dfae7c481bd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 04/26] fix: 1.5 Taylor scheme mixed coordinates and dropped a
 factor dW in the multiplicative-noise terms

---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..6a63d59 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,11 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + jnp.diag(laplacesigma(x)))
+                @ ((1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k)
         )
         return out, out
 
-- 
2.43.0


From 13f4ce32ac9f47d16ad4349544675a71b425a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 05/26] fix: sign of alpha in the FitzHugh-Nagumo second-order
 mean

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..5125754 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From 0683c4d041ffd25b9d1d60630121b5d5a90c8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 06/26] fix: synaptic conductance local moments used the wrong
 state coordinates

---
 bayesian_sde_solver/utils/ivp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 5125754..444384c 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -329,7 +329,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
@@ -337,7 +337,7 @@ def synaptic_conductance():
 
     def theoretical_variance_up_to_order_3_first_coordinate(t):
         return (t ** 3 / (3 * C ** 2) * (
-                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[2]
+                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[1]
                 + (x0[0] - V_I) ** 2 * sig_I ** 2 * x0[2]))
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2, theoretical_variance_up_to_order_3_first_coordinate
-- 
2.43.0


From 0aac8742a3214ee8e23576a19c0bdbd5d736ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 07/26] fix: reduced synaptic conductance read out-of-range
 state coordinates

---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 444384c..dc2c573 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From 12fefc3cccc053f1d47afd3bf33254095136378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 08/26] fix: parabola of the sampled Brownian path integrated a
 shifted path, with an out-of-bounds index

---
 bayesian_sde_solver/foster_polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..d06fff4 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -38,9 +38,10 @@ def get_approx_and_brownian(dim=1, N=1000):
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(0, N + 1)
 
         eps_0 = bm.at[-1].get()
+        bm = jnp.concatenate([jnp.zeros((1, dim)), bm], axis=0)  # the path starts at 0
 
         @jax.vmap
         def integrand(i):
-- 
2.43.0


From 5571ec51130b4249aba00d5e7bce000509baac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 09/26] fix: marginal parabola filter never passed the prior
 mean increment to the EKF (TypeError)

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..3fd32b9 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -89,10 +89,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.tile(jnp.concatenate([one_block_transition_incr, jnp.zeros(2)]), dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 5f1062b3c3d83d272c969bd418b51cfcf8cfeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 10/26] fix: ekf0 and ekf1 crashed with their default prior

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 2 +-
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..d0635dd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,7 +11,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..8fa3054 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From ac2281b4afa5e58064d34943db72828a69be2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 11/26] fix: ekf0 and ekf1 initialised the second derivative
 without the time derivative of the vector field

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 3 ++-
 bayesian_sde_solver/ode_solvers/ekf1.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index d0635dd..6215e76 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -24,7 +24,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 8fa3054..d6821bf 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -21,7 +21,8 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
-- 
2.43.0


From 47fd61c3442764e57f5cdf382f8c599c89db130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 12/26] fix: initial state of ekf0 (crash) and ekf1 (wrong
 coordinates) for priors of order 3 and more

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 6215e76..a59bb02 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -32,9 +32,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index d6821bf..1a751b3 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -28,9 +28,10 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 1d7ae017b3f9cf7d8ab7eea2f57c81b4d7b78992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 13/26] fix: matrix square roots of singular covariances gave
 NaN states and samples in the Gaussian filters

---
 bayesian_sde_solver/ode_solvers/ekf0.py             |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf0_2.py           |  8 ++++----
 bayesian_sde_solver/ode_solvers/ekf1.py             |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf1_2.py           |  8 ++++----
 bayesian_sde_solver/ode_solvers/probnum/__init__.py |  2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 11 +++++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py             |  5 ++---
 bayesian_sde_solver/ssm_parabola/ekf0.py            |  4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py            |  4 ++--
 9 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index a59bb02..170e1fe 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
@@ -39,7 +38,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..84504ad 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -21,7 +20,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_10 = H @ P_00
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        L_00 = psd_sqrt(P_00)
+        var = interlace_matrix(L_00, jnp.zeros_like(L_00), H @ L_00, jnp.zeros_like(L_00))
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -36,7 +36,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 1a751b3..fa6cd68 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
@@ -36,7 +35,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..9f74b23 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -26,7 +25,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_01 = P_00 @ H.T
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        L_00 = psd_sqrt(P_00)
+        var = interlace_matrix(L_00, jnp.zeros_like(L_00), H @ L_00, jnp.zeros_like(L_00))
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -41,7 +41,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..aa05cb6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, psd_sqrt
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..4540e95 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -27,3 +27,14 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())
     _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())
     return _var
+
+
+def psd_sqrt(P: ArrayLike) -> ArrayLike:
+    """
+    Square root L, such that L @ L.T = P, of a positive semi-definite and possibly singular matrix P.
+    The matrix is first scaled to unit diagonal, such that each coordinate is resolved at its own scale.
+    """
+    scale = jnp.sqrt(jnp.clip(jnp.diag(P), 0.0))
+    scale = jnp.where(scale > 0.0, scale, 1.0)
+    eigvals, eigvecs = jnp.linalg.eigh(P / jnp.outer(scale, scale))
+    return scale[:, None] * eigvecs * jnp.sqrt(jnp.clip(eigvals, 0.0))
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 3fd32b9..55dc26d 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,10 +1,9 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -77,7 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
+        var = psd_sqrt(var)
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 4ad9bd2..7205b12 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 2117f28..b396e71 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From da4d2489faf43228d1db078b4dcad641c12ccade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 14/26] fix: square-root filters returned NaN for zero-padded
 (singular) prior covariances

---
 bayesian_sde_solver/ode_solvers/ekf.py  | 4 ++--
 bayesian_sde_solver/ssm_parabola/ekf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..865c448 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
+from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, psd_sqrt
 from bayesian_sde_solver.ode_solvers.probnum import ekf
 
 
@@ -44,7 +44,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        transition_covariance = psd_sqrt(transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 55dc26d..f38b72c 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -75,7 +75,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         ) = prior
 
     if sqrt:
-        one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        one_block_transition_covariance = psd_sqrt(one_block_transition_covariance)
         var = psd_sqrt(var)
     init = (mean, var)
 
-- 
2.43.0


From 5d6cd08fea0836a568ccf40d20f44ddcb7a95b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 15/26] fix: square-root filters took the observation noise
 covariance for its square root

---
 bayesian_sde_solver/ode_solvers/ekf.py  | 1 +
 bayesian_sde_solver/ssm_parabola/ekf.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 865c448..c724812 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -45,6 +45,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         ) = prior
     if sqrt:
         transition_covariance = psd_sqrt(transition_covariance)
+        noise = psd_sqrt(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index f38b72c..ef034f9 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -77,6 +77,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
     if sqrt:
         one_block_transition_covariance = psd_sqrt(one_block_transition_covariance)
         var = psd_sqrt(var)
+        noise = psd_sqrt(noise)
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
-- 
2.43.0


From 2eee58ddb5a9af57253eae1f0d6d9c9723e3abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 16/26] fix: closed-form Matern-3/2 covariance cancelled to
 noise (even negative) for small steps in single precision

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index d3b99a6..6fc6c36 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -2,6 +2,7 @@ from math import comb
 from typing import Tuple
 
 import jax.numpy as jnp
+from jax.scipy.special import gammainc
 from numpy.typing import ArrayLike
 
 from bayesian_sde_solver.ode_solvers.probnum.transition_function import \
@@ -50,13 +51,13 @@ ArrayLike]:
                         jnp.exp(-dt * lambda_param) * (1 - lambda_param * dt)]])
         A = jnp.kron(jnp.eye(dim), A)
 
-        Q = magnitude ** 2 * jnp.array([[(1 + jnp.exp(-2 * dt * lambda_param) * (
-                -1. - 2 * dt * lambda_param * (1 + dt * lambda_param))) / (4 * lambda_param ** 3),
+        # 1 - exp(-2x) * (1 + 2x + 2x^2), x = dt * lambda, is the incomplete gamma function, free of cancellations.
+        Q = magnitude ** 2 * jnp.array([[gammainc(3.0, 2 * dt * lambda_param) / (4 * lambda_param ** 3),
                                          0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2],
                                         [0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2,
-                                         jnp.exp(-2 * dt * lambda_param) * (
-                                                 -1 + jnp.exp(2 * dt * lambda_param) - 2 * dt * lambda_param * (
-                                                 -1 + dt * lambda_param)) / (4 * lambda_param)]])
+                                         (-jnp.expm1(-2 * dt * lambda_param)
+                                          - 2 * dt * lambda_param * jnp.exp(-2 * dt * lambda_param) * (
+                                                  -1 + dt * lambda_param)) / (4 * lambda_param)]])
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.zeros(dim * 2)
     else:
-- 
2.43.0


From 4c76ce0488bd27a43aee0dfb40fd5da30c605054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 17/26] fix: random_linear_sde drew its drift and diffusion
 matrices from the same key

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index dc2c573..e39453b 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0


From e7165b5337bec2dede78a983eeba934a3552d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 18/26] fix: psd_sqrt root depended on rounding when
 eigenvalues coincide, so draws differed between eager and compiled calls

---
 bayesian_sde_solver/ode_solvers/probnum/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 4540e95..f61f1b4 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -33,8 +33,9 @@ def psd_sqrt(P: ArrayLike) -> ArrayLike:
     """
     Square root L, such that L @ L.T = P, of a positive semi-definite and possibly singular matrix P.
     The matrix is first scaled to unit diagonal, such that each coordinate is resolved at its own scale.
+    The scaled root is the symmetric one, which unlike eigenvectors does not depend on rounding when eigenvalues coincide.
     """
     scale = jnp.sqrt(jnp.clip(jnp.diag(P), 0.0))
     scale = jnp.where(scale > 0.0, scale, 1.0)
     eigvals, eigvecs = jnp.linalg.eigh(P / jnp.outer(scale, scale))
-    return scale[:, None] * eigvecs * jnp.sqrt(jnp.clip(eigvals, 0.0))
+    return scale[:, None] * (eigvecs * jnp.sqrt(jnp.clip(eigvals, 0.0)) @ eigvecs.T)
-- 
2.43.0


From 68b1004e9a2200edd9b2398a4df025d616e7600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 19/26] fix: strong_convergence_parabola_ode imports the
 progress bar under its name

---
 scripts/strong_convergence_parabola_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/strong_convergence_parabola_ode.py b/scripts/strong_convergence_parabola_ode.py
index edbac5d..27ab15e 100644
--- a/scripts/strong_convergence_parabola_ode.py
+++ b/scripts/strong_convergence_parabola_ode.py
@@ -1,5 +1,5 @@
 from functools import partial
-from bayesian_sde_solver.utils.progress_bar import progress_bar_scan
+from bayesian_sde_solver.utils.progress_bar import progress_bar
 
 import jax
 import jax.numpy as jnp
@@ -44,7 +44,7 @@ def experiment(delta, N, M, fine):
         init = x0
         get_coeffs, eval_fn = bm()
 
-        @progress_bar_scan(num_samples=N, message=f"N={N}")
+        @progress_bar(num_samples=N, message=f"N={N}")
         def body(x, inp):
             x1, x2 = x
             _, key_k, t_k = inp
-- 
2.43.0


From 93f3c295a6f0e8cb8fbd0d66cdc107acfbb5de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 20/26] fix: Algorithm 3 experiments keep every Euler-Maruyama
 reference path

---
 scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/pathwise_convergence_experiment_2_RAM_2.py          | 1 -
 4 files changed, 4 deletions(-)

diff --git a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
index de0eeb1..b5be4c3 100644
--- a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
@@ -115,7 +115,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
index b23762b..7e6a723 100644
--- a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -117,7 +117,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
index e46bf60..3054129 100644
--- a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -118,7 +118,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/pathwise_convergence_experiment_2_RAM_2.py b/scripts/pathwise_convergence_experiment_2_RAM_2.py
index 83f5ad2..d9ce46d 100644
--- a/scripts/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/pathwise_convergence_experiment_2_RAM_2.py
@@ -121,7 +121,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
-- 
2.43.0


From 6f75e8a1d3a856de01f02c15b88f86e5550128fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 21/26] fix: pathwise_convergence_experiment_2 passes no noise
 instead of a 1x1 one

---
 scripts/pathwise_convergence_experiment_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pathwise_convergence_experiment_2.py b/scripts/pathwise_convergence_experiment_2.py
index d01054c..4593fae 100644
--- a/scripts/pathwise_convergence_experiment_2.py
+++ b/scripts/pathwise_convergence_experiment_2.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine):
     keys = jax.random.split(JAX_KEY, 1_0000)
 
     prior = IOUP_transition_function(theta=0.0, sigma=1.0, dt=delta / M, q=1, dim=x0.shape[0])
-    solver = partial(_solver, prior=prior, noise=jnp.array([[0.0]]))
+    solver = partial(_solver, prior=prior, noise=None)
 
     def wrapped(_key, init, vector_field, T):
         return solver(_key, init=init, vector_field=vector_field, h=T / M, N=M)
-- 
2.43.0


From fbbc22bd466745ffc16d4b96d5f8478e6f99c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 22/26] fix: local order experiment tells Euler-Maruyama its
 increments are standardised

---
 scripts/local_order_experiment_from_scratch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/local_order_experiment_from_scratch.py b/scripts/local_order_experiment_from_scratch.py
index 11bc76f..25ab816 100644
--- a/scripts/local_order_experiment_from_scratch.py
+++ b/scripts/local_order_experiment_from_scratch.py
@@ -77,7 +77,7 @@ def experiment(delta, N):
 
         fine_incs *= jnp.sqrt(1 / fine_delta)  # normalizing them to var. 1, needed for euler_maruyama_pathwise
         _, X_DELTA_EULER = euler_maruyama_pathwise(fine_incs, init=init_x0, drift=drift, sigma=sigma, h=fine_delta,
-                                                   N=fine_N)  # solving using EM scheme this path
+                                                   N=fine_N, standard=True)  # solving using EM scheme this path
         X_DELTA_EULER = X_DELTA_EULER[-1]  # taking last value, corresponding to X^{eu}_{delta} with h = fine_delta
 
         # in case we know the closed formula:
-- 
2.43.0


From 35f7eb822dd84bb902d9150ceb00bb6bae41fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 23/26] fix: linear SDE experiment integrates over the fine
 grid

---
 scripts/breaking_multidimensionnal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/breaking_multidimensionnal.py b/scripts/breaking_multidimensionnal.py
index 2512dce..5906ac6 100644
--- a/scripts/breaking_multidimensionnal.py
+++ b/scripts/breaking_multidimensionnal.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine, dim):
     sigma_matrix = sigma(jnp.identity(n=dim), 0.0)
     transition_matrix = jlinalg.expm(drift_matrix * delta)
     init = x0
-    fine_ts = jnp.arange(0, delta, M)
+    fine_ts = jnp.linspace(0, delta, fine, endpoint=False)
     def sde_solver(
             key,
             drift: Callable,
-- 
2.43.0


From ac2855a910e7a7bd7c2c27ba5a25452a5e520508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 24/26] fix: calibrated run scales the prior the diffusion was
 estimated under

---
 .../sampling_from_posterior_alg3/uncertainty_calibration.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
index 0468d61..2afb186 100644
--- a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
+++ b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
@@ -163,10 +163,11 @@ for n in range(len(Ndeltas)):
     fine = int(fineN[n])
 
     # Non calibrated
+    sigma_prior = jnp.sqrt(10)
     problem_name = "FHN_uncalibrated"
     prefix = f"{solver_name}_{problem_name}"
     mean, var, s_fine, s_em, s_parabola_ode, fine_incs, \
-        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=jnp.sqrt(10))
+        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=sigma_prior)
     #jnp.save(f'{folder}/{prefix}_sampled_sols_{N}_{M}', sampled_sols)
     jnp.save(f'{folder}/{prefix}_mean_pn_{N}_{M}', mean)
     jnp.save(f'{folder}/{prefix}_var_pn_{N}_{M}', var)
@@ -182,7 +183,7 @@ for n in range(len(Ndeltas)):
     problem_name = "FHN_calibrated"
     prefix = f"{solver_name}_{problem_name}"
     mean, var, s_fine, s_em, s_parabola_ode, fine_incs, \
-        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=mle_diffusion_coeff**0.5)
+        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=sigma_prior * mle_diffusion_coeff**0.5)
     # jnp.save(f'{folder}/{prefix}_sampled_sols_{N}_{M}', sampled_sols)
     jnp.save(f'{folder}/{prefix}_mean_pn_{N}_{M}', mean)
     jnp.save(f'{folder}/{prefix}_var_pn_{N}_{M}', var)
-- 
2.43.0


From 5b108a8fafb80b4000a55512d2fe53d2cd4534fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 25/26] fix: posterior samples use the lower Cholesky factor of
 the covariance

---
 .../pathwise_sampling_from_posterior.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
index 0d234a8..98d57c5 100644
--- a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
+++ b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
@@ -108,7 +108,7 @@ def experiment(delta, N, M, fine, no_samples):
 
     @partial(jnp.vectorize, signature='(n)->(m)')
     def sample(key_sample):
-        return mean + jlinalg.cholesky(var) @ jax.random.normal(key_sample, shape=mean.shape)
+        return mean + jlinalg.cholesky(var, lower=True) @ jax.random.normal(key_sample, shape=mean.shape)
 
     KEY_SAMPLES = jax.random.split(JAX_KEY, no_samples)
     sampled_sols = sample(KEY_SAMPLES) # samples from PN posteriors
-- 
2.43.0


From 6fb1f123070d492cd76b0e0d9f899d41056ef54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 26/26] fix: keep the covariance form of the Kalman update
 symmetric

---
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index c2d6937..2ac0251 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -40,6 +40,7 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
     K = (S_invH @ P_or_cholP).T
     b = m - K @ c
     C = P_or_cholP - K @ H @ P_or_cholP
+    C = (C + C.T) / 2  # rounding would otherwise let an antisymmetric part grow along the recursion
     return (b, C), S if return_S else None
 
 
-- 
2.43.0

