From c2138017f2b954e3c30712b7fa95e3de85232c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:45 +0000
Subject: [PATCH 01/63] fix: AffineLinear log-Jacobian is NaN for negative
 scales

---
 src/bijx/bijections/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 8334975..1477c5c 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -498,7 +498,7 @@ class AffineLinear(ScalarBijection):
         )
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.broadcast_to(jnp.log(self.scale.get_value()), jnp.shape(x))
+        return jnp.broadcast_to(jnp.log(jnp.abs(self.scale.get_value())), jnp.shape(x))
 
     def fwd(self, x, **kwargs):
         return self.scale.get_value() * x + self.shift.get_value()
-- 
2.43.0


From c64be18494195a5bf936e373a72ec31b344b1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 02/63] fix: CondInverse.invert() was shadowed by the flag
 attribute

---
 src/bijx/bijections/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/base.py b/src/bijx/bijections/base.py
index 36a727b..a52fb77 100644
--- a/src/bijx/bijections/base.py
+++ b/src/bijx/bijections/base.py
@@ -154,12 +154,13 @@ class CondInverse(Bijection):
     """
 
     def __init__(self, bijection: Bijection, invert: bool = True):
-        self.invert = Const(jnp.array(invert, dtype=bool))
+        # not named "invert": that would shadow the method of the same name
+        self.inverted = Const(jnp.array(invert, dtype=bool))
         self.bijection = bijection
 
     def forward(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted.get_value(),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             x,
@@ -169,7 +170,7 @@ class CondInverse(Bijection):
 
     def reverse(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted.get_value(),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             x,
@@ -178,7 +179,7 @@ class CondInverse(Bijection):
         )
 
     def invert(self):
-        return CondInverse(self.bijection, ~self.invert)
+        return CondInverse(self.bijection, ~self.inverted.get_value())
 
 
 class Inverse(Bijection):
-- 
2.43.0


From c94dd159ce597502ff04203f4e73d88e2f97e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 03/63] fix: pass keyword arguments of scalar bijections on to
 log_jac

---
 src/bijx/bijections/analytic.py | 6 +++---
 src/bijx/bijections/scalar.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 1a01bce..11a3d03 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -89,7 +89,7 @@ class CubicRational(ScalarBijection):
             transform=loc_transform,
         )
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         x = x - self.loc.get_value()
         bx1 = self.beta.get_value() * x**2 + 1
         return -jnp.log(bx1) + jnp.log(
@@ -281,7 +281,7 @@ class SinhConjugation(ScalarBijection):
         nu = self.nu.get_value()
         return alpha, beta, loc, mu, nu
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         alpha, beta, loc, mu, nu = self._params()
         a = (x - loc) / alpha
         return log_grad_sinh_nonlinearity(a, beta, mu, nu)
@@ -359,7 +359,7 @@ class CubicConjugation(ScalarBijection):
         b = self.b.get_value()
         return beta, loc, a, b
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         beta, loc, a, b = self._params()
         return log_grad_cubic_nonlinearity(x - loc, a, b, beta)
 
diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 1477c5c..afc3826 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -155,7 +155,7 @@ class ScalarBijection(Bijection):
             Tuple of (transformed_data, updated_log_density).
         """
         y = self.fwd(x, **kwargs)
-        return y, sum_log_jac(x, log_density, -self.log_jac(x, y))
+        return y, sum_log_jac(x, log_density, -self.log_jac(x, y, **kwargs))
 
     def reverse(self, y, log_density, **kwargs):
         """Apply reverse transformation with log-density update.
@@ -172,7 +172,7 @@ class ScalarBijection(Bijection):
             Tuple of (inverse_transformed_data, updated_log_density).
         """
         x = self.rev(y, **kwargs)
-        return x, sum_log_jac(x, log_density, self.log_jac(x, y))
+        return x, sum_log_jac(x, log_density, self.log_jac(x, y, **kwargs))
 
 
 class GaussianCDF(ScalarBijection):
@@ -289,7 +289,7 @@ class Sigmoid(ScalarBijection):
         >>> y, log_det = bijection.forward(x, jnp.zeros(3))
     """
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         return jnp.log(y) + jnp.log(1 - y)
 
     def fwd(self, x, **kwargs):
-- 
2.43.0


From 1e42431cd6ebb2f0518d890fe175e417df9845f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 04/63] fix: accept shared keyword arguments in shape, mask and
 ray bijections

---
 src/bijx/bijections/coupling.py |  4 ++--
 src/bijx/bijections/meta.py     |  4 ++--
 src/bijx/bijections/radial.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 07ceaf0..1927748 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -221,7 +221,7 @@ class BinaryMask(Bijection):
 
         return output
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         """Split input as bijection forward pass.
 
         When used as a bijection, forward pass splits the input into
@@ -236,7 +236,7 @@ class BinaryMask(Bijection):
         """
         return self.split(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         """Merge parts as bijection reverse pass.
 
         When used as a bijection, reverse pass merges the split parts
diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index be5beb0..0acba97 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -43,10 +43,10 @@ class MetaLayer(Bijection):
         self._forward = forward
         self._reverse = reverse
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         return self._forward(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         return self._reverse(x), log_density
 
 
diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 23c656d..897074a 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -31,14 +31,14 @@ class RayTransform(Bijection):
     def __init__(self, bijection: Bijection):
         self.bijection = bijection
 
-    def forward(self, x, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        y, ld = self.bijection.forward(x, ld)
+    def forward(self, x, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
-    def reverse(self, y, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        return self.bijection.reverse(y + offset, ld)
+    def reverse(self, y, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
 class Radial(ApplyBijection):
-- 
2.43.0


From 6bc2b9295a4cda9a09933eb62675dcbc7cab7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 05/63] fix: Reshape between scalar and size-one event shapes

---
 src/bijx/bijections/meta.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 0acba97..893e2c4 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -138,15 +138,17 @@ class Reshape(MetaLayer):
 
     def _forward(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.from_shape)]
-        from_shape = shape[-len(self.from_shape) :]
+        batch_rank = len(shape) - len(self.from_shape)
+        batch_shape = shape[:batch_rank]
+        from_shape = shape[batch_rank:]
         assert from_shape == self.from_shape
         return jnp.reshape(x, batch_shape + self.to_shape)
 
     def _reverse(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.to_shape)]
-        to_shape = shape[-len(self.to_shape) :]
+        batch_rank = len(shape) - len(self.to_shape)
+        batch_shape = shape[:batch_rank]
+        to_shape = shape[batch_rank:]
         assert to_shape == self.to_shape
         return jnp.reshape(x, batch_shape + self.from_shape)
 
-- 
2.43.0


From 51014a7f038d11862154a337f8323a3779a26945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 06/63] fix: Partial cannot bind array-valued keyword arguments

---
 src/bijx/bijections/meta.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 893e2c4..1d8478d 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -16,7 +16,10 @@ Key components:
 import typing as tp
 from functools import partial
 
+import jax
 import jax.numpy as jnp
+import numpy as np
+from flax import nnx
 
 from .base import Bijection
 
@@ -172,13 +175,22 @@ class Partial(Bijection):
             **kwargs: Keyword arguments to fix for all calls.
         """
         self.bijection = bijection
-        self.kwargs = kwargs
+        # arrays are pytree data; everything else stays static
+        self.array_kwargs = nnx.data(
+            {
+                k: v
+                for k, v in kwargs.items()
+                if any(
+                    isinstance(leaf, jax.Array | np.ndarray)
+                    for leaf in jax.tree.leaves(v)
+                )
+            }
+        )
+        self.kwargs = {k: v for k, v in kwargs.items() if k not in self.array_kwargs}
 
     def _kwargs(self, kwargs):
         """Update default kwargs with additional kwargs."""
-        full_kwargs = self.kwargs.copy()
-        full_kwargs.update(kwargs)
-        return full_kwargs
+        return {**self.kwargs, **self.array_kwargs, **kwargs}
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation with fixed and additional kwargs.
-- 
2.43.0


From 36abd375e0efa0e67336b533373e80792bac395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 07/63] fix: MonotoneRQSpline ignored its minimum width, height
 and slope settings

---
 src/bijx/bijections/splines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index 13b39be..bf44e25 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -325,6 +325,9 @@ class MonotoneRQSpline(ApplyBijection):
             self.heights,
             self.slopes,
             inverse=reverse,
+            min_bin_width=self.min_bin_width,
+            min_bin_height=self.min_bin_height,
+            min_slope=self.min_slope,
         )
 
         return y, log_density - jnp.sum(log_jac, axis=si.event_axes)
-- 
2.43.0


From e83b54be0429fb5a266816f40451d05a44da464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:29 +0000
Subject: [PATCH 08/63] fix: BinaryMask.merge cast the secondary part to the
 primary dtype

---
 src/bijx/bijections/coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 1927748..9921c65 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -211,7 +211,8 @@ class BinaryMask(Bijection):
 
         # Output shape: (*batch_dims, *event_shape, *channel_dims)
         output_shape = batch_shape + self.event_shape + channel_shape
-        output = jnp.zeros(output_shape, dtype=primary.dtype)
+        dtype = jnp.result_type(primary, secondary)
+        output = jnp.zeros(output_shape, dtype=dtype)
 
         primary_idx = self.indices(extra_channel_dims, batch_safe=True, primary=True)
         secondary_idx = self.indices(extra_channel_dims, batch_safe=True, primary=False)
-- 
2.43.0


From 22bb2ccd6c9ea909b3e1ab5f53f9853d17b3cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 09/63] fix: RayTransform failed for bijections with
 array-valued parameters

---
 src/bijx/bijections/radial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 897074a..5f679c6 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -32,12 +32,16 @@ class RayTransform(Bijection):
         self.bijection = bijection
 
     def forward(self, x, ld, **kwargs):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        offset, _ = self.bijection.forward(
+            jnp.zeros_like(x), jnp.zeros_like(ld), **kwargs
+        )
         y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
     def reverse(self, y, ld, **kwargs):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        offset, _ = self.bijection.forward(
+            jnp.zeros_like(y), jnp.zeros_like(ld), **kwargs
+        )
         return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
-- 
2.43.0


From 2e47867560a9e561c3c5ce1534350202bad42fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 10/63] fix: ContFlowRK4 ignored the length of the integration
 window

---
 src/bijx/bijections/continuous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 63e6336..0d10e65 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -219,13 +219,13 @@ class ContFlowRK4(Bijection):
         steps = steps if steps is not None else self.steps
 
         delta_t = t_end - t_start
-        sgn = jnp.where(delta_t < 0, -1.0, 1.0)
 
         def vf(s, state, args):
             x, log_density = state
             t = t_start + s * delta_t
+            # chain rule for rescaled time: dx/ds = delta_t * dx/dt
             dx_dt, dld_dt = jax.tree.map(
-                lambda x: sgn * x,
+                lambda x: delta_t * x,
                 self.vf(t, x, **args),
             )
             return dx_dt, dld_dt
-- 
2.43.0


From 416b995e16577f9d084f6d39b7c3ff91c3beec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 11/63] fix: reverse of continuous flows failed with start/end
 time overrides

---
 src/bijx/bijections/continuous.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 0d10e65..879e28b 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -130,11 +130,12 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(x, log_density, **kwargs)
         return jax.tree.map(lambda x: x[-1], sol.ys)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         """Solve the ODE flow in reverse and return the final state.
 
         Note that the same optional overrides as in :meth:`solve_flow`
-        can be set here (start/end times, step size).
+        can be set here (start/end times, step size). As for the configured
+        times, the flow is integrated from ``t_end`` back to ``t_start``.
         The ``saveat`` argument should probably not be modified as the
         this method assumes the final state is computed, which is returned by
         this function. Use :meth:`solve_flow` directly for this.
@@ -142,8 +143,8 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(
             x,
             log_density,
-            t_start=self.config.t_end,
-            t_end=self.config.t_start,
+            t_start=t_end if t_end is not None else self.config.t_end,
+            t_end=t_start if t_start is not None else self.config.t_start,
             **kwargs,
         )
         return jax.tree.map(lambda x: x[-1], sol.ys)
@@ -244,12 +245,12 @@ class ContFlowRK4(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=t_end if t_end is not None else self.t_end,
+            t_end=t_start if t_start is not None else self.t_start,
             **kwargs,
         )
 
@@ -348,12 +349,12 @@ class ContFlowCG(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=t_end if t_end is not None else self.t_end,
+            t_end=t_start if t_start is not None else self.t_start,
             **kwargs,
         )
 
-- 
2.43.0


From a18ac0678e3936636dcc379556e0c5bdefabd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 12/63] fix: Crouch-Grossmann integration never applied the
 configured projections

---
 src/bijx/cg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 50185ff..c140376 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -375,7 +375,7 @@ class UnitaryDeriv(ManifoldType):
     def project(self, x):
         if self.special:
             trace = jnp.linalg.trace(x)
-            x = x - trace / x.shape[-1]
+            x = x - trace / x.shape[-1] * jnp.eye(x.shape[-1])
         x = (x - x.mT.conj()) / 2
         return x
 
@@ -486,7 +486,7 @@ def cg_stage(y0, vect, manifold_types, ai, step_size):
     if len(deltas) == 0:
         return y0
     return jax.tree.map(
-        lambda state, mtype, *deltas: mtype.reduce(state, *deltas),
+        lambda state, mtype, *deltas: mtype.post_stage(mtype.reduce(state, *deltas)),
         y0,
         manifold_types,
         *deltas,
@@ -526,7 +526,10 @@ def crouch_grossmann_step(manifold_types, tableau, vector_field, step_size, t, y
         # evaluate vector field
         vectors[i] = vector_field(ti, intermediate)
 
-    return cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    y1 = cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    return jax.tree.map(
+        lambda state, mtype: mtype.post_step(state), y1, manifold_types
+    )
 
 
 def crouch_grossmann(
-- 
2.43.0


From fc234cd7f9da71117b74b39d911383ed6ac03a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 13/63] fix: ShapeInfo could not be hashed or compared with
 other objects

---
 src/bijx/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index d34d80b..8af13ca 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -439,14 +439,15 @@ class ShapeInfo:
     def _tree_flatten(self):
         """JAX pytree flattening for compatibility with transformations."""
         children = ()  # No array leaves in this class
-        aux_data = {
-            "event_shape": self.event_shape,
-            "space_shape": self.space_shape,
-            "channel_shape": self.channel_shape,
-            "event_dim": self.event_dim,
-            "space_dim": self.space_dim,
-            "channel_dim": self.channel_dim,
-        }
+        # must be hashable for use with jax transformations
+        aux_data = (
+            ("event_shape", self.event_shape),
+            ("space_shape", self.space_shape),
+            ("channel_shape", self.channel_shape),
+            ("event_dim", self.event_dim),
+            ("space_dim", self.space_dim),
+            ("channel_dim", self.channel_dim),
+        )
         return children, aux_data
 
     def __repr__(self):
@@ -462,13 +463,15 @@ class ShapeInfo:
 
     @classmethod
     def _tree_unflatten(cls, aux_data, children):
-        return cls(**aux_data)
+        return cls(**dict(aux_data))
 
     def __hash__(self) -> int:
         _, info = self._tree_flatten()
         return hash(info)
 
     def __eq__(self, value: object) -> bool:
+        if not isinstance(value, ShapeInfo):
+            return NotImplemented
         _, info_self = self._tree_flatten()
         _, info_other = value._tree_flatten()
         return info_self == info_other
-- 
2.43.0


From 4ea5ae39bf0312419eebe71fbcff285f5e269ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 14/63] fix: SpectrumScaling changed the log density with the
 wrong sign

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 98042f2..4edd204 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -89,7 +89,7 @@ class SpectrumScaling(ApplyBijection):
 
     def apply(self, x, log_density, reverse=False, **kwargs):
         x, delta = self.scale(x, reverse=reverse)
-        return x, log_density - delta if reverse else log_density + delta
+        return x, log_density + delta if reverse else log_density - delta
 
 
 class FreeTheoryScaling(SpectrumScaling):
-- 
2.43.0


From 9b07b4b9c16280ab54f5127c9d7170e0d7ecfaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 15/63] fix: SpectrumScaling of fields with channels

---
 src/bijx/bijections/fourier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 4edd204..ecf714e 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -79,11 +79,16 @@ class SpectrumScaling(ApplyBijection):
         _, shape_info = self.shape_info.process_event(r.shape)
         meta = FourierMeta.create(shape_info.space_shape)
         r = jnp.fft.rfftn(r, shape_info.space_shape, shape_info.space_axes)
-        r = r / self.scaling if reverse else r * self.scaling
+        # same scaling for all channels
+        scaling = jnp.reshape(
+            self.scaling, self.scaling.shape + (1,) * shape_info.channel_dim
+        )
+        r = r / scaling if reverse else r * scaling
         r = jnp.fft.irfftn(r, shape_info.space_shape, shape_info.space_axes)
 
         factor = meta.mr.astype(int) + meta.mi.astype(int)
         delta_ld = jnp.sum(factor * jnp.log(jnp.abs(self.scaling)))
+        delta_ld = delta_ld * shape_info.channel_size
 
         return r, delta_ld
 
-- 
2.43.0


From a1be6b769d4025bc03f2a87ddbf320485ba346b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 16/63] fix: FreeTheoryScaling failed for variable mass or
 without precomputed spectrum

---
 src/bijx/bijections/fourier.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index ecf714e..e196b74 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -151,13 +151,13 @@ class FreeTheoryScaling(SpectrumScaling):
         self.half = half
         ks = fft_momenta(space_shape, lattice=finite_size)
         self.m2 = m2 if isinstance(m2, nnx.Variable) else Const(m2)
-        if precompute_spectrum and not isinstance(m2, nnx.Variable):
-            scaling = Const(self.spectrum_function(ks, m2))
-        else:
-            scaling = None
-
+        scaling = Const(self.spectrum_function(ks, self.m2.get_value()))
         super().__init__(scaling, channel_dim=channel_dim)
 
+        # without precomputed spectrum, evaluate for the current value of m2
+        precomputed = precompute_spectrum and not isinstance(m2, nnx.Variable)
+        self.ks = None if precomputed else Const(ks)
+
     def spectrum_function(self, ks, m2):
         """Compute free field scaling factors from momenta and mass.
 
@@ -173,10 +173,9 @@ class FreeTheoryScaling(SpectrumScaling):
     @property
     def scaling(self):
         """Multiplicative factor in Fourier space."""
-        scaling_var = self.scaling_var.get_value()
-        if scaling_var is None:
-            return self.spectrum_function(self.ks, self.m2)
-        return scaling_var
+        if self.ks is None:
+            return self.scaling_var.get_value()
+        return self.spectrum_function(self.ks.get_value(), self.m2.get_value())
 
 
 class ToFourierData(Bijection):
-- 
2.43.0


From b6f520f8edbdce7af6dd12bef8d55aa39fccbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 17/63] fix: continuum Fourier momenta were not symmetric under
 reflection

---
 src/bijx/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index f52f1be..e237b27 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -65,6 +65,9 @@ def fft_momenta(
     ks = np.mgrid[tuple(np.s_[:s] for s in shape)]
     if unit:
         return np.moveaxis(ks, 0, -1)
+    if not lattice:
+        # first Brillouin zone, such that |k| = |-k|
+        ks = np.where(2 * ks > shape_factor, ks - shape_factor, ks)
     ks = 2 * jnp.pi * ks / shape_factor
     if lattice:
         # with this true, (finite) lattice spectrum ~ 1 / m^2 + k^2
-- 
2.43.0


From f452dc9b537626fec26d6206f8d8beca73c71e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 18/63] fix: momentum magnitudes of FourierMeta were not
 symmetric under reflection

---
 src/bijx/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index e237b27..82e6bb6 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -161,7 +161,9 @@ class FourierMeta(nnx.Pytree):
             FourierMeta instance with all symmetry constraints computed.
         """
         mr, mi, copy_from, copy_to = cls._get_fourier_info(real_shape)
-        ks_full = np.sum(fft_momenta(real_shape, unit=True) ** 2, axis=-1).astype(int)
+        ks_full = fft_momenta(real_shape, unit=True).astype(int)
+        ks_full = np.minimum(ks_full, np.array(real_shape) - ks_full)
+        ks_full = np.sum(ks_full**2, axis=-1)
         ks_reduced = ks_full[mr]
 
         # unique_idc -> assign to "k index" (could be used to add correlations)
-- 
2.43.0


From 5f844079ca73f33aa81d857d450c2ff1a09da183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 19/63] fix: Fourier representations of fields with channels

---
 src/bijx/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 82e6bb6..cdc6906 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -172,7 +172,7 @@ class FourierMeta(nnx.Pytree):
         )
 
         return cls(
-            shape_info=ShapeInfo(event_shape=real_shape, channel_dim=channel_dim),
+            shape_info=ShapeInfo(space_shape=real_shape, channel_dim=channel_dim),
             mr=mr,
             mi=mi,
             copy_from=copy_from,
@@ -356,7 +356,7 @@ class FourierData(nnx.Pytree):
             channel_shape = xk.shape[-meta.shape_info.channel_dim :]
 
         rfft = jnp.zeros(batch_shape + meta.mr.shape + channel_shape, dtype=xk.dtype)
-        rfft = rfft.at[..., meta.mr].set(xk)
+        rfft = rfft.at[meta.idc_rfft_independent].set(xk)
 
         if len(meta.copy_to) > 0:
             rfft = rfft.at[meta.idc_copy_to].set(rfft[meta.idc_copy_from].conj())
-- 
2.43.0


From f668c4375c09bc9f2cf3f43c423a402d028c5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 20/63] fix: BufferedSampler skipped and repeated cached
 samples

---
 src/bijx/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 982fc21..0abf32f 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -192,7 +192,11 @@ class BufferedSampler(Distribution):
                     **kwargs,
                 ),
             ),
-            lambda sampler: (sampler, self.buffer_index + 1, self.buffer.get_value()),
+            lambda sampler: (
+                sampler,
+                self.buffer_index.get_value(),
+                self.buffer.get_value(),
+            ),
             self.dist,
         )
 
-- 
2.43.0


From a42a0d156b2d33db7b5ab9487443bd84c4be18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 21/63] fix: Transformed.log_density did not pass keyword
 arguments to the bijection

---
 src/bijx/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 0abf32f..da4e2fd 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -113,7 +113,7 @@ class Transformed(Distribution):
             Log density values at the input points.
         """
         log_density = jnp.zeros(self.get_batch_shape(x))
-        x, delta = self.bijection.reverse(x, log_density)
+        x, delta = self.bijection.reverse(x, log_density, **kwargs)
         return self.prior.log_density(x, **kwargs) - delta
 
 
-- 
2.43.0


From 502aef6aa71866201c62cb45e867cdedff90c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 22/63] fix: accept shared keyword arguments in parametrized
 and mixture distributions

---
 src/bijx/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 86d5253..2999556 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -405,7 +405,7 @@ class MultivariateNormal(ArrayDistribution):
         cholesky = _cov_to_cholesky(cov)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -425,7 +425,7 @@ class MultivariateNormal(ArrayDistribution):
         safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
         return log_density - jnp.log(safe_diagonal).sum(-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -580,7 +580,7 @@ class DiagonalNormal(ArrayDistribution):
     def scales(self):
         return jnp.abs(self.scales_bare) + self.epsilon
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -595,7 +595,7 @@ class DiagonalNormal(ArrayDistribution):
         log_density -= 0.5 * self.dim * jnp.log(2 * jnp.pi)
         return log_density - jnp.sum(jnp.log(self.scales), axis=-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -653,7 +653,7 @@ class MixtureStack(Distribution):
     def get_batch_shape(self, x):
         return self._dist(0).get_batch_shape(x)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
@@ -667,7 +667,7 @@ class MixtureStack(Distribution):
         )
         return self._dist(component_indices).sample((), rng=rng_sample)[0]
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
         samples = self._sample(jax.random.split(rng, total))
@@ -736,8 +736,8 @@ class GaussianMixture(Distribution):
     def weights(self):
         return self.mixture.weights_normalized
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         return self.mixture.log_density(x)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         return self.mixture.sample(batch_shape, rng)
-- 
2.43.0


From 9f036c53aa5861ae33b36584e0adcb09ab8cd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 23/63] fix: MultivariateNormal density disagreed with its
 samples for negative diagonals

---
 src/bijx/distributions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 2999556..75c4c4e 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -355,9 +355,17 @@ class MultivariateNormal(ArrayDistribution):
     @property
     def cov(self):
         """Reconstruct covariance matrix from Cholesky factor."""
-        matrix = _cholesky_unfold(self.cholesky)
+        matrix = self._safe_cholesky
         return jnp.einsum("...ij,...kj->...ik", matrix, matrix)
 
+    @property
+    def _safe_cholesky(self):
+        """Cholesky factor with positive diagonal (regularized by epsilon)."""
+        matrix = _cholesky_unfold(self.cholesky)
+        idc = jnp.arange(matrix.shape[-1])
+        diag = jnp.abs(matrix[..., idc, idc]) + self.epsilon
+        return matrix.at[..., idc, idc].set(diag)
+
     @classmethod
     def given_dim(
         cls, dim: int, *, rngs: nnx.Rngs, var_cls=nnx.Param, epsilon: float = 1e-10
@@ -414,16 +422,14 @@ class MultivariateNormal(ArrayDistribution):
         Returns:
             Log density values with batch dimensions matching input.
         """
-        cholesky = _cholesky_unfold(self.cholesky)
+        cholesky = self._safe_cholesky
         whitened = jnp.vectorize(
             partial(jax.lax.linalg.triangular_solve, lower=True, transpose_a=True),
             signature="(n,n),(n)->(n)",
         )(cholesky, x - self.mean)
         log_density = -1 / 2 * jnp.einsum("...i,...i->...", whitened, whitened)
         log_density -= self.dim / 2 * jnp.log(2 * jnp.pi)
-        # Apply epsilon regularization to prevent NaN from log(0) or log(negative)
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
-        return log_density - jnp.log(safe_diagonal).sum(-1)
+        return log_density - jnp.log(cholesky.diagonal()).sum(-1)
 
     def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
@@ -438,11 +444,7 @@ class MultivariateNormal(ArrayDistribution):
         """
         rng = self._get_rng(rng)
         noise = jax.random.normal(rng, (*batch_shape, self.dim))
-        cholesky = _cholesky_unfold(self.cholesky)
-        # Apply epsilon regularization to ensure valid Cholesky decomposition
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
-        cholesky = cholesky.at[jnp.diag_indices(cholesky.shape[-1])].set(safe_diagonal)
-        samples = self.mean + jnp.einsum("...ij,...j->...i", cholesky, noise)
+        samples = self.mean + jnp.einsum("...ij,...j->...i", self._safe_cholesky, noise)
         return samples, self.log_density(samples)
 
 
-- 
2.43.0


From 35f783ed8011d4282aab6c1f1c42cf88c236ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 24/63] fix: event shape of stacked DiagonalNormal
 distributions

---
 src/bijx/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 75c4c4e..03c6e2d 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -510,7 +510,7 @@ class DiagonalNormal(ArrayDistribution):
             scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
         )
 
-        super().__init__(rngs=rngs, event_shape=(self.mean.size,))
+        super().__init__(rngs=rngs, event_shape=(self.mean.shape[-1],))
         self.epsilon = epsilon
         assert self.mean.size == self.scales.size
 
-- 
2.43.0


From ff5b17146e075ddc1ed1853648bf359c842a9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 25/63] fix: GaussianMixture failed without given covariances

---
 src/bijx/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 03c6e2d..bf020c6 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -699,6 +699,10 @@ class GaussianMixture(Distribution):
         means = default_wrap(means, init_fn=nnx.initializers.normal(), rngs=rngs)
         mean_shape = means.shape
 
+        if covariances is None:
+            # default to diagonal unit covariances
+            covariances = mean_shape
+
         cov_shape = covariances.shape if hasattr(covariances, "shape") else covariances
 
         if len(mean_shape) == len(cov_shape):
-- 
2.43.0


From c7d29a55dd3bd931728c637ac7d8cab58be3fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 26/63] fix: BufferedSampler required internal rngs even when
 keys are passed

Construction of the buffer evaluated the sample shape without a key and
so failed for distributions that are used with explicit keys only.
---
 src/bijx/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index da4e2fd..c3e3705 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -151,7 +151,9 @@ class BufferedSampler(Distribution):
         self.dist = dist
         self.buffer_size = buffer_size
 
-        shapes = nnx.eval_shape(lambda s: s.sample((buffer_size,)), dist)
+        shapes = nnx.eval_shape(
+            lambda s: s.sample((buffer_size,), rng=jax.random.key(0)), dist
+        )
         self.buffer = nnx.Variable(
             jax.tree.map(lambda s: jnp.empty(s.shape, s.dtype), shapes)
         )
-- 
2.43.0


From 7b20ba908cace1defdee3983a8291b52cb8686ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 27/63] fix: ShapeInfo.process_and_flatten failed for empty
 batches

---
 src/bijx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index 8af13ca..4b6425a 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -387,7 +387,7 @@ class ShapeInfo:
         batched_shape = jnp.shape(x)
         batch_shape, info = self.process_event(batched_shape)
 
-        return jnp.reshape(x, batch_shape + (-1,)), batch_shape, info
+        return jnp.reshape(x, (*batch_shape, info.event_size)), batch_shape, info
 
     def process_and_canonicalize(self, x: jax.Array):
         """Process array and canonicalize event dimensions to (batch, *space, channel).
-- 
2.43.0


From 5aad433d21fcfdb54d83b3b77320e1f8ff97fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 28/63] fix: scalar action densities used the backward instead
 of the forward neighbour

kinetic_term and phi4_term_alt are documented in terms of phi(x + mu).
---
 src/bijx/lattice/scalar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index d252d2b..846d762 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -293,7 +293,7 @@ def kinetic_term(phi: jax.Array) -> jax.Array:
         >>> jnp.allclose(T, 0.0)
         Array(True, dtype=bool)
     """
-    a = reduce(jnp.add, [(jnp.roll(phi, 1, y) - phi) ** 2 for y in range(phi.ndim)])
+    a = reduce(jnp.add, [(jnp.roll(phi, -1, y) - phi) ** 2 for y in range(phi.ndim)])
     return a
 
 
@@ -395,7 +395,7 @@ def phi4_term_alt(
     kinetic = (
         (-2 * kappa)
         * phi
-        * reduce(jnp.add, [jnp.roll(phi, 1, y) for y in range(phi.ndim)])
+        * reduce(jnp.add, [jnp.roll(phi, -1, y) for y in range(phi.ndim)])
     )
     if lam is None:
         return kinetic + phi**2
-- 
2.43.0


From 57b16230bb85e0b6bd1891d85e05fca7065f0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 29/63] fix: correlation_length outside two dimensions

Marginalise over all but the last axis; previously a higher-dimensional
marginal was rolled as a flattened array and one-dimensional correlators
failed.
---
 src/bijx/lattice/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index 846d762..a11f525 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -263,7 +263,7 @@ def correlation_length(two_point: jax.Array) -> jax.Array:
     Returns:
         Scalar estimate of the correlation length $\xi$.
     """
-    marginal = jnp.mean(two_point, axis=0)
+    marginal = jnp.mean(two_point, axis=tuple(range(jnp.ndim(two_point) - 1)))
     arg = (jnp.roll(marginal, 1) + jnp.roll(marginal, -1)) / (2 * marginal)
     mp = jnp.arccosh(arg[1:])
     return 1 / jnp.nanmean(mp)
-- 
2.43.0


From 038d50fb47a1fd8191d5fe343eaaf5d500d0e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 30/63] fix: lie.grad with respect to arrays of group elements

The default projection failed and the generator projection summed the
components of all group elements when the argument had leading axes.
---
 src/bijx/lie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 3138d93..f917330 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -642,11 +642,12 @@ def skew_traceless_cot(a, u):
     # Df^dagger
     a = jnp.swapaxes(a, -1, -2)
     # transport to identity
-    a = jnp.einsum("...ij,jk->...ik", u, a)
+    a = jnp.einsum("...ij,...jk->...ik", u, a)
     # project to skew symmetric
     a = jnp.swapaxes(a, -1, -2).conj() - a
     # project to traceless
-    a = a - jnp.trace(a) / a.shape[-1] * np.eye(a.shape[-1])
+    trace = jnp.trace(a, axis1=-2, axis2=-1)[..., None, None]
+    a = a - trace / a.shape[-1] * np.eye(a.shape[-1])
     return a
 
 
@@ -656,7 +657,7 @@ def _proj(a, u, gen):
 
     This can be used to project onto a general basis of generators.
     """
-    return jnp.sum(a * (gen @ u)).real * gen
+    return jnp.sum(a * (gen @ u), axis=(-2, -1), keepdims=True).real * gen
 
 
 def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless_cot):
-- 
2.43.0


From 750bd50f30cd81a14b6b3b7b1b683170edd3da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 31/63] fix: lie.grad failed with auxiliary outputs unless the
 value was requested

---
 src/bijx/lie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index f917330..825e0a9 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -706,13 +706,17 @@ def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless
             )
         else:
             a = jax.grad(fn, argnums=argnum, has_aux=has_aux)(*args, **kwargs)
+            if has_aux:
+                a, aux = a
 
         if callable(algebra):
             a = algebra(a, u)
         else:
             a = jnp.sum(_proj(a, u, algebra), axis=0)
 
-        return (val, a) if return_value else a
+        if return_value:
+            return val, a
+        return (a, aux) if has_aux else a
 
     return wrapped
 
-- 
2.43.0


From d24c0c7185143e16eb51d00830e368ba3dbe9b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 32/63] fix: HaarDistribution.sample required an explicit batch
 shape

Unlike every other distribution, so it could not be used for single draws
as in IMH or BufferedSampler.
---
 src/bijx/lie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 825e0a9..ffb6b75 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -258,7 +258,7 @@ class HaarDistribution(ArrayDistribution):
         base_shape = (*lat_shape, len(lat_shape))
         return cls(n, base_shape, rngs)
 
-    def sample(self, batch_shape, rng=None, **kwargs):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Sample SU(N) matrices from Haar measure.
 
         Args:
-- 
2.43.0


From 48c7e86f4c4daf15ea467c69d676747e378c6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 33/63] fix: batch shapes of SU(N) eigenvalue densities and
 matrices

A single set of angles gave an extra leading axis, and trailing batch axes
of size one were dropped.
---
 src/bijx/lie.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index ffb6b75..1bf9a17 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -334,9 +334,7 @@ def compute_haar_density(eigenvalue_angles):
         - For visualization, divide by total volume to get probability density
         - For SU(2), this reduces to $\abs{2i \sin(\theta)}^2 = 4\sin^2(\theta)$
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     # Add the constraint angle θₙ = -∑ᵢ₌₁ⁿ⁻¹ θᵢ
     all_angles = jnp.concatenate(
@@ -356,9 +354,7 @@ def compute_haar_density(eigenvalue_angles):
             diff = eigenvalues[..., i] - eigenvalues[..., j]
             density *= jnp.abs(diff) ** 2
 
-    return (
-        jnp.squeeze(density) if density.ndim > 0 and density.shape[-1] == 1 else density
-    )
+    return density
 
 
 def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
@@ -402,9 +398,7 @@ def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
         - The eigenvectors are sampled uniformly, giving the correct Haar measure
         - Each call with the same rng and angles gives identical results
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     batch_shape = eigenvalue_angles.shape[:-1]
     n = eigenvalue_angles.shape[-1] + 1  # SU(n) dimension
-- 
2.43.0


From 24327d79dc188c9418d4dbdbf91035f2ca59a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 34/63] fix: resize_kernel_weights misplaced odd and halved
 even kernels

Enlarging an odd kernel to an odd size shifted it off center, cropping odd
kernels returned the wrong size, and even kernels that are not enlarged had
their edge entries halved.
---
 src/bijx/nn/conv.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/bijx/nn/conv.py b/src/bijx/nn/conv.py
index bc013c4..4455b96 100644
--- a/src/bijx/nn/conv.py
+++ b/src/bijx/nn/conv.py
@@ -392,14 +392,18 @@ def resize_kernel_weights(
 
     # divide copied values by two
     _slice = np.index_exp[:]
-    for dim, length in enumerate(shape):
-        if length % 2 == 0:
+    for dim, (wrap, _) in enumerate(wraps):
+        if wrap:
             kernel[_slice * dim + ([0, -1],)] /= 2
 
-    # add zeros to reach desired shape
+    # add zeros to reach desired shape, keeping the center at (length - 1) // 2
+    shifts = [
+        (new - 1) // 2 - (length - 1) // 2
+        for new, length in zip(new_shape, kernel.shape)
+    ]
     padding = [
-        ((new - old - 1) // 2, (old % 2) + (new - old) // 2) if new > old else (0, 0)
-        for new, old in zip(new_shape, shape)
+        (shift, new - length - shift) if new > length else (0, 0)
+        for new, length, shift in zip(new_shape, kernel.shape, shifts)
     ]
     w = np.pad(
         kernel,
@@ -411,13 +415,9 @@ def resize_kernel_weights(
 
     # crop
     crop = ()
-    for new, old in zip(new_shape, shape):
-        if new >= old:
-            crop += np.index_exp[:]
-        else:
-            crop += np.index_exp[
-                (old - new + (old % 2)) // 2 : -(old - new + (new % 2)) // 2
-            ]
+    for new, shift in zip(new_shape, shifts):
+        start = max(-shift, 0)
+        crop += np.index_exp[start : start + new]
     return w[crop]
 
 
-- 
2.43.0


From 618378525e93f5d64165c053552f79c9cdd63e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 35/63] fix: resize_kernel_weights with padding modes other
 than constant

---
 src/bijx/nn/conv.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/bijx/nn/conv.py b/src/bijx/nn/conv.py
index 4455b96..b22d7b8 100644
--- a/src/bijx/nn/conv.py
+++ b/src/bijx/nn/conv.py
@@ -405,13 +405,9 @@ def resize_kernel_weights(
         (shift, new - length - shift) if new > length else (0, 0)
         for new, length, shift in zip(new_shape, kernel.shape, shifts)
     ]
-    w = np.pad(
-        kernel,
-        padding + [(0, 0)] * 2,
-        mode,
-        constant_values=constant_values,
-        **pad_args,
-    )
+    if mode == "constant":
+        pad_args["constant_values"] = constant_values
+    w = np.pad(kernel, padding + [(0, 0)] * 2, mode, **pad_args)
 
     # crop
     crop = ()
-- 
2.43.0


From 975e7044833655d47c7df6058d5dea01975b44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 36/63] fix: ResNet with dropout had no random source for its
 dropout layer

---
 src/bijx/nn/nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/nets.py b/src/bijx/nn/nets.py
index 5fb6df7..6d90146 100644
--- a/src/bijx/nn/nets.py
+++ b/src/bijx/nn/nets.py
@@ -164,7 +164,7 @@ class ResNet(nnx.Module):
             rngs=rngs,
         )
 
-        self.dropout = nnx.Dropout(rate=dropout)
+        self.dropout = nnx.Dropout(rate=dropout, rngs=rngs if dropout > 0 else None)
 
     def __call__(self, x):
         """Apply residual network to input features.
-- 
2.43.0


From 0e354abb4b2f5657adaf018dca5fa2424b6e1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 37/63] fix: ConvVF divergence of fields with several channels

The local couplings have shape (channels * features, channels) but were
reinterpreted as (channels, channels, features).
---
 src/bijx/bijections/conv_cnf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 82a015f..9c7b97c 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -129,6 +129,9 @@ class ConvVF(nnx.Module):
         # contract with feature superposition
         w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
+        # separate the input channels; shape=(out, in, features per channel)
+        w00 = rearrange(w00, "(i f) o -> o i f", i=channel_size)
+
         features, div = self.feature_map(x, w00)
         features = jnp.einsum("fw,...w->...f", feature_superposition, features)
         grad_phi = conv(features)
-- 
2.43.0


From e8cfc6600929625f83999700e176289b580e5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 38/63] fix: ConvVF without feature superposition

---
 src/bijx/bijections/conv_cnf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 9c7b97c..c67f8cd 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -120,9 +120,12 @@ class ConvVF(nnx.Module):
 
         conv = nnx.merge(conv_graph, conv_params)
 
-        feature_superposition = (
-            self.feature_superposition / self.feature_map.out_channel_size
-        )
+        if self.feature_superposition is None:
+            feature_superposition = jnp.eye(self.feature_map.out_channel_size)
+        else:
+            feature_superposition = (
+                self.feature_superposition / self.feature_map.out_channel_size
+            )
 
         # extract the local-coupling weights; shape=(in features, out features)
         w00 = conv.kernel_params[0]
@@ -198,6 +201,7 @@ class ConvVF(nnx.Module):
         )
 
         conv_in_features = features.out_channel_size
+        feature_superposition = None
         if features_reduced is not None:
             feature_superposition = nnx.Param(
                 nnx.initializers.orthogonal()(
-- 
2.43.0


From 5285a5f50e296f13e4b891e36d46d939abf732b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 39/63] fix: ConvVF divergence if the kernel wraps around the
 lattice

---
 src/bijx/bijections/conv_cnf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index c67f8cd..78f37fe 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -128,7 +128,12 @@ class ConvVF(nnx.Module):
             )
 
         # extract the local-coupling weights; shape=(in features, out features)
-        w00 = conv.kernel_params[0]
+        # this includes displacements that wrap around to the same site
+        local = tuple(
+            slice((k - 1) // 2 % s, None, s)
+            for k, s in zip(conv.kernel_size, shape_info.space_shape)
+        )
+        w00 = jnp.sum(conv.kernel[local], axis=tuple(range(len(local))))
         # contract with feature superposition
         w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
-- 
2.43.0


From a2d1077f6202ed9e0875b3ab942b932998dce8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 40/63] fix: AutoJacVF for inputs that are not of default
 precision

---
 src/bijx/bijections/continuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 879e28b..5b72797 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -390,7 +390,7 @@ def _ndim_jacobian(func, event_dim):
     @autovmap(event_dim)
     def call_and_jac(x):
         _, _info = info.process_event(jnp.shape(x))
-        tang_basis = jnp.eye(_info.event_size)
+        tang_basis = jnp.eye(_info.event_size, dtype=jnp.result_type(x))
         v, jac = _jvp(x, tang_basis)
         return v, jac
 
-- 
2.43.0


From 10d69a86f3f766f92ade9a2eb1223e8c9330e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 41/63] fix: KernelFourier reported a wrong feature count for
 even sizes

Only feature_count - 1 features are computed for even feature_count, such
that modules relying on the attribute failed.
---
 src/bijx/nn/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index eefa07a..71713ae 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -209,7 +209,8 @@ class KernelFourier(Embedding):
         val_range: tuple[float, float] | None = None,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        # frequency pairs plus constant
+        super().__init__(2 * ((feature_count - 1) // 2) + 1, rngs=rngs)
         self.val_range = val_range
 
     @autovmap(val=0)
-- 
2.43.0


From ca1aeede75f988f64cc74dcbb644a916482a65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 42/63] fix: PositionalEmbedding with a single frequency gave
 NaN

---
 src/bijx/nn/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 71713ae..708fd9f 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -333,7 +333,7 @@ class PositionalEmbedding(Embedding):
         val = jnp.reshape(val, -1)
 
         half_dim = self.feature_count // 2
-        emb = np.log(self.max_positions) / (half_dim - 1)
+        emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
         emb = jnp.concatenate([jnp.sin(emb), jnp.cos(emb)], axis=1)
-- 
2.43.0


From 574220db6b95d933442b6ce5c2adc80d6014f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 43/63] fix: PositionalEmbedding did not count the appended
 input as a feature

---
 src/bijx/nn/embeddings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 708fd9f..5488d0f 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -314,8 +314,8 @@ class PositionalEmbedding(Embedding):
         append_input: bool = False,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
         assert feature_count % 2 == 0, "feature_count must be even"
+        super().__init__(feature_count + append_input, rngs=rngs)
         self.max_positions = max_positions
         self.append_input = append_input
 
@@ -332,7 +332,7 @@ class PositionalEmbedding(Embedding):
         val_shape = jnp.shape(val)
         val = jnp.reshape(val, -1)
 
-        half_dim = self.feature_count // 2
+        half_dim = (self.feature_count - self.append_input) // 2
         emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
@@ -341,4 +341,4 @@ class PositionalEmbedding(Embedding):
         #     emb = jnp.pad(emb, [[0, 0], [0, 1]])
         if self.append_input:
             emb = jnp.concatenate([emb, val[:, None]], axis=1)
-        return emb.reshape(*val_shape, self.feature_count + self.append_input)
+        return emb.reshape(*val_shape, self.feature_count)
-- 
2.43.0


From 09583a50a031c037ac00d3b1360c966daa208552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 44/63] fix: KernelGauss normalization failed far outside of
 the value range

All features underflow to zero, giving NaN after dividing by their sum.
---
 src/bijx/nn/embeddings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 5488d0f..df6a26e 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -130,8 +130,7 @@ class KernelGauss(Embedding):
         pos = jnp.linspace(0, 1, self.feature_count)
         val = rescale_range(val, self.val_range)
         val = -((val - pos) ** 2) * inverse_width
-        out = jnp.exp(val)
-        return out / jnp.sum(out) if self.norm else out
+        return nnx.softmax(val) if self.norm else jnp.exp(val)
 
 
 class KernelLin(Embedding):
-- 
2.43.0


From ef5eac56e3cb6ce8385acb41f982b9c6d550cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 45/63] fix: FlowJAX adapters could not be compiled or split
 because of static leaves

---
 src/bijx/flowjax.py | 49 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 6414e01..d4f7e98 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -28,11 +28,46 @@ import flowjax.bijections
 import flowjax.distributions
 import jax
 import jax.numpy as jnp
+import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
 from .bijections.base import Bijection
 from .distributions import Distribution
+from .utils import Const
+
+
+def _split_leaves(module):
+    """Separate trainable arrays, other arrays, and static leaves of a pytree.
+
+    FlowJAX components (equinox modules) also have non-array leaves, like
+    shapes and activation functions, which cannot be stored as nnx variables.
+
+    Returns:
+        Tuple of (params, constants, static, treedef), where the first three have
+        one entry per leaf, which is None if the leaf is of another kind.
+    """
+    leaves, treedef = jax.tree.flatten(module)
+
+    def kind(leaf):
+        if not isinstance(leaf, jax.Array | np.ndarray):
+            return "static"
+        return "param" if jnp.issubdtype(leaf.dtype, jnp.inexact) else "const"
+
+    params, consts, static = (
+        [leaf if kind(leaf) == k else None for leaf in leaves]
+        for k in ("param", "const", "static")
+    )
+    return nnx.Param(params), Const(consts), tuple(static), treedef
+
+
+def _merge_leaves(params, consts, static, treedef):
+    """Inverse of :func:`_split_leaves`."""
+    leaves = [
+        next((leaf for leaf in kinds if leaf is not None), None)
+        for kinds in zip(params, consts, static)
+    ]
+    return jax.tree.unflatten(treedef, leaves)
 
 
 class FlowjaxToBijxBijection(Bijection):
@@ -58,8 +93,9 @@ class FlowjaxToBijxBijection(Bijection):
             flowjax_bijection: FlowJAX bijection to wrap.
             cond_name: Keyword argument name for passing conditional inputs.
         """
-        params, self.treedef = jax.tree.flatten(flowjax_bijection)
-        self.params = nnx.Param(params)
+        self.params, self.consts, self.static, self.treedef = _split_leaves(
+            flowjax_bijection
+        )
         self.cond_name = cond_name
 
         conditional_shape = flowjax_bijection.cond_shape
@@ -84,7 +120,7 @@ class FlowjaxToBijxBijection(Bijection):
         Returns:
             The FlowJAX bijection with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _merge_leaves(self.params, self.consts, self.static, self.treedef)
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation using FlowJAX bijection.
@@ -262,8 +298,9 @@ class FlowjaxToBijxDistribution(Distribution):
             rngs: Random number generators for bijx compatibility.
         """
         super().__init__(rngs)
-        params, self.treedef = jax.tree.flatten(flowjax_dist)
-        self.params = nnx.Param(params)
+        self.params, self.consts, self.static, self.treedef = _split_leaves(
+            flowjax_dist
+        )
         self.cond_name = cond_name
 
         self.event_shape = flowjax_dist.shape
@@ -276,7 +313,7 @@ class FlowjaxToBijxDistribution(Distribution):
         Returns:
             The FlowJAX distribution with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _merge_leaves(self.params, self.consts, self.static, self.treedef)
 
     def get_batch_shape(self, x):
         """Infer batch shape from input array and known event shape.
-- 
2.43.0


From 29353fde0f56c38dd7dc0eed8b6562698fcb6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 46/63] fix: FlowJAX adapters shared variable state between
 calls and trace levels

---
 src/bijx/flowjax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index d4f7e98..d88c943 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -201,7 +201,7 @@ class BijxToFlowjaxBijection(flowjax.bijections.AbstractBijection):
         Returns:
             The bijx bijection with current parameter values.
         """
-        return nnx.merge(self.params, self.graph)
+        return nnx.merge(self.params, self.graph, copy=True)
 
     def transform_and_log_det(self, x, condition=None):
         """Apply forward transformation with log determinant.
@@ -410,7 +410,7 @@ class BijxToFlowjaxDistribution(flowjax.distributions.AbstractDistribution):
         Returns:
             The bijx distribution with current parameter values.
         """
-        return nnx.merge(self.params, self.graph)
+        return nnx.merge(self.params, self.graph, copy=True)
 
     def _sample(self, key, condition=None):
         """Sample from the bijx distribution (FlowJAX interface).
-- 
2.43.0


From 64ac28e069f6c1ebeb17723a0c10ffc37d0207ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 47/63] fix: CubicRational structure could not be hashed

---
 src/bijx/bijections/analytic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 11a3d03..9762ab0 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -12,7 +12,7 @@ from .scalar import ScalarBijection, TransformedParameter
 _softplus_inv_one = jnp.log(jnp.expm1(1))
 
 
-@dataclass
+@dataclass(frozen=True)
 class SigmoidTransform:
     low: float = -1
     high: float = 8
@@ -27,7 +27,7 @@ class SigmoidTransform:
         return low + diff * nnx.sigmoid(a + offset)
 
 
-@dataclass
+@dataclass(frozen=True)
 class SoftplusTransform:
     eps: float = 1e-1
 
-- 
2.43.0


From 70b97041f9df8cca0d5ec3aac85386c7dd60342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 48/63] fix: Reshape could not be copied and compared because
 of stored bound methods

---
 src/bijx/bijections/meta.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 1d8478d..84a2c04 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -137,7 +137,6 @@ class Reshape(MetaLayer):
     ):
         self.from_shape = from_shape
         self.to_shape = to_shape
-        super().__init__(self._forward, self._reverse)
 
     def _forward(self, x):
         shape = jnp.shape(x)
-- 
2.43.0


From 75a9533d4c379c2300842daa09406b2916c2d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 49/63] fix: Fourier representations could not be converted if
 the metadata is traced

---
 src/bijx/fourier.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index cdc6906..584e931 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -7,6 +7,7 @@ of real-valued fields based on the FFT implementation in JAX.
 
 from dataclasses import replace
 from enum import IntEnum
+from functools import cache
 from itertools import product
 
 import jax
@@ -119,6 +120,7 @@ class FourierMeta(nnx.Pytree):
         return replace(self, **changes)
 
     @staticmethod
+    @cache
     def _get_fourier_info(real_shape):
         rfft_shape = real_shape[:-1] + (real_shape[-1] // 2 + 1,)
 
@@ -160,7 +162,7 @@ class FourierMeta(nnx.Pytree):
         Returns:
             FourierMeta instance with all symmetry constraints computed.
         """
-        mr, mi, copy_from, copy_to = cls._get_fourier_info(real_shape)
+        mr, mi, copy_from, copy_to = cls._get_fourier_info(tuple(real_shape))
         ks_full = fft_momenta(real_shape, unit=True).astype(int)
         ks_full = np.minimum(ks_full, np.array(real_shape) - ks_full)
         ks_full = np.sum(ks_full**2, axis=-1)
@@ -187,9 +189,16 @@ class FourierMeta(nnx.Pytree):
     def real_shape(self):
         return self.shape_info.space_shape
 
+    @property
+    def _masks(self):
+        # boolean indexing needs concrete masks, also if the metadata is traced
+        mr, mi, _, _ = self._get_fourier_info(tuple(self.real_shape))
+        return mr, mi
+
     @property
     def have_imag(self):
-        return self.mi[self.mr]
+        mr, mi = self._masks
+        return mi[mr]
 
     @property
     def channel_slices(self):
@@ -197,7 +206,7 @@ class FourierMeta(nnx.Pytree):
 
     @property
     def idc_rfft_independent(self):
-        return (np.s_[...], self.mr, *self.channel_slices)
+        return (np.s_[...], self._masks[0], *self.channel_slices)
 
     @property
     def idc_have_imag(self):
@@ -371,7 +380,7 @@ class FourierData(nnx.Pytree):
     @staticmethod
     def rdof_to_complex(rdof, meta):
         real, imag = jnp.split(
-            rdof, [meta.mr.sum()], axis=-1 - meta.shape_info.channel_dim
+            rdof, [meta.have_imag.size], axis=-1 - meta.shape_info.channel_dim
         )
         real = real.astype(meta.get_complex_dtype(real))
         xk = real.at[meta.idc_have_imag].add(1j * imag)
-- 
2.43.0


From d6955cf3c677b5602029fc9f0e994e5d694682a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:44 +0000
Subject: [PATCH 50/63] fix: effective_sample_size lost precision for large log
 weight offsets

---
 src/bijx/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index 4b6425a..17c71a7 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -184,6 +184,8 @@ def effective_sample_size(
         Uses numerically stable log-sum-exp computations.
     """
     logw = target_ld - sample_ld
+    # constant shifts cancel, but would limit the precision of the difference below
+    logw = logw - jax.lax.stop_gradient(jnp.max(logw, axis=0))
     log_ess = 2 * jax.nn.logsumexp(logw, axis=0) - jax.nn.logsumexp(2 * logw, axis=0)
     ess_per_sample = jnp.exp(log_ess) / len(logw)
     return ess_per_sample
-- 
2.43.0


From c94f054348f557e99699a969c8358678ab25027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 51/63] fix: DiffraxConfig could not hold solver and controller
 states

---
 src/bijx/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index 00c5ef3..14bbd60 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -70,8 +70,8 @@ class DiffraxConfig(nnx.Pytree):
     event: diffrax.Event | None = None
     max_steps: int | None = 4096
     throw: bool = True
-    solver_state: ftp.ArrayPytree | None = None
-    controller_state: ftp.ArrayPytree | None = None
+    solver_state: ftp.ArrayPytree | None = nnx.data(default=None)
+    controller_state: ftp.ArrayPytree | None = nnx.data(default=None)
     made_jump: bool | None = None
 
     def replace(self, **changes):
-- 
2.43.0


From ed23e05d2bb4db14f24d43b168af666f8658d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 52/63] fix: GeneralCouplingLayer with multiplicative masking
 and vector bijections masked the density wrongly

---
 src/bijx/bijections/coupling.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 9921c65..c5045bd 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -635,6 +635,15 @@ class GeneralCouplingLayer(Bijection):
         bijection_event_rank: int = 0,
         split: bool = True,  # if false, use masking by multiplication
     ):
+        if not split and 0 < bijection_event_rank <= len(mask.event_shape):
+            axes = tuple(range(-bijection_event_rank, 0))
+            active = np.asarray(mask.boolean_mask)
+            if np.any(active.any(axes) != active.all(axes)):
+                raise ValueError(
+                    "Multiplicative masking requires a mask that is constant over "
+                    f"the last bijection_event_rank={bijection_event_rank} axes"
+                )
+
         self.embedding_net = embedding_net
         self.mask = mask
         self.bijection_reconstructor = nnx.data(bijection_reconstructor)
@@ -688,7 +697,9 @@ class GeneralCouplingLayer(Bijection):
 
         if not self.split:
             # sum over event axes that were vmap'd over
-            delta_log_density *= self.mask
+            # (mask is constant over event axes of the bijection)
+            event_axes = tuple(range(-active_rank, 0))
+            delta_log_density *= jnp.any(self.mask.boolean_mask, axis=event_axes)
             axes = tuple(range(-broadcast_rank, 0))
             delta_log_density = jnp.sum(delta_log_density, axis=axes)
         elif active_rank == 0:
-- 
2.43.0


From 928de3f051f862444df197e064f617a296e75989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 53/63] fix: log-densities of Sigmoid and Tanh were infinite in
 the saturated range

---
 src/bijx/bijections/scalar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index afc3826..d00f6dc 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -290,7 +290,8 @@ class Sigmoid(ScalarBijection):
     """
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.log(y) + jnp.log(1 - y)
+        # remains finite where y rounds to 0 or 1
+        return -nnx.softplus(x) - nnx.softplus(-x)
 
     def fwd(self, x, **kwargs):
         return nnx.sigmoid(x)
@@ -316,7 +317,8 @@ class Tanh(ScalarBijection):
     """
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.log(jnp.abs(1 - y**2))
+        # remains finite where y rounds to -1 or 1
+        return jnp.log(4) - nnx.softplus(2 * x) - nnx.softplus(-2 * x)
 
     def fwd(self, x, **kwargs):
         return jnp.tanh(x)
-- 
2.43.0


From 3b9da7d2c7df5bcac3f0ba7f1d2ed3ad15e33e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 54/63] fix: ToFourierData without a target representation
 could not be inverted when unpacking

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index e196b74..11e5c91 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -207,7 +207,7 @@ class ToFourierData(Bijection):
 
     def __init__(self, real_shape, rep=None, channel_dim=0, unpack=False):
         self.meta = FourierMeta.create(real_shape, channel_dim)
-        self.rep = rep
+        self.rep = FFTRep.real_space if rep is None else rep
         self.unpack = unpack
 
     def forward(self, x, log_density, **kwargs):
-- 
2.43.0


From 438673eab4ea03010c0ca86fe19bf5719cade44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 55/63] fix: inverse of rational quadratic splines was
 inaccurate in single precision

---
 src/bijx/bijections/splines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index bf44e25..7d19f70 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -156,8 +156,9 @@ def rational_quadratic_spline(
         # Discriminant can become slightly negative from roundoff; clamp at 0
         discriminant = jnp.maximum(discriminant, jnp.asarray(0.0, dtype))
         denom_safe = -quad_b - jnp.sqrt(discriminant)
-        # Stabilize division by adding a relative tiny term
-        denom_safe = denom_safe + tiny * (1.0 + jnp.abs(quad_b))
+        # The denominator is negative and scales with the bin height and slopes,
+        # so it may legitimately be small; only avoid division by zero
+        denom_safe = jnp.minimum(denom_safe, -jnp.finfo(dtype).tiny)
         normalized_pos = (2 * quad_c) / denom_safe
         normalized_pos = jnp.clip(normalized_pos, 0.0, 1.0)
         outputs_spline = normalized_pos * bin_width + left_knot_x
-- 
2.43.0


From 92f674535b338b215c451501f7c746dc193ab839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 56/63] fix: AutoVmapReconstructor could not pass on arguments
 without input rank

---
 src/bijx/bijections/coupling.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index c5045bd..349aef1 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -514,19 +514,25 @@ class AutoVmapReconstructor(nnx.Pytree):
 
     def __call__(self, fn_name, *args, input_ranks: tuple[int, ...] = (0, 0), **kwargs):
 
-        input_ranks = tuple(input_ranks)
+        input_ranks = tuple(input_ranks)[: len(args)]
         input_ranks += (None,) * (len(args) - len(input_ranks))
 
+        # arguments without rank are passed on as they are
+        mapped = [i for i, rank in enumerate(input_ranks) if rank is not None]
+
         @autovmap(
             self.params_rank,
-            input_ranks,
+            tuple(input_ranks[i] for i in mapped),
         )
-        def apply(params, args):
+        def apply(params, mapped_args):
             module = self.reconstructor.from_params(params)
             fn = getattr(module, fn_name)
-            return fn(*args, **kwargs)
+            all_args = list(args)
+            for i, arg in zip(mapped, mapped_args, strict=True):
+                all_args[i] = arg
+            return fn(*all_args, **kwargs)
 
-        return apply(self.params, args)
+        return apply(self.params, tuple(args[i] for i in mapped))
 
     def __getattr__(self, name: str):
         module = self.reconstructor.from_params(self.params)
-- 
2.43.0


From 4cf15cfed035369e778ea3df7317297b7ca0e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 57/63] fix: ModuleReconstructor with constants could not be
 printed

---
 src/bijx/bijections/coupling.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 349aef1..1fb1468 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -463,9 +463,7 @@ class ModuleReconstructor(nnx.Pytree):
         raise TypeError(f"Unsupported parameter type: {type(params)}")
 
     def __repr__(self):
-        state_or_module = self.params
-        if self.graph is not None:
-            state_or_module = nnx.merge(self.graph, state_or_module)
+        state_or_module = self.from_state(self.params)
         return f"ModuleReconstructor:{state_or_module}"
 
 
-- 
2.43.0


From 69f2c365dabd53fe914c384e42eb7ac30e4152ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 58/63] fix: SinhConjugation is wrong for large or small scale
 parameters

The asymptotic forms were used from |x| = 15 on, where they are not accurate
(and not continuous) for small mu + nu or large beta, and the log density
clipped intermediate values that the map itself does not clip.
---
 src/bijx/bijections/analytic.py | 34 +++++++++++----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 9762ab0..2298fbb 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -116,7 +116,7 @@ class CubicRational(ScalarBijection):
 
 @jax.jit
 @autovmap(x=0, beta=0, mu=0, nu=0)
-def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=15.0):
+def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=30.0):
     """Bijective nonlinearity: f(x) = arcsinh(exp(mu) * (exp(nu) * sinh(x) + beta)).
 
     Inverse is given by mu=-nu, nu=-mu, beta=-beta.
@@ -162,7 +162,7 @@ def log_cosh_stable(x):
 
 @jax.jit
 @autovmap(x=0, beta=0, mu=0, nu=0)
-def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
+def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=30.0):
     """
     Numerically stable computation of log(f'(x)) where
     f(x) = arcsinh(exp(mu) * (exp(nu) * sinh(x) + beta)).
@@ -190,37 +190,25 @@ def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
     )
 
     # Compute arg - safe because sinh_x is bounded
-    beta_safe = jnp.clip(beta, -1e5, 1e5)
+    beta_safe = jnp.clip(beta, -exp_max, exp_max)
     arg_raw = exp_mu * (exp_nu * sinh_x + beta_safe)
 
     # Protect arg from becoming inf/nan
-    arg_max = 1e10
+    arg_max = 1e35
     arg = jnp.where(jnp.isfinite(arg_raw), jnp.clip(arg_raw, -arg_max, arg_max), 0.0)
-    arg_squared = arg * arg
 
     # Stable log(cosh(x)) computation - safe because x_clamped is bounded
     log_cosh_x = log_cosh_stable(x_clamped)
 
     # Stable computation of log(sqrt(1 + arg^2)) = 0.5 * log(1 + arg^2)
-    # For small arg^2, use log1p for accuracy
-    # For large arg^2, use 0.5 * log(arg^2) which is more stable on GPU than log(|arg|)
-    threshold_arg_sq = 1e8  # Lower threshold for smoother transition on GPU
-
-    # When arg^2 is small: use log1p for precision
-    log_sqrt_denom_small = 0.5 * jnp.log1p(arg_squared)
-
-    # When arg^2 is large: log(sqrt(1 + arg^2)) ≈ 0.5 * log(arg^2) = log(|arg|)
-    # Use 0.5 * log(arg^2) directly for better GPU numerical stability
-    # Add small epsilon to prevent log(0) in edge cases
-    log_sqrt_denom_large = 0.5 * jnp.log(jnp.maximum(arg_squared, 1e-20))
-
-    log_sqrt_denom = jnp.where(
-        arg_squared < threshold_arg_sq, log_sqrt_denom_small, log_sqrt_denom_large
-    )
-
-    # Final safeguard: ensure result is finite (handles GPU numerical edge cases)
+    # For large |arg|, split off log(|arg|) such that arg^2 cannot overflow
+    is_small = jnp.abs(arg) < 1e4
+    arg_small = jnp.where(is_small, arg, 0.0)
+    arg_large = jnp.where(is_small, 1.0, jnp.abs(arg))
     log_sqrt_denom = jnp.where(
-        jnp.isfinite(log_sqrt_denom), log_sqrt_denom, log_sqrt_denom_small
+        is_small,
+        0.5 * jnp.log1p(arg_small**2),
+        jnp.log(arg_large) + 0.5 * jnp.log1p(arg_large**-2),
     )
 
     # Combine - this is safe even when |x| > threshold because x_clamped is bounded
-- 
2.43.0


From 182273c0df163f8d9b407b6cb3c148cd2392e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 59/63] fix: solve_cubic overflows for large arguments in
 single precision

Inverses of CubicRational and CubicConjugation became NaN beyond 1e6.
---
 src/bijx/bijections/analytic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 2298fbb..d8c2e42 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -42,6 +42,15 @@ def solve_cubic(a, b, c, d):
 
     Uses numerically stable computation for the real root.
     """
+    # solve for x / scale, so that intermediate powers cannot overflow
+    scale = jnp.maximum(
+        jnp.maximum(jnp.abs(b / a), jnp.sqrt(jnp.abs(c / a))),
+        jnp.cbrt(jnp.abs(d / a)),
+    )
+    scale = jax.lax.stop_gradient(jnp.where(scale > 0, scale, 1))
+    b, c, d = b / (a * scale), c / (a * scale**2), d / a / scale**3
+    a = 1
+
     d0 = b**2 - 3 * a * c
     d1 = 2 * b**3 - 9 * a * b * c + 27 * a**2 * d
 
@@ -55,7 +64,7 @@ def solve_cubic(a, b, c, d):
         minus,
     )
     c = jnp.cbrt(c_arg / 2)
-    return -(b + c + d0 / c) / (3 * a)
+    return -scale * (b + c + d0 / c) / (3 * a)
 
 
 class CubicRational(ScalarBijection):
-- 
2.43.0


From 6652ef7402a1a95216470fa26a673ea0e7298654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 60/63] fix: BetaStretch overflows at the end points and for
 large parameters

The reverse at 1 was NaN, and the log density underflowed to -inf close to
the end points.
---
 src/bijx/bijections/scalar.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index d00f6dc..62d07a1 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -644,20 +644,26 @@ class BetaStretch(ScalarBijection):
             transform=transform_a,
         )
 
+    @staticmethod
+    def _stretch(x, a):
+        # use the distance to the closer end point, such that nothing overflows
+        lower = x < 0.5
+        x = jnp.where(lower, x, 1 - x)
+        r = (x / (1 - x)) ** a
+        y = r / (r + 1)
+        return jnp.where(lower, y, 1 - y)
+
     def log_jac(self, x, y, **kwargs):
         a = self.a.get_value()
         return (
             jnp.log(a)
-            + jnp.log(x ** (a - 1) * (1 - x) ** a + x**a * (1 - x) ** (a - 1))
-            - 2 * jnp.log(x**a + (1 - x) ** a)
+            + jax.scipy.special.xlogy(a - 1, x)
+            + jax.scipy.special.xlog1py(a - 1, -x)
+            - 2 * jnp.logaddexp(a * jnp.log(x), a * jnp.log1p(-x))
         )
 
     def fwd(self, x, **kwargs):
-        a = self.a.get_value()
-        xa = x**a
-        return xa / (xa + (1 - x) ** a)
+        return self._stretch(x, self.a.get_value())
 
     def rev(self, y, **kwargs):
-        a = self.a.get_value()
-        r = (y / (1 - y)) ** (1 / a)
-        return r / (r + 1)
+        return self._stretch(y, 1 / self.a.get_value())
-- 
2.43.0


From fd4dc1af72f33bfca407d657c6d61cb8a5656414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 61/63] fix: solve_cubic lost its root to rounding for large
 arguments

The square of the discriminant was computed as a difference that cancels,
so that it rounded to a negative number (NaN root) or to zero (NaN
gradient).
---
 src/bijx/bijections/analytic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index d8c2e42..4592da4 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -54,7 +54,11 @@ def solve_cubic(a, b, c, d):
     d0 = b**2 - 3 * a * c
     d1 = 2 * b**3 - 9 * a * b * c + 27 * a**2 * d
 
-    sqrt = jnp.sqrt(d1**2 - 4 * d0**3)
+    # d1**2 - 4 * d0**3, written out because the difference would cancel
+    disc = 27 * (
+        4 * c**3 + 4 * b**3 * d + 27 * d**2 - b**2 * c**2 - 18 * b * c * d
+    )
+    sqrt = jnp.where(disc == 0, 0, jnp.sqrt(jnp.where(disc == 0, 1, disc)))
 
     minus = d1 - sqrt
     plus = d1 + sqrt
-- 
2.43.0


From 2323b01d0abaf3e22612ad991ec7264dfce292fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 62/63] fix: derivative of rational quadratic splines at knots
 and end points

Clipping splits the derivative at ties, so that differentiating through a
spline gave a quarter of the derivative at 0 and 1, and half of it at
knots.
---
 src/bijx/bijections/splines.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index 7d19f70..debe976 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -8,6 +8,7 @@ Reference:
     Durkan et al. "Neural Spline Flows" (arXiv:1906.04032)
 """
 
+import jax
 import jax.numpy as jnp
 import numpy as np
 from flax import nnx
@@ -17,6 +18,11 @@ from ..utils import ShapeInfo
 from .base import ApplyBijection
 
 
+def _clip_rounding(position):
+    """Clip to [0, 1], without changing the derivative at the bounds."""
+    return position + jax.lax.stop_gradient(jnp.clip(position, 0, 1) - position)
+
+
 @autovmap(inputs=0, bin_widths=1, bin_heights=1, knot_slopes=1)
 def rational_quadratic_spline(
     inputs,
@@ -111,7 +117,8 @@ def rational_quadratic_spline(
     # where the transform is the identity.
     in_bounds = (inputs >= 0) & (inputs <= 1)
     # Clamp inputs for internal calculations to avoid NaNs.
-    inputs_clipped = jnp.clip(inputs, 0, 1)
+    # (clipping alone would halve the derivative at the end points)
+    inputs_clipped = jnp.where(in_bounds, inputs, jnp.clip(inputs, 0, 1))
 
     # Helper function for advanced indexing over the batch dimension
 
@@ -160,7 +167,7 @@ def rational_quadratic_spline(
         # so it may legitimately be small; only avoid division by zero
         denom_safe = jnp.minimum(denom_safe, -jnp.finfo(dtype).tiny)
         normalized_pos = (2 * quad_c) / denom_safe
-        normalized_pos = jnp.clip(normalized_pos, 0.0, 1.0)
+        normalized_pos = _clip_rounding(normalized_pos)
         outputs_spline = normalized_pos * bin_width + left_knot_x
 
         # Compute log determinant for the forward transform dy/dx
@@ -186,7 +193,7 @@ def rational_quadratic_spline(
     else:
         # Forward transform
         normalized_pos = (inputs_clipped - left_knot_x) / (width_safe)
-        normalized_pos = jnp.clip(normalized_pos, 0.0, 1.0)
+        normalized_pos = _clip_rounding(normalized_pos)
 
         # fmt: off
         numerator_term = (
-- 
2.43.0


From 5466cdcb0aefd25e15f863762d44399f0245acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 63/63] fix: derivative of radial layers at the center

The norm is not differentiable at the origin, so that differentiating a
radial layer there gave NaN for all inputs and parameters.
---
 src/bijx/bijections/radial.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 5f679c6..0ef92f5 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -25,6 +25,18 @@ from .base import ApplyBijection, Bijection
 from .coupling import ModuleReconstructor
 
 
+def _norm(x):
+    """Euclidean norm over the last axis, with zero derivative at the origin."""
+    square = jnp.sum(x**2, axis=-1)
+    positive = square > 0
+    return jnp.where(positive, jnp.sqrt(jnp.where(positive, square, 1)), 0)
+
+
+def _slope(mld):
+    """Derivative for given change of log density, or zero if infinite."""
+    return jnp.where(mld > -jnp.inf, jnp.exp(-mld), 0)
+
+
 class RayTransform(Bijection):
     """Simple ray transformation ensuring f(0)=0."""
 
@@ -100,7 +112,7 @@ class Radial(ApplyBijection):
         x_centered = x - self.center
         x_scaled = x_centered * self.scale
 
-        r_in = jnp.linalg.norm(x_scaled, axis=-1, keepdims=False)
+        r_in = _norm(x_scaled)
         r_safe = jnp.where(r_in > 0, r_in, 1)
 
         if reverse:
@@ -113,6 +125,7 @@ class Radial(ApplyBijection):
                 r_in, jnp.zeros_like(r_in)
             )
             ratio = jnp.abs(r_out / r_safe)
+        ratio = jnp.where(r_in > 0, ratio, _slope(mld_scalar))
 
         # Stable evaluation of log(f(r)/r) with correct r→0 limit log f'(0)
         log_ratio_term = jnp.where(
@@ -180,7 +193,7 @@ class RadialConditional(ApplyBijection):
         x_centered = x - self.center
         x_scaled = x_centered * self.scale
 
-        r_in = jnp.linalg.norm(x_scaled, axis=-1, keepdims=False)
+        r_in = _norm(x_scaled)
         r_safe = jnp.where(r_in > 0, r_in, 1)
 
         x_hat = x_scaled / jnp.expand_dims(r_safe, -1)
@@ -193,6 +206,7 @@ class RadialConditional(ApplyBijection):
         else:  # forward
             r_out, mld_scalar = bijection.forward(r_in, jnp.zeros_like(r_in))
             ratio = jnp.abs(r_out / r_safe)
+        ratio = jnp.where(r_in > 0, ratio, _slope(mld_scalar))
 
         # Stable evaluation of log(f(r)/r) with correct r→0 limit log f'(0)
         log_ratio_term = jnp.where(
-- 
2.43.0

