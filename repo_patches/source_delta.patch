From 159292656ee3d663851ad6005820fd652c672462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 01/12] fix: subtracting a quaternion from a scalar returned
 the negative result

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..8622cac 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -self + other
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 202a3abd02737cb5c5449e7db563e65bb6c9363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 02/12] fix: derivative with respect to a named argument split
 the name into characters

---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From ec6d09fae42c14a12fcbdc6c78ac8e29033a1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 03/12] fix: value_and_derivative failed for pytree arguments
 such as module parameters

---
 magpi/calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..6bc739c 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -57,10 +57,11 @@ def value_and_derivative(
     def df(*args, **kwargs):
         if isinstance(wrt, int) and argnum is None:
             ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
+                tree_map(ones_like if i == wrt else zeros_like, x)
+                for i, x in enumerate(args)
             ]
         elif isinstance(wrt, int) and argnum is not None:
-            ei = [zeros_like(x) for x in args]
+            ei = [tree_map(zeros_like, x) for x in args]
             ei[argnum] = ei[argnum].at[wrt].set(1.0)
         else:
             ei = wrt
-- 
2.43.0


From 42549532b6c6a2f707ae611677145ea7e5694c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 04/12] fix: odeint evaluated the right hand side at times
 shifted by one step

---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From 5835f881164624e67d0364e5fc172a436a358735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 05/12] fix: sphere had no gradient at its centre, the
 ellipsoid was not a number there

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..30ec62a 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -270,7 +270,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(asarray(x) ** 2)) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
-- 
2.43.0


From e5b50f246bc5d945d986c4c77c5c4a3798a97213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:55 +0000
Subject: [PATCH 06/12] fix: normalize_1st_order had no derivative where the
 gradient of the ADF vanishes

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 30ec62a..153fd6c 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -558,6 +558,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0


From 0c1f63e5228e1d3f4ef498575ba4fabe2c6d1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:30 +0000
Subject: [PATCH 07/12] fix: transform_triangle mixed up samples and
 coordinates

A single sample scaled the edges componentwise and three dimensional
triangles failed altogether; the barycentric coordinates are now broadcast
over the coordinates of the corners.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..425b92f 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -312,7 +312,7 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0, :] * d1 + x[..., 1, :] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From 698d450acecc4889bec738b4e166137c5c57cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:01 +0000
Subject: [PATCH 08/12] fix: Parallelogram.transform_bnd walked around the
 wrong corners unless a was the origin

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 425b92f..c7de01e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From 18155c0464faff2e5dfeb49b7fe5d0ee7ce6a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 09/12] fix: Hypercube.normal_vec accepted batches with points
 outside of the domain

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index c7de01e..faea3d3 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
-- 
2.43.0


From c0782f59a7cbfcd72852c4f8d8edb161dcc85d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 10/12] fix: Hypercube.normal_vec returned None on edges and
 corners between lower and upper faces

---
 magpi/domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index faea3d3..961493e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -64,9 +64,8 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
         n = on_ub - on_lb
+        n = where(jnp.cumsum(on_lb + on_ub, axis=-1) > 1, 0.0, n)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From a14e5541fccc09e6363b11aff724fe04cfba1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:36 +0000
Subject: [PATCH 11/12] fix: normal_vec of disks and spheres failed for batches

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 961493e..5a6db3d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -134,7 +134,7 @@ class _Spherical:
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-        return sample / sample_norm
+        return sample / sample_norm[..., None]
 
 
 @dataclass(frozen=True, slots=True)
-- 
2.43.0


From ef8ba7f96ce4c804fd540eab5260c2c6635db92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:48 +0000
Subject: [PATCH 12/12] fix: TR: implicit differentiation with keyword
 arguments of the objective

---
 magpi/tr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpi/tr.py b/magpi/tr.py
index 76037c9..32790f8 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -227,6 +227,8 @@ class TR(jaxopt_base.IterativeSolver):
         _, _, self._value_and_grad_with_aux = utils.make_funs_with_aux(
             fun=self.fun, value_and_grad=self.value_and_grad, has_aux=self.has_aux
         )
+        # resolves keyword arguments in implicit differentiation
+        self.reference_signature = self.fun
 
         if self.rho_accept > self.rho_decrease:
             msg = "`rho_accept` must be smaller than `rho_decrease` for convergence reasons!"
-- 
2.43.0

