From 7e64abcf57af4b917806740b4201d410d90f5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:51 +0000
Subject: [PATCH 01/12] fix: derivatives of linear splines on uniform grids
 were off by the squared grid step
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

On uniform dimensions δ is the inverse step, on nonuniform ones it was the step;
the k=1 derivative formula assumed the latter. Use the inverse step everywhere.
---
 interpolation/splines/codegen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..20c51a9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -215,8 +215,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     {{endif}}
     
     {{endfor}}
@@ -353,8 +353,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From a9a0d9f99c4e54d2762bf331484b3e49c306110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 02/12] fix: nearest/constant extrapolation at one point on a
 nonuniform grid failed to compile

The single-point template did not define the bounds of nonuniform dimensions.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 20c51a9..fdef8e9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From b10b5bb7bc5471c3e5f3a5ef910e79966cb6a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 03/12] fix: constant extrapolation at one point ignored when
 writing in place or differentiating

Outside of the grid, the in-place vector-valued call fell through to linear
extrapolation, the in-place call with derivatives left the output untouched and
the allocating call with derivatives did not compile.
---
 interpolation/splines/codegen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index fdef8e9..77f0675 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,15 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
+        {{endif}}
+        {{elif orders is not None}}
+        {{if allocate}}
+        return ({{"0.0, "*len(orders)}})
+        {{else}}
+        out[:] = 0.0
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From 24a3f14ea45a2a74bebb4e5fbb3dbcd50715948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 04/12] fix: nodes() misread nonuniform dimensions as (min,
 max, n) tuples

---
 interpolation/splines/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index e23a570..df5cca1 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -37,6 +37,8 @@ def CGrid(*args):
 
 
 def nodes(grid):
-    from interpolation.cartesian import mlinspace
+    from interpolation.cartesian import cartesian
 
-    return mlinspace([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid])
+    return cartesian(
+        [g if isinstance(g, np.ndarray) else np.linspace(*g) for g in grid]
+    )
-- 
2.43.0


From 5b5badf1423d81167b49b03dd0d394614af740f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 05/12] fix: grid attribute of one-dimensional linear splines
 raised TypeError

---
 interpolation/splines/multilinear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..76d96bf 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -6,9 +6,7 @@ import numpy as np
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
-        )
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  ## workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From e96672b41bb8531cbad3a3a9b11184613ea57264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 06/12] fix: vec_multilinear_interpolation raised NameError
 when given an output array

---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From e1662a5038006ab65b3ddeb6a71f060cd9bb6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 07/12] fix: Smolyak gradient of vector-valued functions was
 scaled along the wrong axis

---
 interpolation/smolyak/interp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/interp.py b/interpolation/smolyak/interp.py
index 0cc1df1..c0de091 100644
--- a/interpolation/smolyak/interp.py
+++ b/interpolation/smolyak/interp.py
@@ -108,7 +108,9 @@ class SmolyakInterp(object):
                 rets.append(vals)
 
             radii = 2 / (sg.ub - sg.lb)
-            rets.append(d_vals * radii[None, :])
+            # the dimension is the second axis, whether values are vector-valued or not
+            radii = radii.reshape((1, -1) + (1,) * (d_vals.ndim - 2))
+            rets.append(d_vals * radii)
 
         elif not deriv and interp:  # No derivs in build_B. Just do vals
             new_B = build_B(d, sg.mu, trans_points, sg.pinds)
-- 
2.43.0


From e5ba6e337bd8ebafa7606ec6572ff4e766fc6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 08/12] fix: gradient of cubic splines outside of the grid did
 not match the extrapolated values

Values are extrapolated linearly but the derivative kept following the cubic:
evaluate it at the nearest point of the grid, like the slope used for the values.
---
 interpolation/splines/eval_cubic_numba.py | 70 +++++++++++++----------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..84c979e 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5059,9 +5059,10 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
         i0 = int(floor(u0))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -5174,13 +5175,15 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
         i1 = int(floor(u1))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -5450,17 +5453,20 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
         i2 = int(floor(u2))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
-        tp2_0 = t2 * t2 * t2
-        tp2_1 = t2 * t2
-        tp2_2 = t2
+        s2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = s2 * s2 * s2
+        tp2_1 = s2 * s2
+        tp2_2 = s2
         tp2_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -6223,21 +6229,25 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
         i3 = int(floor(u3))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
-        tp2_0 = t2 * t2 * t2
-        tp2_1 = t2 * t2
-        tp2_2 = t2
+        s2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = s2 * s2 * s2
+        tp2_1 = s2 * s2
+        tp2_2 = s2
         tp2_3 = 1.0
-        tp3_0 = t3 * t3 * t3
-        tp3_1 = t3 * t3
-        tp3_2 = t3
+        s3 = max(min(t3, 1.0), 0.0)
+        tp3_0 = s3 * s3 * s3
+        tp3_1 = s3 * s3
+        tp3_2 = s3
         tp3_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
-- 
2.43.0


From 5baafa53d20b9a16f87a99231d8ec326720b3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 09/12] fix: far away points were extrapolated from the first
 cell of the grid

Converting a float beyond the int64 range to an integer is undefined; bound
the (float) cell number before converting it.
---
 interpolation/multilinear/fungen.py       |   2 +-
 interpolation/splines/codegen.py          |   4 +-
 interpolation/splines/eval_cubic_numba.py | 100 +++++++++++-----------
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/interpolation/multilinear/fungen.py b/interpolation/multilinear/fungen.py
index a7a9ec1..3f8327b 100644
--- a/interpolation/multilinear/fungen.py
+++ b/interpolation/multilinear/fungen.py
@@ -37,7 +37,7 @@ def ol_get_index(gc, x):
             δ = (gc[1] - gc[0]) / (gc[2] - 1)
             d = x - gc[0]
             ii = d // δ
-            i = int(ii)
+            i = int(clamp(ii, 0.0, gc[2] - 1.0))
             i = clamp(i, 0, gc[2] - 2)
             r = d - i * δ
             λ = r / δ
diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 77f0675..1220c90 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -219,7 +219,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     {{if (not grid_types) or (grid_types[i]=='uniform')}}
     # dimension {{i}}: uniform grid
     u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-    i_{{i}} = int( floor( u_{{i}} ) )
+    i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-1.0), 0.0 ) ) )
     i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
     λ_{{i}} = u_{{i}}-i_{{i}}
     {{elif grid_types[i]=='nonuniform'}}
@@ -357,7 +357,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{if (not grid_types) or (grid_types[i]=='uniform')}}
         # dimension {{i}}: uniform grid
         u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-        i_{{i}} = int( floor( u_{{i}} ) )
+        i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-1.0), 0.0 ) ) )
         i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
         λ_{{i}} = u_{{i}}-i_{{i}}
         {{elif grid_types[i]=='nonuniform'}}
diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index 84c979e..d86fe02 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -83,7 +83,7 @@ def eval_cubic_spline_1(a, b, orders, coefs, point):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -146,11 +146,11 @@ def eval_cubic_spline_2(a, b, orders, coefs, point):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -281,15 +281,15 @@ def eval_cubic_spline_3(a, b, orders, coefs, point):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -560,19 +560,19 @@ def eval_cubic_spline_4(a, b, orders, coefs, point):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -1259,7 +1259,7 @@ def vec_eval_cubic_spline_1(a, b, orders, coefs, points, out):
         start0 = a[0]
         dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -1337,11 +1337,11 @@ def vec_eval_cubic_spline_2(a, b, orders, coefs, points, out):
         start1 = a[1]
         dinv1 = (orders[1] - 1.0) / (b[1] - a[1])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -1499,15 +1499,15 @@ def vec_eval_cubic_spline_3(a, b, orders, coefs, points, out):
         start2 = a[2]
         dinv2 = (orders[2] - 1.0) / (b[2] - a[2])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -1817,19 +1817,19 @@ def vec_eval_cubic_spline_4(a, b, orders, coefs, points, out):
         start3 = a[3]
         dinv3 = (orders[3] - 1.0) / (b[3] - a[3])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -2561,7 +2561,7 @@ def eval_cubic_splines_1(a, b, orders, coefs, point, vals):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -2626,11 +2626,11 @@ def eval_cubic_splines_2(a, b, orders, coefs, point, vals):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -2763,15 +2763,15 @@ def eval_cubic_splines_3(a, b, orders, coefs, point, vals):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -3044,19 +3044,19 @@ def eval_cubic_splines_4(a, b, orders, coefs, point, vals):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -3744,7 +3744,7 @@ def vec_eval_cubic_splines_1(a, b, orders, coefs, points, vals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -3824,11 +3824,11 @@ def vec_eval_cubic_splines_2(a, b, orders, coefs, points, vals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -3988,15 +3988,15 @@ def vec_eval_cubic_splines_3(a, b, orders, coefs, points, vals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -4308,19 +4308,19 @@ def vec_eval_cubic_splines_4(a, b, orders, coefs, points, vals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -5056,7 +5056,7 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         s0 = max(min(t0, 1.0), 0.0)
@@ -5168,11 +5168,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         s0 = max(min(t0, 1.0), 0.0)
@@ -5442,15 +5442,15 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         s0 = max(min(t0, 1.0), 0.0)
@@ -6214,19 +6214,19 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         s0 = max(min(t0, 1.0), 0.0)
-- 
2.43.0


From 078431552fbb5d5d65f2bee0b23c54b83ec21752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:23 +0000
Subject: [PATCH 10/12] fix: keep eval_cubic and filter_cubic functions when
 submodules are imported later

The submodules eval_cubic and filter_cubic were imported on first use of a spline
object or of a compatibility function; importing them replaced the functions of the
same name in interpolation.splines, so that what 'from interpolation.splines import
eval_cubic' returns depended on what was called before.
---
 interpolation/splines/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index df5cca1..1d9b421 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -1,3 +1,7 @@
+# Functions exported below share their names with two submodules. The submodules are imported
+# first: if they were first imported later, they would replace the functions.
+from . import eval_cubic, filter_cubic
+
 from .splines import CubicSpline, CubicSplines
 from .multilinear import LinearSpline, LinearSplines
 from .eval_splines import options, eval_linear, eval_cubic, eval_spline
-- 
2.43.0


From bfab35c20b49318ee77c8ec783b47cc2119afd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:43 +0000
Subject: [PATCH 11/12] fix: read the coefficients of CubicSplines once per
 evaluation

The coefficients were read once for the number of splines, to allocate the result, and
again for the evaluation. When another thread set values with another number of splines
in between, the compiled code wrote past the end of the result.
---
 interpolation/splines/splines.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interpolation/splines/splines.py b/interpolation/splines/splines.py
index 6fdc468..c6fa9b0 100644
--- a/interpolation/splines/splines.py
+++ b/interpolation/splines/splines.py
@@ -174,7 +174,9 @@ class CubicSplines:
         if not np.all(np.isfinite(points)):
             raise Exception("Spline interpolator evaluated at non-finite points.")
 
-        n_sp = self.__mcoeffs__.shape[-1]
+        # read once: another thread may set new values, with another number of splines
+        mcoeffs = self.__mcoeffs__
+        n_sp = mcoeffs.shape[-1]
 
         N = points.shape[0]
         d = points.shape[1]
@@ -188,7 +190,7 @@ class CubicSplines:
             from .eval_splines import eval_cubic
 
             values = np.empty((N, n_sp), dtype=float)
-            eval_cubic(grid, self.__mcoeffs__, points, values)
+            eval_cubic(grid, mcoeffs, points, values)
             return values
         else:
             from .eval_cubic import vec_eval_cubic_splines_G
@@ -196,7 +198,7 @@ class CubicSplines:
             values = np.empty((N, n_sp), dtype=float)
             dvalues = np.empty((N, d, n_sp), dtype=float)
             vec_eval_cubic_splines_G(
-                self.a, self.b, self.orders, self.__mcoeffs__, points, values, dvalues
+                self.a, self.b, self.orders, mcoeffs, points, values, dvalues
             )
             return [values, dvalues]
 
-- 
2.43.0


From 1143504bf8fee0984485443fa0c53a4e35216176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 12/12] fix: SmolyakGrid keeps its own copy of bounds and
 densities

Arrays given for lb, ub or mu were shared with the caller: overwriting them
afterwards silently changed the domain of an existing grid and interpolant.
---
 interpolation/smolyak/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index f161239..b90e405 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -727,7 +727,7 @@ class SmolyakGrid(object):
         elif isinstance(lb, int) or isinstance(lb, float):  # scalar. copy it
             self.lb = np.ones(d) * lb
         elif isinstance(lb, list) or isinstance(lb, np.ndarray):
-            lb = np.asarray(lb)
+            lb = np.array(lb)  # own copy: the caller may reuse its array
             if lb.size == d:
                 self.lb = lb
             else:
@@ -740,7 +740,7 @@ class SmolyakGrid(object):
         elif isinstance(ub, int) or isinstance(ub, float):  # scalar. copy it
             self.ub = np.ones(d) * ub
         elif isinstance(ub, list) or isinstance(ub, np.ndarray):
-            ub = np.asarray(ub)
+            ub = np.array(ub)
             if ub.size == d:
                 self.ub = ub
             else:
@@ -763,7 +763,7 @@ class SmolyakGrid(object):
             self.B = build_B(self.d, self.mu, self.cube_grid, self.pinds)
 
         else:  # Anisotropic case
-            mu = np.asarray(mu)
+            mu = np.array(mu)
 
             if any(mu < 1):
                 raise ValueError("Each element in mu needs to be > 1.")
-- 
2.43.0

