From 80502f6b74d6f1089f886c7dc96ca5816b88ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 01/51] fix: generate_boundary_edges must not rotate the
 caller's transform

build_boundary_wire() advanced the gear's own angle by a full turn per call.
---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..0aefafe 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is advanced per tooth below, the caller's transform must not change
+        transform = copy.copy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From 4b070da9522cd7d840a0f9177f2a0624e8fb6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 02/51] fix: inverse and product of transforms

Inverting used the wrong power of the scale, and the orientation of inverted or
multiplied gear transforms ignored that the angle is applied first.
---
 src/gggears/gggears_base_classes.py | 42 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..4f87367 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -186,9 +186,16 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                # the angle is applied before the orientation, so the orientation of
+                # other has to be conjugated for the angles to be additive
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -199,11 +206,11 @@ class GearTransformData(TransformData):
 
     def invert(self):
         """Invert the transformation."""
+        rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
         inv_orient = self.orientation.transpose()
-        inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-rot_z.transpose() @ inv_orient @ self.center / self.scale,
+            orientation=rot_z.transpose() @ inv_orient @ rot_z,
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -227,13 +234,16 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                # the angle is applied before the orientation, so the orientation of
+                # other has to be conjugated for the angles to be additive
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -244,11 +254,11 @@ class GearTransform(GearTransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation
-        inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = self.orientation.transpose()
         return GearTransform(
-            center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            center=-rot_z.transpose() @ inv_orient @ self.center / self.scale,
+            orientation=rot_z.transpose() @ inv_orient @ rot_z,
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 8766089078619ff65a2ee14dd6525d69db8b8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 03/51] fix: higher order Curve.derivative raised TypeError

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..ce3d55a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -234,7 +234,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda x: self.derivative(x, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 8a78f6898b07f6e4c7b90bce494b75e52cd60238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 04/51] fix: reversed curves keep the length parametrization

reverse() flipped the parameter lookup but not the matching lengths, so inner points
of a reversed curve were displaced; reversing a chain returned None.
---
 src/gggears/curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index ce3d55a..d0c0d40 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -201,6 +201,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
@@ -546,6 +547,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
@@ -1547,6 +1549,9 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        # the control points are reversed, not the direction of the parameter
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        self.update_lengths()
         return self
 
     @property
-- 
2.43.0


From 56a6c3ac3bf39237dd1720f1a3b28b6bfc2fff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:09 +0000
Subject: [PATCH 05/51] fix: arc length of trimmed and of negative-angle arcs

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index d0c0d40..638c875 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1141,7 +1141,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = self.radius * np.abs(self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From 59fb91c02b76853a1e2791d999501588f1f30e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 06/51] fix: Curve.t2s of reversed curves

---
 src/gggears/curve.py | 49 ++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 638c875..7288c56 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,41 +137,22 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        lookup_t = self.t2s_lookup["t"]
+        lookup_s = self.t2s_lookup["s"]
+        if lookup_t[0] > lookup_t[-1]:
+            # reversed curve, interpolation needs increasing t values
+            lookup_t = np.flip(lookup_t)
+            lookup_s = np.flip(lookup_s)
+        retval = np.interp(t, lookup_t, lookup_s)
+        below = interpolate(t, lookup_t[0], lookup_t[1], lookup_s[0], lookup_s[1])
+        above = interpolate(t, lookup_t[-1], lookup_t[-2], lookup_s[-1], lookup_s[-2])
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
-                )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
-                )
-        else:
-            if t < self.t_0:
-                retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
-                )
-            elif t > self.t_1:
-                retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
-                )
+            retval = np.where(t < lookup_t[0], below, retval)
+            retval = np.where(t > lookup_t[-1], above, retval)
+        elif t < lookup_t[0]:
+            retval = below
+        elif t > lookup_t[-1]:
+            retval = above
         return retval
 
     def update_lengths(self):
-- 
2.43.0


From bf310b5ac05d8a13f77635f6e03f6befd16a0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 07/51] fix: refresh lengths when the control points of NURB
 curves change

---
 src/gggears/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 7288c56..130437a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1541,6 +1541,7 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        self.update_lengths()
         return self
 
 
@@ -1570,6 +1571,7 @@ class NURBSCurve(CurveChain):
             # knots start with 0 which is the first point
             idx = self.knots[k]
             curve.points = newpoints[idx : idx + curve.n_points]
+        self.update_lengths()
 
     @property
     def weights(self):
-- 
2.43.0


From 2d833d91a4f72c547d5fea8bf4b4b8ed7b8abc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 08/51] fix: CurveChain item deletion, two-sided trimming and
 scaling

Deleting put an empty list in the chain, set_start_and_end_on() looked the end up on
the already trimmed chain, and multiplying a chain raised AttributeError.
---
 src/gggears/curve.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 130437a..db61eb6 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -332,6 +332,9 @@ class Curve:
 class CurveChain(Curve):
     """A class to represent a kind of polyline made up of Curves. Also can behave like a Curve."""
 
+    # chains evaluate arrays point by point, curves derived from a chain do the same
+    enable_vectorize = True
+
     def __init__(self, *curves: "Curve", active=True, **kwargs):
         self.curves: list[Curve] = [*curves]
         self._active = active
@@ -489,7 +492,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
@@ -544,23 +547,19 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both ends are given on the original chain, so find them before trimming
+        idx_start, s_start = self.get_s_index(s0)
+        idx_end, s_end = self.get_s_index(s1)
+        if idx_start == idx_end:
+            self.curves[idx_start].set_start_and_end_on(s_start, s_end)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
-
-        idx, s2 = self.get_s_index(s1)
+            self.curves[idx_start].set_start_on(s_start)
+            self.curves[idx_end].set_end_on(s_end)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx_start] + self.curves[idx_end + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx_start : idx_end + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From 806036b0560ad65cf9ed161837b7b63b4ca0798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 09/51] fix: dividing a curve with a natural parameter range
 other than 0..1

---
 src/gggears/curve.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index db61eb6..8e7f806 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -307,12 +307,16 @@ class Curve:
     def __truediv__(self, other):
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
+
+            def div_func(t, curve=self, val=other):
+                return curve(t) / val
+
             return Curve(
-                lambda t: self(t) / other,
+                div_func,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
-                params={},
+                t0=0,
+                t1=1,
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
-- 
2.43.0


From 07fe33de95649a3daedb8fbbafbf2244120e66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 10/51] fix: copies of curves are independent of the original

The curve functions were closures over the original object, so a copied involute,
octoid, mirrored, rotated or transformed curve still evaluated the original.
---
 src/gggears/curve.py | 88 ++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 8e7f806..b9f2141 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1323,9 +1323,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1333,6 +1331,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1359,14 +1362,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1374,6 +1370,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1415,21 +1421,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1465,7 +1474,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1473,6 +1482,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.transform_method(self.target_curve(t), **params)
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1484,19 +1496,19 @@ class MirroredCurve(TransformedCurve):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
+        super().__init__(self.mirror_func, curve)
 
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1507,13 +1519,11 @@ class RotatedCurve(TransformedCurve):
         self.angle = angle
         self.center = center
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
+        super().__init__(self.rotate_func, curve)
 
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From dbf85e0c8dadfbcfa092fd0bf98dedec2ab4888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 11/51] fix: HelicalGear.mesh_to with ring gears, backlash and
 angle bias

A helical gear in a helical ring of the same helix angle, as documented, was placed
with its axis tilted by twice the helix angle, and the backlash parameters were lost.
---
 src/gggears/gggears_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..57dbf12 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1163,9 +1163,12 @@ class HelicalGear(InvoluteGear):
         """Beta = helix angle of the gear."""
         return self.helix_angle
 
-    def mesh_to(self, other, target_dir=RIGHT):
+    def mesh_to(self, other, target_dir=RIGHT, backlash=0.0, angle_bias=0.0):
         # basic meshing
-        super().mesh_to(other, target_dir)
+        super().mesh_to(other, target_dir, backlash=backlash, angle_bias=angle_bias)
+        if self.inside_teeth or other.inside_teeth:
+            # inside-ring pairs have the same helix angle and parallel axes
+            return
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         angle_axis = self.beta + other.beta
-- 
2.43.0


From 251623d3f6a08bfcfe59db49abf33982aaa2530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 12/51] fix: crowning is centered in the tooth width for any
 module and z_anchor

The axial position is in module units and starts at the anchor, but it was treated as
an absolute distance from the bottom face.
---
 src/gggears/gggears_wrapper.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 57dbf12..33e4de8 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -496,9 +496,14 @@ class InvoluteGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
 
         def crowning_func(z, offset=0):
+            # relative position from -1 (bottom) to 1 (top), z is in module units
+            z_rel = (
+                z * self.inputparam.module / self.inputparam.height
+                + self.inputparam.z_anchor
+            ) * 2 - 1
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -1691,9 +1696,14 @@ class CycloidGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
         def crowning_func(z, offset=0):
+            # relative position from -1 (bottom) to 1 (top), z is in module units
+            z_rel = (
+                z * self.inputparam.module / self.inputparam.height
+                + self.inputparam.z_anchor
+            ) * 2 - 1
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
-- 
2.43.0


From 5b2ffd6c7fcaf0ba6caf59e727fb026cec775f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 13/51] fix: heights and height ratios of moved and herringbone
 gears

z_height included the gear's position, and gears with intermediate levels counted
their first level as the top.
---
 src/gggears/gggears_wrapper.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 33e4de8..e5590d4 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -189,11 +189,11 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
+        z0, z1 = self.gearcore.z_vals[-1], self.gearcore.z_vals[0]
         c0, c1 = self.gearcore.shape_recipe.transform.center(
             z0
         ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(c0 - c1) * self.gearcore.transform.scale
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
@@ -233,7 +233,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -475,7 +475,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -739,7 +739,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1934,7 +1934,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From c188177fd95eafa5c1cbf23d60afa8411b70ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 14/51] fix: center_spherical applied the position of the gear
 twice

---
 src/gggears/gggears_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index e5590d4..be927a7 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
-- 
2.43.0


From 5441734ec9275902def6380912952bf6f54f0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 15/51] fix: cone_angle_from_teeth for axis angles other than
 90 degrees

---
 src/gggears/gearmath.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..8dcb307 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,12 +26,13 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
-    a = float(num_teeth_1)
-    b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    # both pitch cones share the same spherical radius:
+    # sin(gamma1) / sin(gamma2) = num_teeth_1 / num_teeth_2, gamma1 + gamma2 = axis_angle
+    gamma1 = np.arctan2(
+        num_teeth_1 * np.sin(axis_angle),
+        num_teeth_2 + num_teeth_1 * np.cos(axis_angle),
+    )
+    gamma2 = axis_angle - gamma1
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From 79f34dfa28cc4856f1010819e1225e03c71f8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 16/51] fix: backlash_from_ax_distance inverts
 calc_involute_mesh_distance

The two functions used different sign conventions for the base angles and differed
by a factor of 2 in the backlash.
---
 src/gggears/gearmath.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 8dcb307..d15ea19 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -141,19 +141,18 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        bl_sign = np.sign(d2 - d1)
         a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        # tan(a) - a = (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        backlash = 2 * bl_sign * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        # tan(a) - a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From db6022368511c2acf04937afa6c143cce14fe138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 17/51] fix: default limits of the undercut tooth generators
 were overwritten with None

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..e40ca42 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From 4ab5c280ce3fc0fbd8a13411fc876523a1ba0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 18/51] fix: gears share position or orientation arrays

Default placements were the global ORIGIN and UNIT3X3 arrays and mesh_to() reused the
orientation of the other gear, so moving one gear in place (gear.center += v) moved
other gears and changed the constants.
---
 src/gggears/gggears_base_classes.py |  4 ++--
 src/gggears/gggears_core.py         |  2 +-
 src/gggears/gggears_wrapper.py      | 16 ++++++++++------
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 4f87367..690c0d0 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,8 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3.copy())
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..ffb1195 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index be927a7..04f4f04 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -589,7 +589,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -706,7 +706,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -721,8 +723,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1761,7 +1763,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1858,7 +1860,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
-- 
2.43.0


From be3e26a8630a912c383ab17bf0e7733fc13800b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 19/51] fix: adapt_cycloid_radii keeps the placement of the
 gears

The documented use adapts the radii after mesh_to(), which moved both gears back to
their initial position.
---
 src/gggears/gggears_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 04f4f04..7cd3edb 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1921,8 +1921,11 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        for gear in (self, other):
+            # only the tooth shape changes, the gears stay where they are
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            gear.gearcore.transform = transform
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 6818677c27cbb63841bee0bcf5b66d1270330477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 20/51] fix: a failed bevel gear build left the gear extended

---
 src/gggears/gggears_build123d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 0aefafe..cb7e77a 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -94,14 +94,16 @@ class GearBuilder(GearToNurbs):
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
             gear.z_vals[-1] += side_surface_extension_ratio * zdiff
             gear.z_vals[0] -= side_surface_extension_ratio * zdiff
-            super().__init__(
-                gear=gear,
-                n_points_hz=n_points_hz,
-                n_points_vert=n_points_vert,
-                oversampling_ratio=oversampling_ratio,
-            )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            try:
+                super().__init__(
+                    gear=gear,
+                    n_points_hz=n_points_hz,
+                    n_points_vert=n_points_vert,
+                    oversampling_ratio=oversampling_ratio,
+                )
+            finally:
+                # restore original z_vals
+                gear.z_vals = z_vals_save
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From 280e7eb10d365f393725fb97e0d4db375140f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 21/51] fix: update_part returned a Solid instead of a Part

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7cd3edb..4d27c69 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -637,8 +637,8 @@ class InvoluteGear(GearInfoMixin):
         the current gear was moved or rotated"""
         if self.builder is None:
             self.build_part()
-        self.builder.part_transformed = apply_transform_part(
-            self.builder.solid, self.gearcore.transform
+        self.builder.part_transformed = bd.BasePartObject(
+            apply_transform_part(self.builder.solid, self.gearcore.transform)
         )
         return self.builder.part_transformed
 
@@ -1809,8 +1809,8 @@ class CycloidGear(GearInfoMixin):
         the current gear was moved or rotated"""
         if self.builder is None:
             self.build_part()
-        self.builder.part_transformed = apply_transform_part(
-            self.builder.solid, self.gearcore.transform
+        self.builder.part_transformed = bd.BasePartObject(
+            apply_transform_part(self.builder.solid, self.gearcore.transform)
         )
         return self.builder.part_transformed
 
-- 
2.43.0


From dff8b8a7c3cfae47c620057dd57219b2daf4d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 22/51] fix: conversion of trimmed lines and of trimmed arcs
 over 180 degrees to edges

---
 src/gggears/gggears_build123d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index cb7e77a..9f1e574 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -554,8 +554,10 @@ def generate_boundary_edges(
 def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
-        # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        # arc can be trimmed, extended or reversed, better make a new one
+        arc2 = crv.ArcCurve.from_point_center_angle(
+            arc.p0, arc.center, arc.angle * (arc.t_1 - arc.t_0), arc.axis
+        )
     else:
         arc2 = arc
 
@@ -583,7 +585,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
-- 
2.43.0


From 8c166e9fcbcb817750c46e5c1c8e16fc8720edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 23/51] fix: zero-curvature cycloid and involute, quadratic
 bezier through 3 points

---
 src/gggears/function_generators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..7eac906 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
@@ -542,7 +542,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From 3d101a5c10684fc873ea59dbe65d3754d1f0c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 24/51] fix: NURB conversion of reversed, trimmed and nested
 transformed curves

The conversion ignored the range of the transformed curve and moved the target curve
itself when that was already a NURB curve.
---
 src/gggears/curve.py             | 14 +++++++++-----
 src/gggears/gggears_build123d.py |  3 +--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index b9f2141..407e6ba 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -911,16 +911,20 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
     else:
         if isinstance(input_curve, NurbCurve):
             return input_curve
-        elif isinstance(input_curve, TransformedCurve):
-            transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
-            convert.apply_transform(transform)
+        elif isinstance(input_curve, TransformedCurve) and (
+            (input_curve.t_0, input_curve.t_1) in ((0, 1), (1, 0))
+        ):
+            # copy, because the target curve itself can be the result of conversion
+            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs).copy()
+            convert.apply_transform(input_curve.apply_transform)
+            if input_curve.t_0 > input_curve.t_1:
+                convert.reverse()
             return convert
         elif isinstance(input_curve, LineCurve):
             bz_points = np.array([input_curve(0), input_curve(1)])
             bz_weights = np.ones((2))
         elif isinstance(input_curve, ArcCurve):
-            if abs(input_curve.angle) < PI:
+            if abs(input_curve.angle * (input_curve.t_1 - input_curve.t_0)) < PI:
                 bz_points, bz_weights = calc_nurbezier_arc(
                     input_curve(0), input_curve(1), input_curve.center
                 )
diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 9f1e574..b4ee6fa 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -598,8 +598,7 @@ def curve_to_edges(curve: crv.Curve):
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
     elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
+        nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
-- 
2.43.0


From 3345b4b265bc4469a2dfee6e85814b1832f48002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 25/51] fix: continuous boundary ignored the transform of the
 profile

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index ffb1195..b984b35 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -780,7 +780,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
     def loc_func(t, curve=profile.profile):
         i = t * toothdata.num_teeth_act // 1
         t2 = t * toothdata.num_teeth_act % 1
-        return (
+        return profile.transform(
             curve(t2)
             @ scp_Rotation.from_euler("z", i * toothdata.pitch_angle).as_matrix().T
         )
-- 
2.43.0


From f44ddf8b953e6dc173b88810be82d444f5103a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 26/51] fix: mesh_to places ring gears in the target direction

---
 src/gggears/gggears_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 4d27c69..be8fbbe 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -704,7 +704,7 @@ class InvoluteGear(GearInfoMixin):
                 inside_ring=self.inside_teeth or other.inside_teeth,
                 backlash=backlash,
             )
-            v0 = target_dir * distance + other.gearcore.transform.center
+            v0 = target_dir * np.abs(distance) + other.gearcore.transform.center
             self.gearcore.transform.center = v0
             self.gearcore.transform.orientation = (
                 other.gearcore.transform.orientation.copy()
-- 
2.43.0


From f98654faa2406de03295f2c1721a78ed54e3af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:51 +0000
Subject: [PATCH 27/51] fix: evaluate arcs at arrays of parameters

---
 src/gggears/curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 407e6ba..795f3c8 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1124,7 +1124,11 @@ class ArcCurve(Curve):
         ).as_matrix()
 
     def arcfunc(self, t):
-        rot_arc = scp_Rotation.from_euler("z", self._angle * t).as_matrix()
+        angles = self._angle * np.asarray(t)
+        if angles.ndim > 0:
+            # one row per rotation, a flat array would be taken as a single rotation
+            angles = angles.reshape(-1, 1)
+        rot_arc = scp_Rotation.from_euler("z", angles).as_matrix()
         points = self._rotmat @ rot_arc @ (RIGHT * self._radius) + self._center
         return points
 
-- 
2.43.0


From f4d2f8629711b5c52194d8de360b84591673553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:38 +0000
Subject: [PATCH 28/51] fix: mesh angle of crown gears (cone angle of 180
 degrees)

---
 src/gggears/gearmath.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index d15ea19..fcbbc5c 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -267,6 +267,15 @@ def calc_mesh_angle(
         contact_dir_other = -center_diff_dir
         phase_offset = 0.5
         phase_sign = -1
+        axes_normal = np.cross(geartransform_1.z_axis, geartransform_2.z_axis)
+        if (
+            np.linalg.norm(axes_normal) > 1e-9
+            and np.abs(np.dot(normalize_vector(axes_normal), center_diff_dir)) < 1e-6
+        ):
+            # intersecting axes (bevel): the contact is on the side of the other axis,
+            # the center difference can be parallel to the axis here (crown gears)
+            contact_dir_gear1 = -geartransform_2.z_axis
+            contact_dir_other = -geartransform_1.z_axis
 
     # mult from right: vector in other's coordinate system
     angle_of_other = angle_of_vector_in_xy(
-- 
2.43.0


From 483bcc3672d0396a8714a550d0c71c68cbd0b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:55 +0000
Subject: [PATCH 29/51] fix: undercut of bevel teeth that reach the root
 without extension

---
 src/gggears/gearteeth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index e40ca42..9380c5e 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -550,8 +550,11 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    extension_end = 0
+    if isinstance(tooth_curve, crv.CurveChain):
+        # the tooth curve starts with an extension line unless it reaches the root
+        extension_end = tooth_curve.get_length_portions()[1]
+    if sol.x[0] < extension_end:
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From 4e7e01dc97fc3da614d4babb8e124dd8b63b9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:55 +0000
Subject: [PATCH 30/51] fix: retry the undercut intersection when the search
 goes astray

---
 src/gggears/gearteeth.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9380c5e..2759886 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -561,6 +561,21 @@ def trim_involute_undercut(
             tooth_curve, undercut_curve, guess=sol.x[:2] + np.array([0.2, 0.2])
         )
 
+    def is_on_curves(sol):
+        diff = tooth_curve(sol.x[0]) - undercut_curve(sol.x[1])
+        in_range = np.all(np.abs(sol.x[:2] - 0.5) < 0.501)
+        return in_range and sol.x[0] >= extension_end and np.linalg.norm(diff) < 1e-6
+
+    if not is_on_curves(sol):
+        # the search went astray, try again from other starting points
+        for i, j in np.ndindex(5, 5):
+            sol_retry = crv.find_curve_intersect(
+                tooth_curve, undercut_curve, guess=(0.1 + i / 5, 0.1 + j / 5)
+            )
+            if is_on_curves(sol_retry):
+                sol = sol_retry
+                break
+
     tooth_curve.set_start_on(sol.x[0])
     undercut_curve.set_end_on(sol.x[1])
 
-- 
2.43.0


From 4edc916dee3b9fdb1053739b46900c0c74024cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:13 +0000
Subject: [PATCH 31/51] fix: place crossed helical gears at their true center
 distance

---
 src/gggears/gggears_wrapper.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index be8fbbe..50e0b8d 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1178,6 +1178,21 @@ class HelicalGear(InvoluteGear):
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         angle_axis = self.beta + other.beta
+        if np.abs(angle_axis) > 1e-9:
+            # Crossed axes: the flanks touch in the normal section, where the pressure
+            # angle is given by the axis angle and does not depend on the distance.
+            alpha_n = np.arctan(
+                np.tan(self.inputparam.pressure_angle) * np.cos(self.beta)
+            )
+            distance = backlash / 2 / np.sin(alpha_n)
+            for gear in (self, other):
+                distance += gear.pitch_radius + gear.module * (
+                    gear.inputparam.profile_shift
+                    - gear.inputparam.backlash * np.cos(gear.beta) / np.tan(alpha_n)
+                )
+            self.gearcore.transform.center = (
+                other.gearcore.transform.center - rot_axis * distance
+            )
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From 271f7d7756e4a71692b47314eb30f9795fa52440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 32/51] fix: scale the tooth offset of racks with the module

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 50e0b8d..7d98ea7 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2234,8 +2234,10 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2437,8 +2439,10 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From f358c245356252f457d0dc02fd04659fcb193285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:33 +0000
Subject: [PATCH 33/51] fix: tip truncation searched beyond the ends of the
 tooth flank

---
 src/gggears/gggears_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index b984b35..0adb655 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -212,7 +212,9 @@ def apply_tip_reduction(
     for guess in np.linspace(0.1, 0.9, 4):
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
         r_sol = polar_transformer.polar_transform(tooth_curve(sol1.x[0]))[0]
-        if sol1.success and r_sol > rdh:
+        # solutions beyond the ends of the curve are not on the tooth
+        on_curve = -1e-6 < sol1.x[0] < 1 + 1e-6
+        if sol1.success and on_curve and r_sol > rdh:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-- 
2.43.0


From 254513c8d1870926dd94861c2b93f8edc36c34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:20 +0000
Subject: [PATCH 34/51] fix: radius reported for pointed tips and roots

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 0adb655..058b096 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -537,7 +537,7 @@ def trim_reference_profile(
         ra_curve = crv.ArcCurve.from_2_point_center(p0=pa1, p1=pa2, center=center_a)
     else:
         ra_curve = crv.ArcCurve(
-            radius=ref_curves.r_a,
+            radius=np.hypot(pa1[0], pa1[1]),
             angle=0,
             center=center_a,
             yaw=np.atan2(pa1[1], pa1[0]),
@@ -551,7 +551,7 @@ def trim_reference_profile(
         rd_curve = crv.ArcCurve.from_2_point_center(p0=pd2, p1=pd1, center=center_d)
     else:
         rd_curve = crv.ArcCurve(
-            radius=ref_curves.r_d,
+            radius=np.hypot(pd1[0], pd1[1]),
             angle=0,
             center=center_d,
             yaw=np.atan2(pd1[1], pd1[0]),
-- 
2.43.0


From 0485660706f23f85cfec25bf7cb1f47f1868df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 35/51] fix: undercut of bevel teeth joined the flank behind
 its cusp

---
 src/gggears/gearteeth.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 2759886..8db13d9 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -564,7 +564,11 @@ def trim_involute_undercut(
     def is_on_curves(sol):
         diff = tooth_curve(sol.x[0]) - undercut_curve(sol.x[1])
         in_range = np.all(np.abs(sol.x[:2] - 0.5) < 0.501)
-        return in_range and sol.x[0] >= extension_end and np.linalg.norm(diff) < 1e-6
+        if not (in_range and sol.x[0] >= extension_end and np.linalg.norm(diff) < 1e-6):
+            return False
+        # the flank has to lead outwards from here, and not back and forth via a cusp
+        flank = [np.linalg.norm(tooth_curve(t)[:2]) for t in np.linspace(sol.x[0], 1)]
+        return np.all(np.diff(flank) > -1e-9)
 
     if not is_on_curves(sol):
         # the search went astray, try again from other starting points
-- 
2.43.0


From cedd2cce0ec33e88d7b1ff35bd9a51e08b230755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:17 +0000
Subject: [PATCH 36/51] fix: start the mesh distance solver from the cubic
 approximation of the involute function

---
 src/gggears/gearmath.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index fcbbc5c..efab047 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -83,7 +83,10 @@ def calc_involute_mesh_distance(
             lambda a: np.tan(a)
             - a
             + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
+            # tan(a)-a is flat at 0, start from its cubic approximation
+            np.arctan(
+                np.cbrt(-3 * (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1))
+            ),
         )
         Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
@@ -98,7 +101,8 @@ def calc_involute_mesh_distance(
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
         sol = root(
             lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
+            # tan(a)-a is flat at 0, start from its cubic approximation
+            np.arctan(np.cbrt(3 * (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2))),
         )
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
-- 
2.43.0


From c35984cae758002604c9a03bacb883aec46fe020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:58 +0000
Subject: [PATCH 37/51] fix: crowning and backlash thin the teeth of ring gears
 too

The profile of a ring gear bounds the gap between its teeth, so narrowing it made ring teeth
thicker at their ends (crowning) or everywhere (backlash) instead of thinner.
---
 src/gggears/gggears_wrapper.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7d98ea7..9feca6e 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -494,6 +494,10 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # the profile of a ring gear bounds the gap between its teeth,
+        # thinner teeth mean a wider gap there
+        thinning_sign = -1 if self.inputparam.inside_teeth else 1
+
         def crowning_func(z, offset=0):
             # relative position from -1 (bottom) to 1 (top), z is in module units
             z_rel = (
@@ -502,7 +506,8 @@ class InvoluteGear(GearInfoMixin):
             ) * 2 - 1
             return (
                 offset
-                - z_rel**2
+                - thinning_sign
+                * z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -513,7 +518,7 @@ class InvoluteGear(GearInfoMixin):
             + self.inputparam.profile_shift
             * np.tan(self.inputparam.pressure_angle)
             / rp_ref
-            - self.inputparam.backlash / rp_ref
+            - thinning_sign * self.inputparam.backlash / rp_ref
         )
 
         spiral_coeff = np.tan(self.beta) / rp_ref
@@ -1711,6 +1716,10 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # the profile of a ring gear bounds the gap between its teeth,
+        # thinner teeth mean a wider gap there
+        thinning_sign = -1 if self.inputparam.inside_teeth else 1
+
         def crowning_func(z, offset=0):
             # relative position from -1 (bottom) to 1 (top), z is in module units
             z_rel = (
@@ -1719,13 +1728,16 @@ class CycloidGear(GearInfoMixin):
             ) * 2 - 1
             return (
                 offset
-                - z_rel**2
+                - thinning_sign
+                * z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
             )
 
-        tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
+        tooth_angle = (
+            pitch_angle / 4 - thinning_sign * self.inputparam.backlash / rp_ref
+        )
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
 
         def angle_func(z, coeff=spiral_coeff):
-- 
2.43.0


From c9cb74c0bc1e2088bceafe5c4e592273cfb09208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 38/51] fix: a gear's copy keeps its shape when the original's
 parameters are edited

The recipe functions read the original's input parameters at call time, and
copies share those functions.
---
 src/gggears/gggears_wrapper.py | 45 ++++++++++++++--------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 9feca6e..f2fceda 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -498,20 +498,16 @@ class InvoluteGear(GearInfoMixin):
         # thinner teeth mean a wider gap there
         thinning_sign = -1 if self.inputparam.inside_teeth else 1
 
+        # the recipe keeps its own values, a copy of the gear shares these functions
+        module = self.inputparam.module
+        height = self.inputparam.height
+        z_anchor = self.inputparam.z_anchor
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
             # relative position from -1 (bottom) to 1 (top), z is in module units
-            z_rel = (
-                z * self.inputparam.module / self.inputparam.height
-                + self.inputparam.z_anchor
-            ) * 2 - 1
-            return (
-                offset
-                - thinning_sign
-                * z_rel**2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            z_rel = (z * module / height + z_anchor) * 2 - 1
+            return offset - thinning_sign * z_rel**2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4
@@ -588,7 +584,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1720,20 +1716,16 @@ class CycloidGear(GearInfoMixin):
         # thinner teeth mean a wider gap there
         thinning_sign = -1 if self.inputparam.inside_teeth else 1
 
+        # the recipe keeps its own values, a copy of the gear shares these functions
+        module = self.inputparam.module
+        height = self.inputparam.height
+        z_anchor = self.inputparam.z_anchor
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
             # relative position from -1 (bottom) to 1 (top), z is in module units
-            z_rel = (
-                z * self.inputparam.module / self.inputparam.height
-                + self.inputparam.z_anchor
-            ) * 2 - 1
-            return (
-                offset
-                - thinning_sign
-                * z_rel**2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            z_rel = (z * module / height + z_anchor) * 2 - 1
+            return offset - thinning_sign * z_rel**2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4 - thinning_sign * self.inputparam.backlash / rp_ref
@@ -1783,8 +1775,7 @@ class CycloidGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    scale=lambda z: 1 * (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0


From 24036133c25f16d32926f555552480295a5bb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 39/51] fix: search chain fillets from either side of the
 corner

The start points were swapped, each on the wrong side of the corner, so the
search often ended somewhere else without notice.
---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 795f3c8..83a1638 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -645,7 +645,7 @@ class CurveChain(Curve):
         Suitable points for tangent arc are searched with starting points at the specified single location.
         """
         return self.fillet_at_locations(
-            radius, [location + radius / self.length, location - radius / self.length]
+            radius, [location - radius / self.length, location + radius / self.length]
         )
 
     def fillet_at_index(self, radius, index):
-- 
2.43.0


From a612f30b5456335d40260006a5bad5fe32560246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 40/51] fix: transforming a trimmed or reversed line keeps its
 ends

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 83a1638..1524c5c 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1091,8 +1091,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
-- 
2.43.0


From 812e967740a16ec762e32ca6a20e5f2ece2be537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 41/51] fix: transforming an arc keeps its trim, direction and
 mirrored sense

---
 src/gggears/curve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1524c5c..697f4c3 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1305,10 +1305,12 @@ class ArcCurve(Curve):
     def transform(self, transform: callable) -> "ArcCurve":
         p0 = transform(self(0))
         center0 = transform(self._center)
-        center2 = transform(self.center + self.axis)
-        axis2 = normalize_vector(center2 - center0)
+        x2 = transform(self._center + self._rotmat @ RIGHT) - center0
+        y2 = transform(self._center + self._rotmat @ UP) - center0
+        axis2 = normalize_vector(np.cross(x2, y2))
+        angle = self.angle * (self.t_1 - self.t_0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0, center0, angle, axis2, active=self.active
         )
 
 
-- 
2.43.0


From 90cbedf65788f7c917bd26703ddfff35ad940c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:06 +0000
Subject: [PATCH 42/51] fix: bevel teeth without undercut use the gear's own
 limits

---
 src/gggears/gggears_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index f2fceda..e3a77cc 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -561,6 +561,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         z_h = self.inputparam.height / self.inputparam.module
-- 
2.43.0


From 3f9e2525b5854a25a8f20cfd1092ff1dd13ebc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:06 +0000
Subject: [PATCH 43/51] fix: bevel flanks end at the cusp of the octoid and
 continue to the root cone

---
 src/gggears/gggears_base_classes.py | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 690c0d0..bd34375 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -4,7 +4,7 @@ import gggears.curve as crv
 import numpy as np
 from gggears.defs import *
 from scipy.spatial.transform import Rotation as scp_Rotation
-from gggears.function_generators import angle_between_vector_and_plane
+from gggears.function_generators import angle_between_vectors
 
 # If a dataclass tends to be user input, it should be named param.
 # If a dataclass tends to be generated or manipulated by functions,
@@ -591,31 +591,40 @@ class GearToothConicGenerator(GearToothGenerator):
         else:
             gamma = self.conic_data.gamma
             R = self.conic_data.R
-            h_d_angle = PI / 2 - gamma + self.ref_limits.h_d / R
+            h_d_angle = gamma - self.ref_limits.h_d / R
             z_center = R * np.cos(gamma)
+            # the root circle lies in this plane, heights are scaled to be
+            # comparable to distances along the flank
+            offset = (z_center - R * np.cos(h_d_angle)) * OUT
+            normal = OUT / np.sin(gamma)
             h_d_point = crv.find_curve_plane_intersect(
-                tooth_curve,
-                plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                offset=z_center * OUT,
-                guess=0,
+                tooth_curve, plane_normal=normal, offset=offset, guess=0
             )
-            if not h_d_point.success:
+            # below the base cone the curve turns back outwards at a cusp,
+            # crossing the root plane beyond that is not part of the flank
+            flank = tooth_curve(np.linspace(h_d_point.x[0], 1)) @ OUT
+            if not h_d_point.success or np.any(np.diff(flank) < -1e-9):
+                t = np.linspace(0, -1, 101)
+                z = tooth_curve(t) @ OUT
+                low = np.argmax(np.append(np.diff(z) >= 0, True))
                 h_d_point = crv.find_curve_plane_intersect(
                     tooth_curve,
-                    plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                    offset=z_center * OUT,
+                    plane_normal=normal,
+                    offset=offset,
+                    guess=t[np.argmin(np.abs(z[: low + 1] - offset[2]))],
                     method=crv.IntersectMethod.MINDISTANCE,
-                    guess=0,
                 )
                 tooth_curve.set_start_on(h_d_point.x[0])
-                bottom_angle = np.abs(
-                    angle_between_vector_and_plane(tooth_curve(0), OUT) - h_d_angle
-                )
+                # continue straight towards the axis, down to the root cone
+                low_point = tooth_curve(0) - z_center * OUT
+                bottom_angle = angle_between_vectors(low_point, IN) - h_d_angle
+                if bottom_angle <= 0:
+                    return tooth_curve
                 connector_curve = crv.ArcCurve.from_point_center_angle(
                     p0=tooth_curve(0),
-                    center=OUT * R * np.cos(gamma),
+                    center=z_center * OUT,
                     angle=bottom_angle,
-                    axis=UP,
+                    axis=np.cross(low_point, IN),
                 )
                 connector_curve.reverse()
                 return crv.CurveChain(connector_curve, tooth_curve)
-- 
2.43.0


From f39b77983dd8bcc67b5661a8cd3dfa5f58e81552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:46 +0000
Subject: [PATCH 44/51] fix: lines of action lie in the plane of the gears

---
 src/gggears/gggears_wrapper.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index e3a77cc..c4f0713 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2004,6 +2004,10 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        def rotate_in_plane(v, angle):
+            axis = self.gear1.gearcore.transform.z_axis
+            return scp_Rotation.from_rotvec(axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -2016,9 +2020,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2032,9 +2036,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2048,12 +2052,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From e183e2f71d1fcc1c9c3f3ddda84ca0bf135bccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:14 +0000
Subject: [PATCH 45/51] fix: place a bevel ring gear meshed around a pinion on
 the requested side

---
 src/gggears/gearmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index efab047..7e5f511 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -356,7 +356,7 @@ def calc_mesh_orientation(
         if inside_ring_2:
             angle_ref = gamma_2 - gamma_1 + offset / R
         elif inside_ring_1:
-            angle_ref = gamma_2 - gamma_1 - offset / R
+            angle_ref = gamma_1 - gamma_2 + offset / R
         else:
             angle_ref = gamma_1 + gamma_2 + offset / R
         rot_ax = normalize_vector(np.cross(target_dir_norm, gear2.z_axis))
@@ -407,7 +407,7 @@ def calc_bevel_gear_placement_vector(
     if inside_ring_2:
         angle_ref = gamma_2 - gamma_1 + offset / R
     elif inside_ring_1:
-        angle_ref = gamma_2 - gamma_1 - offset / R
+        angle_ref = gamma_1 - gamma_2 + offset / R
     else:
         angle_ref = gamma_1 + gamma_2 + offset / R
     rot_ax = normalize_vector(np.cross(target_dir_norm, cone_data_2.transform.z_axis))
-- 
2.43.0


From d040cf1b7106627f987989202236eee24a5bf5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:31 +0000
Subject: [PATCH 46/51] fix: planar curve fit with five or more control points
 failed on array shapes

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 697f4c3..7d09adf 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -871,7 +871,7 @@ def fit_nurb_optim(
         elif n_points == 4:
             initpoints = fit_bezier_hermite_cubic(target_curve)
         else:
-            hermite_points = fit_bezier_hermite_cubic(target_curve)
+            hermite_points = fit_bezier_hermite_cubic(target_curve)[:, :N_Dim]
             initpoints = np.zeros((n_points, N_Dim))
             initpoints[0] = hermite_points[0]
             initpoints[-1] = hermite_points[-1]
-- 
2.43.0


From 1e4d72e25ce0c549bee5d9bf7715162ac157d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:31 +0000
Subject: [PATCH 47/51] fix: continuity of a chain that contains an inactive
 nested chain raised an error

---
 src/gggears/curve.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 7d09adf..1c6e584 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -660,13 +660,13 @@ class CurveChain(Curve):
         Inactive curves count as continuous."""
         out_list = []
         for k in range(self.num_curves):
-            diff = np.linalg.norm(
-                self.curves[k](1) - self.curves[(k + 1) % self.num_curves](0)
-            )
+            curve = self.curves[k]
+            next_curve = self.curves[(k + 1) % self.num_curves]
+            # inactive curves may have no points to compare
             out_list.append(
-                diff < DELTA / 100
-                or not self.curves[k].active
-                or not self.curves[(k + 1) % self.num_curves].active
+                not curve.active
+                or not next_curve.active
+                or np.linalg.norm(curve(1) - next_curve(0)) < DELTA / 100
             )
         return out_list
 
-- 
2.43.0


From 948c21fd950d286f6ece2cb5569516586b0f1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:29 +0000
Subject: [PATCH 48/51] fix: closed tooth outlines at the ring and of
 outside-ring teeth were not connected

---
 src/gggears/gggears_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 058b096..ca8977f 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -413,7 +413,7 @@ class GearRefProfileExtended(GearRefProfile):
             ),
             self.rd_curve,
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_connector.copy().reverse(),
         )
 
     @property
@@ -422,11 +422,11 @@ class GearRefProfileExtended(GearRefProfile):
         inside) ring."""
         return crv.CurveChain(
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_curve,
             self.tooth_curve_mirror,
-            self.ro_connector_2,
+            self.ro_connector_2.copy().reverse(),
             self.ro_curve_tooth.copy().reverse(),
-            self.ro_connector_1.copy().reverse(),
+            self.ro_connector_1,
         )
 
     @classmethod
-- 
2.43.0


From be45a7e9569b1f0d21c91e968aaa6bba348a9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:11 +0000
Subject: [PATCH 49/51] fix: meshing core bevel gears ignored the size and
 place of the other gear

---
 src/gggears/gggears_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index ca8977f..880db3e 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1031,10 +1031,14 @@ class Gear:
 
     def mesh_to(self, other: "Gear", target_dir=RIGHT):
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
+            # the cones at the actual size and place of the gears
+            cone_self, cone_other = self.cone, other.cone
+            cone_self.transform = self.transform
+            cone_other.transform = other.transform
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                cone_self,
+                cone_other,
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 3b4b847701e306a9ad4e32254b1aa8e120d73b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:25 +0000
Subject: [PATCH 50/51] fix: continuous boundary of a gear with a fractional
 tooth number raised an error

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 880db3e..996ec03 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -792,7 +792,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
         t0=0,
         t1=1,
         params={"curve": profile.profile},
-        lenght_approx_ndiv=toothdata.num_teeth * 20,
+        lenght_approx_ndiv=int(toothdata.num_teeth * 20),
     )
 
 
-- 
2.43.0


From 8a541e2ccbdf1e7109fc52b73b9f4bba120136b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 51/51] fix: oversized fillets could fail to find the arc
 touching both flanks

---
 src/gggears/gggears_core.py | 39 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 996ec03..3497415 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -311,29 +311,36 @@ def apply_fillet(
             plane_normal = UP
         mirror_curve = crv.MirroredCurve(tooth_curve, plane_normal=plane_normal)
         mirror_curve.reverse()
-        start_locations = [
-            1 - fillet_radius / tooth_curve.length,
-            0 + fillet_radius / tooth_curve.length,
-        ]
+        # distance of the first guess from the end of the curve, measured from the end
+        # itself, or from the target circle if the curve extends far beyond that
+        guess = fillet_radius / tooth_curve.length
+        end_offset = sol1.x[0] if direction == 1 else 1 - sol1.x[0]
+        guesses = [guess, end_offset + guess]
 
         if direction == 1:
-            arc, t1, t2, sol = crv.calc_tangent_arc(
-                mirror_curve,
-                tooth_curve,
-                fillet_radius,
-                start_locations=start_locations,
-            )
+            for guess in guesses:
+                arc, t1, t2, sol = crv.calc_tangent_arc(
+                    mirror_curve,
+                    tooth_curve,
+                    fillet_radius,
+                    start_locations=[1 - guess, guess],
+                )
+                if sol.success:
+                    break
             arc.set_start_on(0.5)
             tooth_curve.set_start_on(t2)
             tooth_curve.insert(0, arc)
 
         else:
-            arc, t1, t2, sol = crv.calc_tangent_arc(
-                tooth_curve,
-                mirror_curve,
-                fillet_radius,
-                start_locations=start_locations,
-            )
+            for guess in guesses:
+                arc, t1, t2, sol = crv.calc_tangent_arc(
+                    tooth_curve,
+                    mirror_curve,
+                    fillet_radius,
+                    start_locations=[1 - guess, guess],
+                )
+                if sol.success:
+                    break
             arc.set_end_on(0.5)
             tooth_curve.set_end_on(t1)
             tooth_curve.append(arc)
-- 
2.43.0

