From f32207e5c65b89ab7b608c938aef8933971de726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 01/29] fix: allow a Mirror without a dmd_normal

unit_vector(None) raises TypeError, so no ordinary mirror could be built.
---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From 2177bc81510b2111152112b513f7d800db4a0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 02/29] fix: hand an optic its own inside/outside flag in
 Ray.run

The flag of the last optic in the list was passed to whichever optic was hit,
so a ball lens refracted backwards when another optic followed it in the list.
---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..319e457 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersection_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersection_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 6fbfb47c1ffb6031602f530d034471256740edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 03/29] fix: raise the intersect clipping floor above rounding
 error

At scene sizes of 100 mm the position of a ray on a curved surface is off by
more than 1e-12, so rays met the surface they had just left a second time.
Use the same 1e-9 that Plane already uses.
---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..9890f7f 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index 319e457..d5b25cb 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -19,7 +19,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 63a20df7c01685e6d16a9fb86c246f6310f3aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 04/29] fix: do not hit a tangent point that lies behind the
 ray

---
 Shapes/shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 9890f7f..b33ebc2 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -230,7 +230,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
@@ -345,8 +346,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From eec137100b4b2bc54c86357955053e499db7bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 05/29] fix: return the nearer sphere intersection first

A Compound made of a single Sphere takes the first point and so was hit on its
far side. InfiniteCylinder already returns the nearer point first.
---
 Shapes/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index b33ebc2..b373139 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -333,9 +333,9 @@ class Sphere(Shape):
             if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 2
                 if t0 < t1:
-                    return True, pt1, pt0, norm1, norm0, intersection_count
-                else:
                     return True, pt0, pt1, norm0, norm1, intersection_count
+                else:
+                    return True, pt1, pt0, norm1, norm0, intersection_count
             elif t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 1
                 return True, pt1, None, norm1, None, intersection_count
-- 
2.43.0


From df0a8328736633f8bb608a20b77e563b9ce5de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 06/29] fix: a ray parallel to a cylinder's axis does not
 intersect it

The quadratic degenerates (0 / 0) and a NaN point was returned as a hit.
---
 Shapes/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index b373139..8a0bc41 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -170,7 +170,10 @@ class InfiniteCylinder(Shape):
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
         discriminant = B * B - 4 * A * C
-        if discriminant > 0: # line (not necessarily the ray) intersects in two points
+        if A == 0:  # ray is parallel to the axis and never meets the surface
+            t0_objectSpace = None
+            t1_objectSpace = None
+        elif discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
             # avoid subtracting two things of potentially similar magnitude
-- 
2.43.0


From 00230762544b380044faccd63ea6287c89300cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 07/29] fix: unpack all of helper_findIntersects in
 operCsgDifference

A ray that hits A and misses B raised ValueError.
---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..aeecdae 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -610,7 +610,7 @@ def operCsgDifference(resA, resB, ray):
     # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
     elif resA[0]:
         intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
+        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
         return intersected, pointA, None, normalA, None, intersection_count_total
 
     # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-- 
2.43.0


From cc3eed9169d1696700effeb491f7ea146f9c546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 08/29] fix: pick the right surface of a CSG difference

The far side of B was returned even when B lay wholly in front of A, and rays
starting inside A or B were handled as if they came from outside both.
---
 general_optics.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index aeecdae..5deaf36 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -596,14 +596,35 @@ def operCsgDifference(resA, resB, ray):
         pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
         # take THAT for data
 
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
+        # an odd count means we are shooting from inside that primitive
+        inside_A = resA[5] % 2 == 1
+        inside_B = resB[5] % 2 == 1
+        if inside_A and not inside_B:
+            # we are inside A - B and leave it at whichever surface comes first
+            hit_A = distanceA_near < distanceB_near
+            hit_B = not hit_A
+        elif inside_A:
+            # we are inside B too: we enter A - B if we leave B before we leave A
+            hit_A = False
+            hit_B = distanceB_far < distanceA_far
+        elif inside_B:
+            # we enter A - B at A if we are out of B by then, else at B if we leave it within A
+            hit_A = distanceB_far < distanceA_near
+            hit_B = not hit_A and distanceB_far < distanceA_far
+        else:
+            # from the magic internet pseudocode, with B also allowed to lie wholly in front of A:
+            hit_A = distanceA_near < distanceB_near or distanceB_far < distanceA_near
+            hit_B = not hit_A and distanceB_far < distanceA_far
+
+        if hit_A:
             return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
+        elif hit_B:
+            # the only B surface ahead when we are inside B is the far one
+            if inside_A and not inside_B:
+                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
             return intersected, pointB_far, None, normalB_far, None, intersection_count_total
         else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
+            # A is swallowed by B along this ray
             intersected = False
             return intersected, None, None, None, None, intersection_count_total
 
-- 
2.43.0


From 699babf77d8090a8a00e5159a5a123f43f6a28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 09/29] fix: leave a CSG union at its own surface

A ray starting inside one operand was stopped at the part of a surface that is
buried inside the other operand.
---
 general_optics.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 5deaf36..7d2dade 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -443,7 +443,22 @@ def operCsgUnion(resA, resB, ray):
 
         # get int pt for UNION: min(tA_min, tB_min)
         if (pointA is not None) and (pointB is not None):
-            if distanceA < distanceB:
+            # an odd count means we are shooting from inside that primitive
+            inside_A = resA[5] % 2 == 1
+            inside_B = resB[5] % 2 == 1
+            if inside_A and inside_B:
+                # we leave the union when we leave the last of the two
+                hit_A = distanceA > distanceB
+            elif inside_A:
+                # we leave the union with A, unless we enter B before and leave it after that
+                pointB, normalB, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
+                hit_A = distanceB > distanceA or distanceB_far < distanceA
+            elif inside_B:
+                pointA, normalA, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
+                hit_A = not (distanceA > distanceB or distanceA_far < distanceB)
+            else:
+                hit_A = distanceA < distanceB
+            if hit_A:
                 intersection_point = pointA
                 normal = normalA
             else:
-- 
2.43.0


From 070a178d5f0ff871c0994e8307b2f6fc0d054acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 10/29] fix: keep angle_between of parallel vectors from being
 NaN

The dot product of two unit vectors can exceed 1 by rounding.
---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 7d2dade..cfe0d0e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -29,7 +29,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From 5065d75ca7d4f905ba0ae2edcfb310e1a57c6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 11/29] fix: make the vector-to-vector rotation matrices proper
 rotations

For opposite vectors they returned the inversion -I, which is no rotation, for
nearly opposite ones rotation_matrix2 divided by zero and gave NaN, and they
normalized the caller's vectors in place (and so rejected integer ones).
---
 general_optics.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index cfe0d0e..8114a36 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -59,20 +59,31 @@ def rotation_matrix_axis_angle(axis, theta):
                      [2 * (bd + ac), 2 * (cd - ab), aa + dd - bb - cc]])
 
 
+def half_turn_matrix(a):
+    """
+    Calculates the matrix of a half turn that reverses unit vector a, about an axis perpendicular to it.
+    """
+    axis = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+    return rotation_matrix_axis_angle(axis, np.pi)
+
+
 # https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
 def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = a / np.linalg.norm(a)
+    b = b / np.linalg.norm(b)
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+    if 1 + cos_angle < 1e-3:
+        # (nearly) opposite, the division below breaks down: reverse a first, a small turn is left to do
+        M = np.dot(rotation_matrix2(-a, b), half_turn_matrix(a))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
@@ -127,15 +138,18 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = v1 / np.linalg.norm(v1)
+    v2 = v2 / np.linalg.norm(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
     sin_angle = np.linalg.norm(d)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+    if 1 + cos_angle < 1e-3:
+        # (nearly) opposite, the axis below is ill-defined: reverse v1 first, a small turn is left to do
+        M = np.dot(half_turn_matrix(v1), rotation_matrix(-v1, v2))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         d /= sin_angle
 
-- 
2.43.0


From 1083cd57eb5cc14212249fb5986187ac65ca3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 12/29] fix: savitzky_golay on numpy without np.int

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index f08e1ba..1e31bda 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = abs(int(window_size))
+        order = abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0


From a2b706e296a89fbc3c41c413ea148b400a76c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 13/29] fix: pass FD_int_num an integer number of intervals

numpy no longer accepts a float sample count, so every |eta| <= 20 raised.
---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 1e31bda..d6a8a74 100755
--- a/general.py
+++ b/general.py
@@ -80,7 +80,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-            t = np.linspace( a, b, N + 1 ) # generate intervals
+            t = np.linspace( a, b, int(N) + 1 ) # generate intervals
             x = np.exp( t - np.exp( -t ) )
             f = x * ( 1 + np.exp( -t ) ) * x ** j / ( 1+ np.exp( x - eta ) )
             y = np.trapz( t, f )
-- 
2.43.0


From 9edd32d37e049e961d3a072b79f4a9d191e94c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 14/29] fix: obey the grating equation for light from the
 positive side

For alpha > 0 the specular ray was turned further away from the normal instead
of back onto it, so no order but zero came out at an angle that satisfies
G m lambda = sin(alpha) + sin(beta). The Czerny-Turner script uses that side of
its grating; by the documented sign convention its order is -1.
---
 optics3d.py       | 5 +++--
 script_czerny1.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index d5b25cb..8a1eada 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -810,9 +810,10 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            # r is at -alpha from the grating normal: turn it onto the normal, then by beta towards the incident light
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
diff --git a/script_czerny1.py b/script_czerny1.py
index ce258bb..dc21cea 100644
--- a/script_czerny1.py
+++ b/script_czerny1.py
@@ -66,7 +66,7 @@ for xnorm in ray_sweep_xnorm:
         for z in ray_sweep_z:
             for x in ray_sweep_x:
                 for wave in ray_sweep_wavelength:
-                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=1, print_trajectory=False))
+                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=-1, print_trajectory=False))
 
 
 for ray in Ray_list:
-- 
2.43.0


From b1e9087006e8f04bb7cedee7edd0d9491a3f37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 15/29] fix: reflect light that meets a grating from behind
 back to its own side

---
 optics3d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 8a1eada..7c55b99 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -787,6 +787,8 @@ class Ray:
         elif reflect_type == "grating":
             normal = unit_vector(normal)
             incident = unit_vector(self.direction)
+            if np.dot(incident, normal) > 0:  # the angles are measured from the normal on the incident side
+                normal = -normal
             # get only angles in the grating active plane
             dispersion_plane_normal = optic.tangent
             n = unit_vector(project_onto_plane(normal, dispersion_plane_normal))
-- 
2.43.0


From 1217481e50d485c150fcf48b8726f70d33758869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 16/29] fix: block a ray whose grating order does not propagate

arcsin gave a NaN direction, and the ray flew on to NaN positions.
---
 optics3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 7c55b99..9815ff0 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -808,7 +808,11 @@ class Ray:
             # d = groove spacing (mm)
             # sign convention: negative orders are towards the side of zero order
             #                  positive orders are backtowards the incident light
-            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))
+            sin_beta = optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha)
+            if np.abs(sin_beta) > 1:  # this order does not propagate, so nothing leaves the grating
+                self.blocked = True
+                return
+            beta = np.arcsin(sin_beta)
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-- 
2.43.0


From 88f0a464458accd36ec9b24ff34e45c69ce38e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 17/29] fix: report where a ray leaves a CSG intersection

Only the entry point was returned, so an intersection used as an operand of
another node was taken for a ray starting inside it: a lens of two spheres and
an edge cylinder was hit at the wrong surface.
---
 general_optics.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 8114a36..3acd717 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -531,14 +531,20 @@ def operCsgIntersect(resA, resB, ray):
         # print(f"distanceA_far = {distanceA_far}")
         # print(f"distanceB_far = {distanceB_far}")
 
+        # once in A and B, we leave at the first far intersection; the parent node needs to know where
+        if distanceA_far < distanceB_far:
+            point_far, normal_far = pointA_far, normalA_far
+        else:
+            point_far, normal_far = pointB_far, normalB_far
+
         # if both numbers are even, we are hitting both things from the outside
         if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
             ######
             # from the magic internet pseudocode:
             if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
+                return intersected, pointB_near, point_far, normalB_near, normal_far, 2
             elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
+                return intersected, pointA_near, point_far, normalA_near, normal_far, 2
             else:
                 # I don't think it's supposed to reach here, but whatever, lets just put something
                 print("alert: something weird happening in operCsgIntersect, case 1")
@@ -557,7 +563,7 @@ def operCsgIntersect(resA, resB, ray):
             # um, okay so if we're inside B and we haven't exited, the next intersection is the near A, right?
             else:
                 intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
+                return intersected, pointA_near, point_far, normalA_near, normal_far, 2
         # if B is even and A is odd, we are outside B and we are inside A
         elif np.isclose(np.mod(number_intersectionsB, 2), 0):
             # both the A distances (_near, _far) returned from our helper should be the same
@@ -570,12 +576,11 @@ def operCsgIntersect(resA, resB, ray):
             # um, okay so if we're inside A and we haven't exited, the next intersection is the near B, right?
             else:
                 intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
+                return intersected, pointB_near, point_far, normalB_near, normal_far, 2
         # if A and B are both odd, we are inside both A and B
         else:
-            # in this case, each one gives odd intersection counts, so it'll say we're inside, but we're not...
-            # this is probably a sign of big trouble, but for now let me just put a plus one in here ## TODO
-            intersection_count_total += 1
+            # we are inside A n B too, and only leave it
+            intersection_count_total = 1
             # so we just need to take the nearest intersection
             # both the A and B distances (_near, _far) returned from our helper should be the same
             distanceA = distanceA_near
-- 
2.43.0


From 9b06f74bdb0de9c440198da8447d975b4805a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 18/29] fix: print an Optic without the optic_type it does not
 have

---
 optics3d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 9815ff0..2a884b3 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -60,8 +60,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
-                                                       to_precision(self.position[0], 5),
+        return("Optic ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
                                                        to_precision(self.normal[0], 5),
-- 
2.43.0


From 55212f426bf7c33d2ea6233bec5e02168d158477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 19/29] fix: print ball mirrors and ball lenses, which have no
 normal

---
 optics3d.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 2a884b3..31075fc 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -167,12 +167,17 @@ class Mirror(Optic):
             self.surfaces.append(Circle(position, normal, D=D))
             self.surfaces.append(Sphere(center=self.p_rc, R=self.rc))
         elif shape == "circular_convex_spherical":
+            self.normal = None  # a whole ball
             self.surfaces.append(Sphere(center=self.position, D=self.D))
         else:
             raise ValueError("Unknown shape")
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Mirror ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
@@ -345,6 +350,10 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Lens ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-- 
2.43.0


From 5efc5492bfe1ccaef47df8bc3f30c51c8ca6ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 20/29] fix: let matplotlib 3.10+ render the flattened optics

A figure with a drawn mirror, lens or grating raised AttributeError when shown.
---
 general_optics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/general_optics.py b/general_optics.py
index 3acd717..31c84cf 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -183,6 +183,7 @@ def pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):
     pathpatch.__class__ = art3d.PathPatch3D  # Change the class
     pathpatch._code3d = path.codes  # Copy the codes
     pathpatch._facecolor3d = pathpatch.get_facecolor  # Get the face color
+    pathpatch._axlim_clip = False  # matplotlib >= 3.10 looks for it when rendering
 
     verts = path.vertices  # Get the vertices in 2D
 
-- 
2.43.0


From cfd556d654583b1d22fb7a8950bf82e44cfe3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 21/29] fix: draw rectangular mirrors and gratings along their
 tangent

The patch was only turned to the normal, so it was drawn rotated about it
whenever the tangent did not happen to fit. Draw the actual bounds, as Detector
does.
---
 optics3d.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 31075fc..c66ff24 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -12,7 +12,6 @@ from general_optics import unit_vector, angle_between, distance_between, pathpat
     rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
-from matplotlib.patches import Rectangle as mplRectangle
 from Shapes.shapes import Rectangle, Circle, Sphere
 
 # note: we are representing vectors as 1d numpy arrays, i.e., R = np.array([x, y, z])
@@ -292,14 +291,8 @@ class Mirror(Optic):
                 # return the Artist created
                 return None
             elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black", alpha=0.5))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -532,14 +525,8 @@ class Grating(Optic):
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
             if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black", alpha=0.5))
                 # return the Artist created
                 return None
 
-- 
2.43.0


From fba40dac1be2572a211a7e26fab272a8a8a94f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 22/29] fix: spell markersize the way matplotlib accepts in the
 example scripts

---
 script_testBestformLens.py       | 4 ++--
 script_testCompoundDifference.py | 2 +-
 script_testCompoundIntersect.py  | 2 +-
 script_testCylinder.py           | 4 ++--
 script_testSingletLens.py        | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/script_testBestformLens.py b/script_testBestformLens.py
index b47a6e8..253bc6a 100644
--- a/script_testBestformLens.py
+++ b/script_testBestformLens.py
@@ -82,7 +82,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1)
 
 
 
@@ -98,7 +98,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
diff --git a/script_testCompoundDifference.py b/script_testCompoundDifference.py
index 88b93a5..57dadab 100644
--- a/script_testCompoundDifference.py
+++ b/script_testCompoundDifference.py
@@ -58,7 +58,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1.0)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1.0)
 for optic in Optic_list:
     optic.draw(ax, view="3d")
 
diff --git a/script_testCompoundIntersect.py b/script_testCompoundIntersect.py
index 9f61176..772751e 100644
--- a/script_testCompoundIntersect.py
+++ b/script_testCompoundIntersect.py
@@ -56,7 +56,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 for optic in Optic_list:
     optic.draw(ax, view="3d")
 
diff --git a/script_testCylinder.py b/script_testCylinder.py
index 3dbaaba..9dd2e0f 100644
--- a/script_testCylinder.py
+++ b/script_testCylinder.py
@@ -61,7 +61,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 2], "ob", markersize=1)
 plt.axis("equal")
 
 
@@ -78,7 +78,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
diff --git a/script_testSingletLens.py b/script_testSingletLens.py
index e03b9f1..26cfc4c 100644
--- a/script_testSingletLens.py
+++ b/script_testSingletLens.py
@@ -74,7 +74,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1)
 
 
 
@@ -90,7 +90,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
-- 
2.43.0


From 2e23573dcec6ca44ddac500fee3d4e5b1544d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 23/29] fix: drop the Lens argument that no longer exists from
 the ball lens script

---
 script_testBallLens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script_testBallLens.py b/script_testBallLens.py
index 3b50e38..dee9cbe 100644
--- a/script_testBallLens.py
+++ b/script_testBallLens.py
@@ -15,7 +15,7 @@ plt.close("all")
 
 lens_center = np.array([0, 100, 0])
 
-lens1 = Lens(lens_center, shape="spherical", D=50, thinlens=False, index=1.5)
+lens1 = Lens(lens_center, shape="spherical", D=50, index=1.5)
 Optic_list = []
 Optic_list.append(lens1)
 
-- 
2.43.0


From 6efb9ae07a1bb09a3a38ea0e84608361da6b41be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 24/29] fix: delete_files_with_extension must not trip over
 folders named like the files

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index d6a8a74..e020ba8 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From a1f3dc347081e6c2d3d0dcff584acce6f93260ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 25/29] fix: the surface count a CSG node reports must say
 whether the ray starts inside it

---
 general_optics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 31c84cf..d1dd984 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -445,6 +445,8 @@ def operCsgUnion(resA, resB, ray):
     normalB = None
     normalA = None
     intersection_count_total = resA[5] + resB[5]
+    if resA[5] % 2 == 1 and resB[5] % 2 == 1:
+        intersection_count_total = 1  # inside both is still inside: keep the count odd
 
     # if the ray is hitting both primitives:
     if resA[0] and resB[0]:
@@ -513,9 +515,8 @@ def operCsgIntersect(resA, resB, ray):
     #   "First time in A and B"
     #
 
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
+    # outside of the intersection unless we are inside both (see below): a miss has an even count
+    intersection_count_total = 0
 
     # if the ray is hitting both primitives:
     if resA[0] and resB[0]:
@@ -620,6 +621,8 @@ def operCsgDifference(resA, resB, ray):
 
     # um, not sure about the intersection count logic here, might be right might not be ## TODO
     intersection_count_total = resA[5] + resB[5]
+    if resA[5] % 2 == 0 and resB[5] % 2 == 1:
+        intersection_count_total += 1  # inside B alone is outside of A - B: make the count even
 
     # if the ray is hitting both primitives:
     if resA[0] and resB[0]:
-- 
2.43.0


From e76c3df3520b4d65c9e97ffd2fd9dded4fad8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 26/29] fix: a ray that misses the common part of two solids is
 no reason to print an alert

---
 general_optics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index d1dd984..55b2614 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -548,8 +548,7 @@ def operCsgIntersect(resA, resB, ray):
             elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
                 return intersected, pointA_near, point_far, normalA_near, normal_far, 2
             else:
-                # I don't think it's supposed to reach here, but whatever, lets just put something
-                print("alert: something weird happening in operCsgIntersect, case 1")
+                # the ray leaves one of them before it enters the other, so it misses what they have in common
                 intersected = False
                 return intersected, None, None, None, None, intersection_count_total
             ######
-- 
2.43.0


From 3091234407fe4d6e120d5067d62f2cbd1d84f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 27/29] fix: nparray2spacedstring no longer changes numpy's
 print options for the whole process

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index e020ba8..5d5fb3b 100755
--- a/general.py
+++ b/general.py
@@ -369,9 +369,9 @@ def prism10widetextarray(nparray,numleftpadspaces,numrightpadspaces,numleftinden
 def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
     import re
     import numpy as np
-    np.set_printoptions(threshold=np.inf)
     spaced_str = np.array2string(
         nparray,
+        threshold = np.inf,
         precision = 5,
         max_line_width = max_line_width,
         separator=',',
-- 
2.43.0


From 8fe7f603dc8b58f24a598d79ba3fa90fa5a4df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 28/29] fix: let a concave mirror be its whole cap: met from
 next to it, and again from inside

A ray that started between the mirror's cap and the plane of its vertex, or that
came off a deep mirror towards its other side, crossed the sphere but not the disc
at the vertex any more and passed through.
---
 optics3d.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index c66ff24..f062be5 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -207,24 +207,17 @@ class Mirror(Optic):
                     break
             if intersected_sphere:
                 for surface in self.surfaces:
-                    if isinstance(surface, Circle):  # then check for intersection with the Circle
-                        intersected_circle, int_pt_circle, normal_circle = surface.test_intersect(ray)
+                    if isinstance(surface, Circle):  # then see which points are on the mirror, the nearer one first
+                        for int_pt, norm in ((int_pt_sphere1, norm1), (int_pt_sphere2, norm2)):
+                            if int_pt is None or intersected:
+                                continue
+                            along = np.dot(int_pt - self.position, self.normal)
+                            off_axis = distance_between(int_pt, self.position + along * self.normal)
+                            if along < self.rc and off_axis < surface.R:
+                                intersected = True
+                                intersection_pt = int_pt
+                                normal = norm
                         break
-                if intersected_sphere and intersected_circle:
-                    intersected = True  # pick the sphere intersection that is closest to the circle
-                                        # TODO: edge cases, the above isn't exhaustive
-                    distance1 = distance_between(int_pt_circle, int_pt_sphere1)
-                    if int_pt_sphere2 is not None:
-                        distance2 = distance_between(int_pt_circle, int_pt_sphere2)
-                        if distance1 < distance2:
-                            intersection_pt = int_pt_sphere1
-                            normal = norm1
-                        else:
-                            intersection_pt = int_pt_sphere2
-                            normal = norm2
-                    else:
-                        intersection_pt = int_pt_sphere1
-                        normal = norm1
         elif self.shape == "circular_convex_spherical":
             normal = None
             for surface in self.surfaces:
-- 
2.43.0


From 036ce6bf09fedeb9a7e373093dec92fc61ef2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 29/29] fix: an intersection of solids that share a surface is
 hit where they begin together, not missed

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 55b2614..55b70ea 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -543,7 +543,7 @@ def operCsgIntersect(resA, resB, ray):
         if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
             ######
             # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
+            if ((distanceA_near <= distanceB_near) and (distanceA_far > distanceB_near)):
                 return intersected, pointB_near, point_far, normalB_near, normal_far, 2
             elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
                 return intersected, pointA_near, point_far, normalA_near, normal_far, 2
-- 
2.43.0

