From 912cc50f802cd23139b7920c136bc7f3b0806149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 01/50] fix: Line.is_equal confused a line with its mirror
 image through the origin

x=1 and x=-1 have the same offset and directions differing by pi; directions
may only be compared modulo pi for lines through the origin. Also handles
the wrap-around of the direction at 0.
---
 planegeometry/geometry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789bf95..af2fb74 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -128,9 +128,13 @@ class Line:
         do2 = line2.direction_offset()
         do1 = (do1["direction"], do1["offset"])
         do2 = (do2["direction"], do2["offset"])
-        if approx_equal_(do1[1], do2[1]):
-            return approx_equal_(do1[0] % pi, do2[0] % pi)
-        return np.allclose(do1, do2)
+        if not approx_equal_(do1[1], do2[1]):
+            return False
+        delta = do1[0] - do2[0]
+        if approx_equal_(do1[1], 0):
+            # line through the origin: the direction is defined modulo pi
+            return approx_equal_(sin(delta), 0)
+        return cos(delta) > 0 and approx_equal_(sin(delta), 0)
     
     def is_parallel(self, line2):
         """Check whether the reference line is parallel to another line.
-- 
2.43.0


From dd8c35fdbeaf5f5e42c01afeb64cea5f189a1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 02/50] fix: Line.is_parallel depended on the distance between
 the defining points

---
 planegeometry/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index af2fb74..c9b0e58 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -154,7 +154,9 @@ class Line:
         dy1 = P1[1] - P2[1]
         dy2 = Q1[1] - Q2[1]
         D = det2x2_((dx1, dy1), (dx2, dy2))
-        return abs(D) < sepsilon_
+        return abs(D) < sepsilon_ * sqrt(
+            (dx1*dx1 + dy1*dy1) * (dx2*dx2 + dy2*dy2)
+        )
 
     def is_perpendicular(self, line2):
         """Check whether the reference line is perpendicular to another line.
-- 
2.43.0


From aba5fde3476cd5ff9c6257e3fe8ac1c4a3b54aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 03/50] fix: Line.is_perpendicular depended on the distance
 between the defining points

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c9b0e58..4a34455 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -169,7 +169,7 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         AB = self.B - self.A
         CD = line2.B - line2.A
-        return approx_equal_(np.vdot(AB, CD), 0)
+        return abs(np.vdot(AB, CD)) < sepsilon_ * vlength_(AB) * vlength_(CD)
 
     
     def includes(self, M, strict = False, checkCollinear = True):
-- 
2.43.0


From 6246932da472bfc0db937eda3f2b4c67bffd1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 04/50] fix: Line.includes excluded the origin of a half-line
 in strict mode

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4a34455..14ed762 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -200,12 +200,12 @@ class Line:
             print("The point is on the line (AB), but not on the segment [AB].")
             return False
         if extendA:
-            if np.any((M-B)*(A-B)>0):
+            if dot_(M-B, A-B) >= 0:
                 return True
             print("The point is on the line (AB), but not on the half-line (AB].")
             return False
         # extendB
-        if np.any((M-A)*(B-A)>0):
+        if dot_(M-A, B-A) >= 0:
             return True
         print("The point is on the line (AB), but not on the half-line [AB).")
         return False
-- 
2.43.0


From 997535e964b7bdd9a9369c4bd2e0df1c16792004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 05/50] fix: intersection of two equal lines returned None
 instead of the line

---
 planegeometry/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 14ed762..f8df7d2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -347,8 +347,7 @@ class Line:
 
 def intersection_line_line(line1, line2, strict=False):
     if line1.is_equal(line2):
-        print("TO DO")
-        return
+        return line1
     if line1.is_parallel(line2):
         print("Distinct parallel lines.")
         return None
-- 
2.43.0


From 70bd913d90e9c00db98bb0a36eeecc6aaa15c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 06/50] fix: reflecting a point close to the reflection line
 raised an error

The perpendicular through such a point is not a valid Line (its two points
are too close); use the projection directly.
---
 planegeometry/geometry.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f8df7d2..19084de 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2717,11 +2717,7 @@ class Reflection:
             return inf
         _ = error_if_not_point_(P=P)
         P = np.asarray(P, dtype=float)
-        line = self.line
-        if line.includes(P):
-            return P
-        perp = line.perpendicular(P, False, False)
-        return P + 2 * (perp.A - perp.B)
+        return 2 * self.line.projection(P) - P
     
     def reflect(self, P):
         """An alias of `transform`.
-- 
2.43.0


From 3515b9821e65960293ca47d5f89b55e9fa4694e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 07/50] fix: orthogonal_through_two_points_in_circle compared a
 distance with the squared radius

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 19084de..4d5face 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -473,9 +473,9 @@ class Circle:
         I = self.center
         r = self.radius
         r2 = r * r
-        if distance_(P1, I) >= r2:
+        if distance_(P1, I) >= r:
             raise ValueError("`P1` is not in the interior of the reference circle.")
-        if distance_(P2,I) >= r2:
+        if distance_(P2, I) >= r:
             raise ValueError("`P2` is not in the interior of the reference circle.")
         if collinear_(I, P1, P2):
             return Line(P1, P2, not arc, not arc)
-- 
2.43.0


From 8cd6b06c6700fd028f91fff047e7dc8baf29f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 08/50] fix: orthogonal arc through two points in a circle
 could leave the circle

When the arc straddles the angle 0, the complementary arc was returned.
---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4d5face..c38b6ac 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -490,10 +490,11 @@ class Circle:
         if arc:
             theta1 = atan2(P1[1]-O[1], P1[0]-O[0]) % (2*pi)
             theta2 = atan2(P2[1]-O[1], P2[0]-O[0]) % (2*pi)
-            return Arc(
-                O, distance_(O, P1),
-                min(theta1, theta2), max(theta1, theta2), False
-            )
+            # the arc inside the reference circle is shorter than a half-circle
+            theta1, theta2 = min(theta1, theta2), max(theta1, theta2)
+            if theta2 - theta1 > pi:
+                theta1, theta2 = theta2, theta1 + 2*pi
+            return Arc(O, distance_(O, P1), theta1, theta2, False)
         return Circle(O, distance_(O, P1))
     
     def orthogonal_through_two_points_on_circle(self, alpha1, alpha2, arc = False):
-- 
2.43.0


From 3f5efe9c14b00b6dfd848f9dfa52922c1881605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 09/50] fix: missed diameter in
 orthogonal_through_two_points_on_circle

Two angles that differ by pi up to rounding gave a circle with a radius of
about 1e16 instead of a line.
---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c38b6ac..4160b21 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -512,7 +512,7 @@ class Circle:
         I = self.center
         r = self.radius
         dalpha = alpha1 - alpha2
-        if dalpha % pi == 0:
+        if approx_equal_(sin(dalpha), 0):
             eialpha1 = unit_vector_(alpha1)
             A = I + r*eialpha1
             B = I - r*eialpha1
-- 
2.43.0


From c9d6d705ed972d1c0fc368f58630ed55362c872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 10/50] fix: Circle.angle raised a domain error for tangent
 circles

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4160b21..8a3b650 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -647,7 +647,7 @@ class Circle:
         bprime1 = r1 * (dot_(a1) - 1)
         bprime2 = r2 * (dot_(a2) - 1)
         cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
-        return acos(cos_theta)
+        return acos(max(-1, min(1, cos_theta)))
 
 def circleAB(A, B):
     """Circle with diameter `AB`.
-- 
2.43.0


From 71ab8db24439478e7564ce735d18df45f9776a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 11/50] fix: tangent lines could be reported as not
 intersecting the circle

The discriminant of a tangent line may be slightly negative because of
rounding, and its size depends on the size of the configuration.
---
 planegeometry/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index f8a5a30..4fd2017 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -115,10 +115,10 @@ def circle_line_intersection_(A1, A2, r):
     dr2 = dx*dx + dy*dy
     D = det2x2_(A1, A2)
     Delta = r*r*dr2 - D*D
+    if abs(Delta) < sepsilon_ * r*r*dr2:
+        return D/dr2 * np.array([dy, -dx])
     if Delta < 0:
         return None
-    if Delta < sepsilon_:
-        return D/dr2 * np.array([dy, -dx])
     sgn = -1 if dy < 0 else 1
     Ddy = D*dy
     sqrtDelta = sqrt(Delta)
-- 
2.43.0


From ccdb46aeddc49c074c1c94fbda89c772098cfbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 12/50] fix: Inversion.invert_gcircle always raised a TypeError

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8a3b650..5da54ab 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1558,9 +1558,9 @@ class Inversion:
         :returns: A `Circle` object or a `Line` object.
         
         """
-        if isinstance(gcircle, "Circle"):
+        if isinstance(gcircle, Circle):
             return self.invert_circle(gcircle)
-        if isinstance(gcircle, "Line"):
+        if isinstance(gcircle, Line):
             return self.invert_line(gcircle)
         raise ValueError("`gcircle` must be a `Line` object or a `Circle` object.")
     
-- 
2.43.0


From 285d3a00e49b5d0124114f2288ab3627b79e9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 13/50] fix: mid_circles failed for congruent tangent circles
 because of rounding

Exact comparisons of floats: tangency could give a circle of null radius
(an error), and equal radii could give a center at a distance of 1e16.
---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5da54ab..ac06f62 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -719,7 +719,7 @@ def mid_circles(circ1, circ2):
     r2 = circ2.radius
     O1 = circ1.center
     O2 = circ2.center
-    if r1 == r2:
+    if approx_equal_(r1, r2):
         if np.allclose(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
@@ -730,7 +730,7 @@ def mid_circles(circ1, circ2):
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2: # they intersect at two points
+            if d2 < sumRadii2 - sepsilon_: # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
-- 
2.43.0


From 68387184e6db9e4595809d5e16abe9d45c7dc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 14/50] fix: Inversion.from_swapping_two_circles for tangent
 circles

Return the documented reflection for congruent tangent circles (it was None),
and recognize tangent circles in spite of rounding: an exact comparison could
give an inversion whose power is almost 0.
---
 planegeometry/geometry.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ac06f62..19af18f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1614,30 +1614,28 @@ class Inversion:
         c2 = circ2.center
         r2 = circ2.radius
         c1c2 = distance_(c1, c2)
-        if r1 == r2:
+        outside_tangent = isclose(c1c2, r1+r2)
+        if isclose(r1, r2):
             I = (c1 + c2) / 2
+            if outside_tangent:
+                print("No possible inversion; returning a reflection")
+                x, y = c2 - c1
+                v = np.array([-y, x])
+                return Reflection(Line(I+v, I-v))
             if c1c2 < r1+r2: # they intersect at two points or are equal
                 if not positive:
                     print("`positive = False` not possible; switching to `True`")
                 k = abs(dot_(I - c2) - r2*r2)
                 return Inversion(I, k)
-            if c1c2 > r1+r2: # they do not intersect
-                if positive:
-                    print("`positive = True` not possible; switching to `False`")
-                k = -abs(dot_(I - c2) - r2*r2)
-                return Inversion(I, k)
-            # they touch
-            print("No possible inversion; returning a reflection")
-            x, y = c2 - c1
-            v = np.array([-y, x])
-            print("TO DO")
-            return#Reflection(Line(I+v, I-v))
-        inside = inside_tangent = False
-        if max(r1, r2) >= c1c2 + min(r1, r2):
-            inside = True
-            inside_tangent = max(r1, r2) == c1c2 + min(r1, r2)
+            # they do not intersect
+            if positive:
+                print("`positive = True` not possible; switching to `False`")
+            k = -abs(dot_(I - c2) - r2*r2)
+            return Inversion(I, k)
+        inside_tangent = isclose(max(r1, r2), c1c2 + min(r1, r2))
+        inside = inside_tangent or max(r1, r2) > c1c2 + min(r1, r2)
         if (not positive) and ((not inside) or inside_tangent):
-            they_intersect = c1c2 <= r1+r2
+            they_intersect = outside_tangent or c1c2 <= r1+r2
             if they_intersect:
                 print("`positive = False` not possible; switching to `True`")
                 positive = True
-- 
2.43.0


From 0de70da211902c376d14f596bcaaa677e24ed5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 15/50] fix: Triangle.orientation returned the opposite of the
 documented sign

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 19af18f..b528ad5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1815,7 +1815,7 @@ class Triangle:
         B = self.B
         C = self.C
         val = (B[1] - A[1])*(C[0] - B[0]) - (B[0] - A[0])*(C[1] - B[1])
-        return 0 if val==0 else (1 if val>0 else -1)
+        return 0 if val==0 else (-1 if val>0 else 1)
     
     def contains(self, M):
         """Check whether a point lies inside the reference triangle.
-- 
2.43.0


From e8b346a1f59b58a99f50de6b3282f114b036f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 16/50] fix: Ellipse.theta2t failed at 0 and jumped near
 multiples of pi

ZeroDivisionError for theta=0, and the number of half-turns was wrong when
theta is close to a multiple of pi.
---
 planegeometry/geometry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b528ad5..3daf29f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1178,10 +1178,9 @@ class Ellipse:
         _ = error_if_not_boolean_(degrees=degrees)
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 1 if theta_mod_2pi < sepsilon_ else -1
-        theta_eps = theta + sgn*sepsilon_
-        return atan2(self.rmajor/self.rminor, 1/tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        t = atan2(self.rmajor * sin(theta), self.rminor * cos(theta))
+        # `t` and `theta` are in the same quadrant
+        return t + 2*pi * round((theta - t) / (2*pi))
     
     def diameter(self, t, conjugate=False):
         """Diameter of the ellipse.
-- 
2.43.0


From 0d505875125aeeb1bd2d9bf7d76983c5c55b729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 17/50] fix: Ellipse.point_from_angle modified the array of
 angles it was given

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3daf29f..7199196 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1052,7 +1052,7 @@ class Ellipse:
         if not is_number_(theta):
             if not is_vector_(theta):
                 raise ValueError("`theta` must be a number or a vector of numbers.")
-            theta = np.asarray(theta, dtype=float)
+            theta = np.array(theta, dtype=float)
             if not is_real_vector_(theta):
                 raise ValueError("`theta` cannot be converted to a vector of real numbers.")
         else:
-- 
2.43.0


From 263f930dac250dfa989d9d1a191696dd0b9023c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 18/50] fix: Ellipse.point_from_angle returned the opposite
 point near multiples of pi

---
 planegeometry/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 7199196..cf798a7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1065,10 +1065,7 @@ class Ellipse:
             alpha *= pi/180
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
-        theta_eps = theta + sepsilon_ * sgn
-        t = np.arctan2(a/b, 1/np.tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        t = np.arctan2(a * np.sin(theta), b * np.cos(theta))
         out = ellipse_points_(t, O, a, b, alpha)
         if len(theta) == 1:
             out = out[0]
-- 
2.43.0


From c9b1084b9a292a5f81f53c0092b211670ddd7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 19/50] fix: Ellipse.includes depended on the size of the
 ellipse

The absolute tolerance on a quantity of order rmajor^2*rminor^2 rejected
points of a large ellipse and accepted points far from a small one.
---
 planegeometry/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index cf798a7..915d57d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1133,9 +1133,8 @@ class Ellipse:
         """
         _ = error_if_not_point_(P=P)
         A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        zero = A*x*x + B*x*y + C*y*y + D*x + E*y + F
-        return isclose(1.0, zero+1.0)
+        x, y = np.asarray(P, dtype=float) - self.center
+        return isclose(A*x*x + B*x*y + C*y*y, (self.rmajor * self.rminor)**2)
 
     def contains(self, P):
         """Check whether a point is contained in the ellipse.
-- 
2.43.0


From fb2e6c233dc8699a567e230105aac92fae3410d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 20/50] fix: Ellipse.is_equal for circles and for angles around
 0 modulo 180

Two equal ellipses with angles 0 and 180-1e-12 were different, as well as
two equal circular ellipses with different angles.
---
 planegeometry/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 915d57d..aff6372 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -995,9 +995,15 @@ class Ellipse:
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor, alpha1 % 180])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor, alpha2 % 180])
-        return np.allclose(v1, v2)
+        v1 = np.array([x1, y1, self.rmajor, self.rminor])
+        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        if not np.allclose(v1, v2):
+            return False
+        # the angle is defined modulo 180, and it is meaningless for a circle
+        dalpha = (alpha1 - alpha2 + 90) % 180 - 90
+        return bool(
+            np.isclose(self.rmajor, self.rminor) or np.isclose(dalpha, 0, atol=1e-5)
+        )
 
     def path(self, n_points=100):
         """Path that forms the ellipse.
-- 
2.43.0


From 1b952b531d405c35d488515f9e37601b950a9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 21/50] fix: Ellipse.from_equation rejected valid ellipses far
 from the origin

The condition D^2+E^2 > 4(A+C)F is not the one for the ellipse to be real:
it rejected for instance the circle of radius 1 centered at (0, 10)... The
ellipse is real if and only if A*det(Q) < 0.
---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index aff6372..789031e 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1231,10 +1231,10 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        if A*C <= 0 or B*B-4*A*C >= 0 or D*D + E*E <= 4*(A+C)*F:
+        if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-        if np.linalg.det(Q) == 0:
+        if A * np.linalg.det(Q) >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         M0 = np.array([F, D/2, E/2, D/2, A, B/2, E/2, B/2, C]).reshape((3,3))
         M = np.array([[A, B/2], [B/2, C]])
-- 
2.43.0


From 8563bb1b7f751ec76785a8bd38a267383245c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 22/50] fix: Ellipse.from_equation lost the angle when A = C

An ellipse whose axes are at 45 degrees was returned with an angle of 0.
---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789031e..fa7b996 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1244,7 +1244,7 @@ class Ellipse:
         a = sqrt(-detM0 / (detM * eigvals[0]))
         b = sqrt(-detM0 / (detM * eigvals[1]))
         xy = np.array([B*E - 2*C*D, B*D - 2*A*E])
-        phi = 0.0 if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
+        phi = atan2(-B, C-A)/2 if A > 0 else atan2(B, A-C)/2
         return Ellipse(xy/(4*A*C - B*B), max(a,b), min(a,b), (phi*180/pi) % 180)
     
     @classmethod
-- 
2.43.0


From c84c4a83e909c0b507b88c9c18e34c94b2839775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 23/50] fix: Ellipse.from_boundary4 used np.float, removed from
 numpy

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index fa7b996..050b267 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1365,13 +1365,13 @@ class Ellipse:
     
         # shear parallel to x-axis to make diagonals perpendicular
         m = (points[1, 0] - points[3, 0]) / (points[3, 1] - points[1, 1])
-        shear_mat = np.array([[1, m], [0, 1]], dtype=np.float)
+        shear_mat = np.array([[1, m], [0, 1]], dtype=float)
         points = shear_mat.dot(points.T).T
     
         # make the quadrilateral cyclic (i.e. all vertices lie on a circle)
         b = np.linalg.norm(points, axis=1)
         d = b[1] * b[3] / (b[2] * b[0])
-        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=np.float))
+        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=float))
         points = stretch_mat.dot(points.T).T
     
         # compute optimal swing angle by solving cubic equation
-- 
2.43.0


From 96e989b6f3e9a00fe494e32d86c1eece10c9db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 24/50] fix: Ellipse.from_boundary4 returned a huge ellipse for
 some trapezoids

The cubic equation has a root equal to 1 or -1, possibly slightly less than 1 in
absolute value because of rounding, and this root was taken.
---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 050b267..5b959ca 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1383,9 +1383,9 @@ class Ellipse:
             - 8 * a[1] ** 2 * a[2] * a[0] + 3 * (a[1] ** 2 + a[2] ** 2) * a[0] ** 2
         coeff[3] = coeff[1] / 2.
         rts = np.roots(coeff)
-        # take the unique root in the interval (-1, 1)
-        rts = rts[(-1 < rts) & (rts < 1)]
-        theta = asin(np.real(rts[0]))
+        # take the unique root in the interval (-1, 1); for a trapezoid, 1 or -1
+        # is another root, which rounding can bring into the interval
+        theta = asin(np.real(rts[np.argmin(np.abs(rts))]))
     
         # apply transformation D_theta
         D_mat = np.array([[cos(theta) ** -.5,
-- 
2.43.0


From 9c21fba2d98ee4c13fd643bd6028f380984c95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 25/50] fix: Ellipse.LownerJohnEllipse failed for duplicated or
 aligned points

It raised a LinAlgError (or a RecursionError for many points). Keep the
vertices of the convex hull only: the other points play no role.
---
 planegeometry/geometry.py |  6 +++++-
 planegeometry/internal.py | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5b959ca..177cef5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -47,7 +47,8 @@ from .internal import (
     inversion_to_conjugate_mobius_,
     is_inf_,
     approx_equal_, 
-    mobius_from_three_points_to_zero_one_inf_
+    mobius_from_three_points_to_zero_one_inf_,
+    convex_hull_
 )
 
 
@@ -1449,6 +1450,9 @@ class Ellipse:
         """
         if bpoints is None:
             bpoints = np.empty((0,2))
+            # only the vertices of the convex hull matter; duplicated or aligned
+            # points could not be together on the boundary of an ellipse
+            ipoints = convex_hull_(ipoints)
         # stopping condition: stop either if interior is empty or if there are 5
         # points on the boundary, in which case a unique ellipse is determined.
         if ipoints.shape[0] == 0 or bpoints.shape[0] >= 5:
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 4fd2017..ea16070 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -231,6 +231,24 @@ def runif_in_triangle_(n, A, B, C):
         )    
     )
 
+def convex_hull_(points):
+    # vertices of the convex hull: no duplicates, no three aligned points
+    points = np.unique(points, axis=0)
+    def half_hull(pts):
+        hull = []
+        for p in pts:
+            while len(hull) >= 2:
+                u = hull[-1] - hull[-2]
+                v = p - hull[-1]
+                if det2x2_(u, v) > sepsilon_ * vlength_(u) * vlength_(v):
+                    break
+                hull.pop()
+            hull.append(p)
+        return hull[:-1]
+    if points.shape[0] < 3:
+        return points
+    return np.array(half_hull(points) + half_hull(points[::-1]))
+
 def ellipse_from_center_and_eigen_(center, e):
     values, vectors = e
     if np.any(values <= 0):
-- 
2.43.0


From 6350b079661a867786330f489ae2cc4482ccb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 26/50] fix: Projection.show always failed

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 177cef5..dafea5a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2798,8 +2798,8 @@ class Projection:
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
         print("                 A: ", self.D.A, "\n")
         print("                 B: ", self.D.B, "\n")
-        print("                 P: ", self.Delta.P, "\n")
-        print("                 Q: ", self.Delta.Q, "\n")
+        print("                 P: ", self.Delta.A, "\n")
+        print("                 Q: ", self.Delta.B, "\n")
         if self.orthogonal:
             print("This is an orthogonal projection.\n")
 
-- 
2.43.0


From be9d68d41d3e8a32d868e8b1e5c6d20580eebebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 27/50] fix: Projection.project did not project the points near
 A or B

---
 planegeometry/geometry.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index dafea5a..f94dbee 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2811,10 +2811,8 @@ class Projection:
         
         """
         _ = error_if_not_point_(M=M)
-        M = np.asarray(M)
+        M = np.asarray(M, dtype=float)
         D = self.D
-        if D.includes(M):
-            return M
         Delta = self.Delta
         u = Delta.B - Delta.A
         do = D.direction_offset()
-- 
2.43.0


From 0be0bbe8bc70250cead5c7a3f7a9fef9ec9ca17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 28/50] fix: Mobius.fixed_points failed when there are two
 fixed points

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f94dbee..a055d10 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2472,9 +2472,10 @@ class Mobius:
         Delta = (a-d)**2 + 4*b*c
         if Delta == 0:
             return from_complex_((a-d)/2/c)
+        sqrtDelta = np.sqrt(Delta)
         return [
-            from_complex_((a-d + sqrt(Delta))/2/c),
-            from_complex_((a-d - sqrt(Delta))/2/c)            
+            from_complex_((a-d + sqrtDelta)/2/c),
+            from_complex_((a-d - sqrtDelta)/2/c)            
         ]
 
     
-- 
2.43.0


From a92236a2e0be7ea78f422e77bc723f560d0fa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 29/50] fix: Mobius.transform returned nan at some poles

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a055d10..cbbaf73 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2447,7 +2447,7 @@ class Mobius:
         _ = error_if_not_point_(P=P)
         P = np.asarray(P)
         z = complex(*P)
-        condition = c != 0 and z == -d/c
+        condition = c != 0 and (z == -d/c or c*z + d == 0)
         return inf if condition else from_complex_((a*z+b)/(c*z+d))
     
     
-- 
2.43.0


From dd77c6d97c712b089b0faf639287f1349dc78634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 30/50] fix: Mobius.from_mapping_three_points did not work with
 inf

---
 planegeometry/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index ea16070..143694a 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -1,4 +1,5 @@
-from math import cos, sin, sqrt, atan2, pi, isinf, isclose
+from math import cos, sin, sqrt, atan2, pi, isclose
+from cmath import isinf
 import numpy as np
 from fractions import Fraction as Fr
 import numbers
@@ -7,7 +8,7 @@ def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
 def is_inf_(x):
-    return isinstance(x, float) and isinf(x)
+    return isinstance(x, (float, complex)) and isinf(x)
 
 def are_equal_(x, y):
     return (is_inf_(x) and is_inf_(y)) or x==y
-- 
2.43.0


From 968ab4dc115d717e1279875643c0d4259c8a6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 31/50] fix: Scaling.scale_circle exchanged the radii for a
 scale less than -1

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index cbbaf73..e058988 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3406,7 +3406,7 @@ class Scaling:
         A1 = self.transform(C + R*w/lw)
         wt = np.array([-w[1], w[0]])
         A2 = self.transform(C + R*wt/lw)
-        if self.scale >= 1:
+        if abs(self.scale) >= 1:
             r1 = distance_(A1, O)
             r2 = distance_(A2, O)
             alpha = atan2(A1[1]-O[1], A1[0]-O[0]) * 180/pi
-- 
2.43.0


From bfc6573456b6fc4d6b2943cf39cfd22f53c81f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 32/50] fix: Shear did not fix its vertex

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e058988..23126aa 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3096,7 +3096,7 @@ class Shear:
         M1 = np.hstack((np.array([w, wt, Q]), z))
         M2 = np.hstack((np.array([w, tan(angle)*w + wt, Q]), z))
         M = np.matmul(np.linalg.inv(M1), M2)
-        M[:, 2] = M[2, :]
+        M[0:2, 2] = Q - np.matmul(M[0:2, 0:2], Q)
         M[2, :] = np.array([0, 0, 1])
         return M
 
-- 
2.43.0


From 8fd7f54d42115a2334f8bb6c2bd9f27d35e147c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 33/50] fix: Mobius.transform_line failed when the line is
 defined by the pole

---
 planegeometry/geometry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 23126aa..79a3a79 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2544,7 +2544,16 @@ class Mobius:
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
         if abs(A) > sepsilon_:
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
-        return Line(self.transform(line.A), self.transform(line.B))
+        P = line.A
+        Q = line.B
+        if c != 0:
+            # the line passes through the pole
+            M = from_complex_(-d/c)
+            if np.allclose(P, M):
+                P = 2*Q - P
+            elif np.allclose(Q, M):
+                Q = 2*P - Q
+        return Line(self.transform(P), self.transform(Q))
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From 1640b9feb073346cdcfd78150f4c16182b9dceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 34/50] fix: some singular affine maps were not recognized

---
 planegeometry/geometry.py | 7 ++++---
 planegeometry/internal.py | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 79a3a79..025a450 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -26,6 +26,7 @@ from .internal import (
     collinear_,
     circle_points_,
     det2x2_mat_,
+    is_singular_,
     from_complex_,
     mod2_,
     farey_stack_,
@@ -2159,7 +2160,7 @@ class Affine:
         """The inverse affine transformation if it exists.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if is_singular_(self.A):
             print("The affine map is singular.")
             return None
         M = np.linalg.inv(self.get3x3matrix())
@@ -2199,7 +2200,7 @@ class Affine:
         """
         M = self.A
         b = self.b
-        if np.linalg.det(M) == 0:
+        if is_singular_(M):
             print("The affine map is singular.")
             return
         return Line(M.dot(line.A) + b, M.dot(line.B) + b, line.extendA, line.extendB)
@@ -2211,7 +2212,7 @@ class Affine:
         :returns: An `Ellipse` object.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if is_singular_(self.A):
             print("The affine map is singular.")
             return
         if isinstance(ell, Circle):
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 143694a..484c71d 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -93,6 +93,9 @@ def det2x2_(row1, row2):
 def det2x2_mat_(M):
     return det2x2_(M[0, :], M[1, :])
 
+def is_singular_(M):
+    return np.linalg.matrix_rank(M) < 2
+
 def line_line_intersection_(P1, P2, Q1, Q2):
     dx1 = P1[0] - P2[0]
     dx2 = Q1[0] - Q2[0]
-- 
2.43.0


From 7fc3d8a90b14fd98d357f117c4ca8136da06bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 35/50] fix: Mobius.transform_circle missed most of the circles
 passing through the pole

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 025a450..4d67122 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2495,7 +2495,7 @@ class Mobius:
         z0 = complex(*circ.center)
         x1 = mod2_(d + c*z0)
         x2 = R*R*mod2_(c)
-        if x1 != x2: # we are in this case if c=0
+        if not isclose(x1, x2): # we are in this case if c=0
             if x1 > 0:
                 z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
                 w0 = self.transform(from_complex_(z))
-- 
2.43.0


From d1db837ce53a163f9b0c19dc02373c6aa582b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 36/50] fix: Mobius.transform_circle returned nan for some
 circles centered at the pole

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4d67122..56d0255 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2496,7 +2496,7 @@ class Mobius:
         x1 = mod2_(d + c*z0)
         x2 = R*R*mod2_(c)
         if not isclose(x1, x2): # we are in this case if c=0
-            if x1 > 0:
+            if c == 0 or d/c + z0 != 0:
                 z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
                 w0 = self.transform(from_complex_(z))
             else:
-- 
2.43.0


From 7b606381e351b49e92fe836585b6e1120e76410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 37/50] fix: Mobius.gpower depended on the scale of the matrix

---
 planegeometry/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 56d0255..f0cba71 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2404,14 +2404,15 @@ class Mobius:
         M = self.M
         detM = det2x2_mat_(M)
         trM = M[0, 0] + M[1, 1]
-        if abs(trM*trM - 4*detM) < sepsilon_:
+        scale = np.abs(M).max()
+        if abs(trM*trM - 4*detM) < sepsilon_ * scale**2:
             alpha = trM / 2
             D = np.diag((alpha, alpha))
-            if np.allclose(M, D):
+            if np.allclose(M/scale, D/scale):
                 alpha_t = alpha**t
                 return Mobius(np.diag((alpha_t, alpha_t)))
             N = M - D
-            if np.allclose(N[:, 1], np.zeros((2,))):
+            if np.allclose(N[:, 1]/scale, np.zeros((2,))):
                 v2 = np.array([1.0, 0.0])
                 v1 = N[:, 0]
             else:
-- 
2.43.0


From 7d0ae18709e4284e5d4e79379b902d171a4995f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 38/50] fix: Mobius.transform_line depended on the scale of the
 matrix

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f0cba71..7d45826 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2544,7 +2544,7 @@ class Mobius:
         A = -2 * (gamma0 * c * d.conjugate()).real - D0 * mod2_(c)
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
-        if abs(A) > sepsilon_:
+        if abs(A) > sepsilon_ * (abs(c*d) + (1 + D0) * mod2_(c)):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
         P = line.A
         Q = line.B
-- 
2.43.0


From b2ca1bbfbf8eb226b3bdd565d717f1573be30027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 39/50] fix: radical_center failed for some concentric circles

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 7d45826..f207324 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -699,6 +699,8 @@ def radical_center(circ1, circ2, circ3):
         raise ValueError("`circ3` is not a `Circle` object.")
     l1 = circ1.radical_axis(circ2)
     l2 = circ1.radical_axis(circ3)
+    if l1 is None or l2 is None:
+        return None
     return line_line_intersection_(l1.A, l1.B, l2.A, l2.B)
    
 
-- 
2.43.0


From a989cbe202a2e39c0929561354d4c9842cb1e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 40/50] fix: radical_center returned a meaningless point for
 aligned centers

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f207324..b1b5452 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -699,7 +699,7 @@ def radical_center(circ1, circ2, circ3):
         raise ValueError("`circ3` is not a `Circle` object.")
     l1 = circ1.radical_axis(circ2)
     l2 = circ1.radical_axis(circ3)
-    if l1 is None or l2 is None:
+    if l1 is None or l2 is None or l1.is_parallel(l2):
         return None
     return line_line_intersection_(l1.A, l1.B, l2.A, l2.B)
    
-- 
2.43.0


From 4ec5a48e161f7a96d51f78f21567a12f23b27a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 41/50] fix: intersection of two lines always returned None in
 strict mode

---
 planegeometry/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b1b5452..8e8c998 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -354,10 +354,13 @@ def intersection_line_line(line1, line2, strict=False):
         print("Distinct parallel lines.")
         return None
     I = line_line_intersection_(line1.A, line1.B, line2.A, line2.B)
-    if not strict:
-        return I
-    print("TO DO")
-    return
+    if strict:
+        for line in (line1, line2):
+            if line.extendA and line.extendB:
+                continue
+            if not line.includes(I, strict=True, checkCollinear=False):
+                return None
+    return I
 
 
 
-- 
2.43.0


From 35ab6f5fbd1cd45b185f1f7eb5c6ebe4cdbeccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 42/50] fix: radical_axis failed for circles with close centers

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8e8c998..0dc517a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -586,6 +586,8 @@ class Circle:
         x, y = C2 - C1
         v = np.array([-y, x])
         R = self.radical_center(circ2)
+        # v can be tiny as compared to R, which would make R and R+v equal
+        v = v * max(1, vlength_(R - C1) / vlength_(v))
         return Line(R, R+v, True, True)
     
     def as_ellipse(self):
-- 
2.43.0


From 801fdffd43524573c3cce616c8f6f308b06fa68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 43/50] fix: the angles of flat triangles raised a math domain
 error

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0dc517a..848844c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1866,7 +1866,7 @@ class Triangle:
         AB = B - A
         b = vlength_(AC)
         c = vlength_(AB)
-        return acos(dot_(AC, AB) / b / c)
+        return acos(max(-1, min(1, dot_(AC, AB) / b / c)))
 
     @property        
     def angleB(self):
@@ -1880,7 +1880,7 @@ class Triangle:
         BA = A - B
         a = vlength_(BC)
         c = vlength_(BA)
-        return acos(dot_(BC, BA) / a / c)
+        return acos(max(-1, min(1, dot_(BC, BA) / a / c)))
 
     @property        
     def angleC(self):
@@ -1894,7 +1894,7 @@ class Triangle:
         CB = B - C
         b = vlength_(CA)
         a = vlength_(CB)
-        return acos(dot_(CA, CB) / a / b)
+        return acos(max(-1, min(1, dot_(CA, CB) / a / b)))
     
     def incircle(self):
         """The incircle of the triangle.
-- 
2.43.0


From 1cd53f60cf4b23799a02616ee3a0cf442be4d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 44/50] fix: tangency of circles was decided with an absolute
 tolerance

---
 planegeometry/geometry.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 848844c..d0b6470 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -643,8 +643,9 @@ class Circle:
         center2 = circ2.center
         r1 = self.radius
         r2 = circ2.radius
-        d2 = dot_(center1 - center2)
-        if d2 > (r1+r2)**2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+        d = distance_(center1, center2)
+        tol = sepsilon_ * (r1 + r2)
+        if d > r1 + r2 + tol or d < abs(r1-r2) - tol:
             print("The two circles do not intersect.")
             return None
         b1 = 1/r1
@@ -733,13 +734,13 @@ def mid_circles(circ1, circ2):
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
-            d2 = dot_(O1 - O2)
-            sumRadii2 = (r1 + r2)**2
+            d = distance_(O1, O2)
+            tol = sepsilon_ * (r1 + r2)
             I = (O1 + O2) / 2
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2 - sepsilon_: # they intersect at two points
+            if d < r1 + r2 - tol: # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
@@ -747,22 +748,22 @@ def mid_circles(circ1, circ2):
             else: # they are tangent or they do not intersect
               out = line
     else: # r1 != r2
-        d2 = dot_(O1 - O2)
-        sumRadii2 = (r1 + r2)**2
+        d = distance_(O1, O2)
+        tol = sepsilon_ * (r1 + r2)
         rho = r1 / r2
-        if d2 > sumRadii2 + sepsilon_: # they are outside each other
+        if d > r1 + r2 + tol: # they are outside each other
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 < (r1-r2)**2 - sepsilon_: # one contains the other
+        elif d < abs(r1-r2) - tol: # one contains the other
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif sumRadii2 - d2 < sepsilon_: # they are externally tangent
+        elif r1 + r2 - d < tol: # they are externally tangent
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 - (r1-r2)**2 < sepsilon_: # they are internally tangent
+        elif d - abs(r1-r2) < tol: # they are internally tangent
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
@@ -817,11 +818,11 @@ def intersection_circle_circle(circ1, circ2):
     r2 = circ2.radius
     center1 = circ1.center
     center2 = circ2.center
-    d2 = dot_(center1 - center2)
-    sumRadii2 = (r1 + r2)**2
-    if d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+    d = distance_(center1, center2)
+    tol = sepsilon_ * (r1 + r2)
+    if d > r1 + r2 + tol or d < abs(r1-r2) - tol:
         return None
-    touch = sumRadii2 - d2 < sepsilon_ or d2 - (r1-r2)**2 < sepsilon_
+    touch = r1 + r2 - d < tol or d - abs(r1-r2) < tol
     x, y = center1 - center2
     lsquared = x*x + y*y
     cosine = max(
-- 
2.43.0


From f3125e554fd8a9b2b1bc1a5223329fcb447d2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 45/50] fix: includes and is_orthogonal of small circles
 accepted everything

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d0b6470..867b2e5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -409,7 +409,7 @@ class Circle:
         r = self.radius
         O = self.center
         d2 = dot_(P-O)
-        return approx_equal_(d2, r*r)
+        return isclose(d2, r*r)
 
     def contains(self, P):
         """Check whether a point is contained in the reference circle.
@@ -630,7 +630,7 @@ class Circle:
         d2 = dot_(self.center - circ2.center)
         r = self.radius
         r2 = circ2.radius
-        return approx_equal_(d2, r*r + r2*r2)
+        return isclose(d2, r*r + r2*r2)
     
     def angle(self, circ2):
         """Angle between the reference circle and a given circle, if they intersect.
-- 
2.43.0


From ae676ca06670655c10efe145850b91f07e02781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 46/50] fix: invert_circle used an absolute tolerance to decide
 if the pole is on the circle

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 867b2e5..3d874d3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1545,7 +1545,7 @@ class Inversion:
         c1 = circ.center
         r1 = circ.radius
         D1 = (c1[0] - c0[0])**2 + (c1[1] - c0[1])**2 - r1*r1
-        if abs(D1) > sepsilon_:
+        if abs(D1) > sepsilon_ * r1*r1:
             s = k / D1
             return Circle(c0 + s*(c1-c0), abs(s)*r1)
         Ot = c0 - c1
-- 
2.43.0


From ce43e73517a6af69730a951993b60ba103f9cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 47/50] fix: distinct points far from the origin were taken as
 equal

The default relative tolerance (1e-5) of np.allclose made the points (300000, 0) and
(300002, 0) equal: lines and circles were refused, all circles with such centers were
equal, any point was on a line, and points were sent to infinity by inversions.
---
 planegeometry/geometry.py | 31 +++++++++++++++++--------------
 planegeometry/internal.py |  5 ++++-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3d874d3..533e811 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -48,6 +48,7 @@ from .internal import (
     inversion_to_conjugate_mobius_,
     is_inf_,
     approx_equal_, 
+    same_points_,
     mobius_from_three_points_to_zero_one_inf_,
     convex_hull_
 )
@@ -64,7 +65,7 @@ class Line:
         _ = error_if_not_point_(B=B)
         self.A = np.asarray(A, dtype=float)
         self.B = np.asarray(B, dtype=float)
-        if np.allclose(self.A, self.B):
+        if same_points_(self.A, self.B):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
         self.extendB = extendB
@@ -394,7 +395,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         return (
             approx_equal_(self.radius, circ2.radius) and 
-            np.allclose(self.center, circ2.center)
+            same_points_(self.center, circ2.center)
         )
         
     def includes(self, P):
@@ -473,7 +474,7 @@ class Circle:
         _ = error_if_not_boolean_(arc=arc)
         P1 = np.asarray(P1, dtype=float)
         P2 = np.asarray(P2, dtype=float)
-        if np.allclose(P1, P2):
+        if same_points_(P1, P2):
             raise ValueError("`P1` and `P2` must be distinct.")
         I = self.center
         r = self.radius
@@ -580,7 +581,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         C1 = self.center
         C2 = circ2.center
-        if np.allclose(C1, C2):
+        if same_points_(C1, C2):
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
@@ -668,7 +669,7 @@ def circleAB(A, B):
     _ = error_if_not_point_(B=B)
     A = np.asarray(A, dtype=float)
     B = np.asarray(B, dtype=float)
-    if np.allclose(A, B):
+    if same_points_(A, B):
         raise ValueError("`A` and `B` are not distinct.")
     return Circle((A+B)/2, distance_(A, B)/2)
 
@@ -683,7 +684,7 @@ def circleOA(O, A):
     _ = error_if_not_point_(O=O)
     A = np.asarray(A, dtype=float)
     O = np.asarray(O, dtype=float)
-    if np.allclose(O, A):
+    if same_points_(O, A):
         raise ValueError("`O` and `A` are not distinct.")
     return Circle(O, distance_(O, A))
 
@@ -730,7 +731,7 @@ def mid_circles(circ1, circ2):
     O1 = circ1.center
     O2 = circ2.center
     if approx_equal_(r1, r2):
-        if np.allclose(O1, O2): # O1=O2
+        if same_points_(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
@@ -1005,10 +1006,12 @@ class Ellipse:
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        v1 = np.array([self.rmajor, self.rminor])
+        v2 = np.array([ell2.rmajor, ell2.rminor])
         if not np.allclose(v1, v2):
             return False
+        if not np.allclose((x1 - x2, y1 - y2), 0, atol=1e-5*self.rmajor):
+            return False
         # the angle is defined modulo 180, and it is meaningless for a circle
         dalpha = (alpha1 - alpha2 + 90) % 180 - 90
         return bool(
@@ -1531,7 +1534,7 @@ class Inversion:
             return pole
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
-        if np.allclose(pole, M):
+        if same_points_(pole, M):
             return inf
         k = self.power
         pole_M = M - pole
@@ -2517,12 +2520,12 @@ class Mobius:
             alpha = 0.0
             while True:
                 P = circ.point_from_angle(alpha, degrees=False)
-                if not np.allclose(P, M):
+                if not same_points_(P, M):
                     break
                 alpha += 0.1
             while True:
                 Q = circ.point_from_angle(alpha+3, degrees=False)
-                if not np.allclose(Q, M):
+                if not same_points_(Q, M):
                     break
                 alpha += 0.1
             A = self.transform(P)
@@ -2559,9 +2562,9 @@ class Mobius:
         if c != 0:
             # the line passes through the pole
             M = from_complex_(-d/c)
-            if np.allclose(P, M):
+            if same_points_(P, M):
                 P = 2*Q - P
-            elif np.allclose(Q, M):
+            elif same_points_(Q, M):
                 Q = 2*P - Q
         return Line(self.transform(P), self.transform(Q))
     
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 484c71d..ecd80b5 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -7,6 +7,9 @@ import numbers
 def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
+def same_points_(A, B):
+    return np.allclose(A, B, rtol=1e-9)
+
 def is_inf_(x):
     return isinstance(x, (float, complex)) and isinf(x)
 
@@ -161,7 +164,7 @@ def circle_points_(t, O, r):
     )
   
 def collinear_(A, B, C, tol = 0):
-    notdistinct = np.allclose(A, B) or np.allclose(A, C) or np.allclose(B, C)
+    notdistinct = same_points_(A, B) or same_points_(A, C) or same_points_(B, C)
     if notdistinct:
         return True
     AB = B - A
-- 
2.43.0


From 5708f143c3d583bc27bb4d936ea14a25a4499280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 48/50] fix: angle between two circles was inaccurate far from
 the origin

---
 planegeometry/geometry.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 533e811..e1b7eb8 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -649,13 +649,7 @@ class Circle:
         if d > r1 + r2 + tol or d < abs(r1-r2) - tol:
             print("The two circles do not intersect.")
             return None
-        b1 = 1/r1
-        b2 = 1/r2
-        a1 = b1*center1
-        a2 = b2*center2
-        bprime1 = r1 * (dot_(a1) - 1)
-        bprime2 = r2 * (dot_(a2) - 1)
-        cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
+        cos_theta = (d*d - r1*r1 - r2*r2) / (2*r1*r2)
         return acos(max(-1, min(1, cos_theta)))
 
 def circleAB(A, B):
-- 
2.43.0


From 74b2854a159bd43d8e43391c501448667720555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 49/50] fix: ellipse through five points was inaccurate far
 from the origin

---
 planegeometry/geometry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e1b7eb8..5499ee7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1313,9 +1313,15 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        coeffs = Ellipse.equation_from_five_points(P1, P2, P3, P4, P5)
+        for P in (P1, P2, P3, P4, P5):
+            _ = error_if_not_point_(P=P)
+        # the origin is moved to P1, for the equation to be accurate
+        O = np.asarray(P1, dtype=float)
+        P2, P3, P4, P5 = [P - O for P in (P2, P3, P4, P5)]
+        coeffs = Ellipse.equation_from_five_points((0, 0), P2, P3, P4, P5)
         A, B, C, D, E, F = coeffs.values()
-        return Ellipse.from_equation(A, B, C, D, E, F)
+        ell = Ellipse.from_equation(A, B, C, D, E, F)
+        return Ellipse(ell.center + O, ell.rmajor, ell.rminor, ell.alpha)
     
     @classmethod
     def from_center_and_matrix(cls, center, S):
-- 
2.43.0


From 1dc2d6c5f647f6b3efa44936f4ab2f8f1ef1c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 50/50] fix: affine image of an ellipse was inaccurate far from
 the origin

---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5499ee7..4b7cbbb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2228,13 +2228,16 @@ class Affine:
             return
         if isinstance(ell, Circle):
             ell = Circle.as_ellipse(ell)
+        # the equation is accurate for an ellipse centered at the origin
+        center = self.A.dot(ell.center) + self.b
+        ell = Ellipse((0, 0), ell.rmajor, ell.rminor, ell.alpha, ell.degrees)
         A, B, C, D, E, F = ell.equation().values()
         X = np.array([
             [A, B/2, D/2],
             [B/2, C, E/2],
             [D/2, E/2, F]
         ])
-        Mat = np.linalg.inv(self.get3x3matrix())
+        Mat = np.linalg.inv(Affine(self.A, (0, 0)).get3x3matrix())
         Y = np.matmul(np.matmul(np.transpose(Mat), X), Mat) 
         A = Y[0,0]
         B = 2 * Y[0,1]
@@ -2248,12 +2251,10 @@ class Affine:
         a, b = - np.sqrt(
             2 * (A*E*E + C*D*D - B*D*E + Delta*F)*((A + C) + V)
         ) / Delta 
-        x0 = (2*C*D - B*E) / Delta
-        y0 = (2*A*E - B*D) / Delta
         theta = atan2(C - A - s, B)
         degrees = ell.degrees
         theta = (theta*180/pi) % 180 if degrees else (theta % pi)
-        return Ellipse((x0, y0), a, b, theta, degrees = degrees)
+        return Ellipse(center, a, b, theta, degrees = degrees)
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0

