From dfe0fee0416abccf7573f5bf1d445ad638ef1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 01/51] fix: is_between accepts points well off long segments

The test compared summed distances with a relative tolerance, so a point
several centimetres off a segment of length 300 counted as lying on it.
The polygon kernel computation then took such points as intersections and
returned wrong kernels, or none. Measure the offset from the segment instead.
---
 utils/cg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..a0ccb3b 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -64,10 +64,17 @@ def is_ccw(a, b, c):
     return orientation_val(a, b, c) < -COLLINEAR_THRESHOLD
 
 
-# TODO: Use [NOT is_cw and NOT is_ccw] instead?
-# Returns true if point b is between point and b
+# Returns true if point b is on the line segment between point a and c
 def is_between(a, b, c):
-    return np.isclose(np.linalg.norm(a-b) + np.linalg.norm(c-b), np.linalg.norm(a-c), rtol=1e-7)
+    ac = [c[0] - a[0], c[1] - a[1]]
+    ab = [b[0] - a[0], b[1] - a[1]]
+    length = np.hypot(*ac)
+    if length < 1e-9:
+        return bool(np.hypot(*ab) < 1e-9)
+    # Distance from a to b along the segment and from b to the line through a and c
+    along = (ac[0] * ab[0] + ac[1] * ab[1]) / length
+    offset = (ac[0] * ab[1] - ac[1] * ab[0]) / length
+    return bool(abs(offset) < 1e-9 and -1e-9 < along < length + 1e-9)
 
 
 def intersect(a1, a2, b1, b2):
-- 
2.43.0


From 23fdd72f099946050b0af7fd203877b3c6b1c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 02/51] fix: polygon kernel keeps near-duplicate vertices

Duplicates were only removed when bitwise equal, so vertices one rounding
error apart gave self-intersecting kernel polygons, on which later
intersections raise TopologyException. Drop vertices that coincide to 1e-9.
---
 obstacles/starshaped_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..d07ea46 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -861,6 +861,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             plt.show()
         _, idx = np.unique(xk, axis=0, return_index=True)
         xk = xk[np.sort(idx), :]
+        # Remove vertices which coincide up to numerical precision
+        xk = xk[np.linalg.norm(xk - np.roll(xk, 1, axis=0), axis=1) > 1e-9, :]
         self._kernel = shapely.geometry.Polygon(xk)
 
 
-- 
2.43.0


From 5a4f2c7e9a25a274922e70b0876fe1190a94c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 03/51] fix: kernel selection for clusters with non-starshaped
 obstacles

When some obstacle has no kernel, the selection set must be limited to the
cluster as the comment says. It stayed the whole admissible kernel (bounded
only by the 1e6 box), so kernel points ended up hundreds of kilometres away
from the obstacles.
---
 starshaped_hull/cluster_and_starify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..5f63cd8 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -99,12 +99,13 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     tcss_tmp = tcss
     ts['ws check'] = toc(t0)
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
-    if all([o.is_starshaped() for o in cl.obstacles]):
+    all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
+    if all_starshaped:
         for o in cl.obstacles:
             tcss_tmp = tcss_tmp.intersection(o.kernel())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
-    if tcss_tmp.area < 1e-6:
+    if not all_starshaped or tcss_tmp.area < 1e-6:
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
-- 
2.43.0


From d51d301c435766c387a148bb5f3edfc946b25800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 04/51] fix: ellipse intersections with steep lines are off the
 line

---
 obstacles/ellipse.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..88e5396 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -109,22 +109,18 @@ class Ellipse(StarshapedObstacle):
 
         # Special case with vertical line
         if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
             l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
             l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
+            # Solve for s in l_bottom + s * (l_top - l_bottom), scaled such that ellipse is the unit circle
+            d = np.subtract(l_top_obstacle, l_bottom_obstacle)
+            d_scaled, l_scaled = d / self._a, np.asarray(l_bottom_obstacle) / self._a
+            k2, k1, k0 = d_scaled.dot(d_scaled), d_scaled.dot(l_scaled), l_scaled.dot(l_scaled) - 1
+            if k2 == 0 or k1 ** 2 < k2 * k0:
                 return []
+            in_sqrt = np.sqrt(k1 ** 2 - k2 * k0)
+            s_intersect = [(-k1 + in_sqrt) / k2, (-k1 - in_sqrt) / k2]
+            return [self.transform(l_bottom_obstacle + s * d, Frame.OBSTACLE, output_frame)
+                    for s in s_intersect if 0 <= s <= 1]
 
         # obstacle ellipse coefficients at intersection with line m*x+c
         kx2 = self._a2[0] * m**2 + self._a2[1]
-- 
2.43.0


From b993270cab4af88b4f1d2b8d6916d0f94d1fa226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 05/51] fix: ellipse tangent point order depends on the frames
 used

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 88e5396..94b3b46 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -190,7 +190,7 @@ class Ellipse(StarshapedObstacle):
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
+        if is_ccw(x_obstacle, tp1_obstacle, tp2_obstacle):
             tp1, tp2 = tp2, tp1
 
         return [tp1, tp2]
-- 
2.43.0


From e10875de5eabe6ec33a3e080310937775179708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 06/51] fix: polygon boundary points on the bounding box are
 reported exterior

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From bddd880916f499ed9ca73cec9ca11cc3dc17749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 07/51] fix: ellipse kernel is undefined until its polygon has
 been accessed

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 94b3b46..78a7d5f 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -203,7 +203,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
-- 
2.43.0


From 784003ab0e72a5f4a0bbb375dbd5e79d1e04424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 08/51] fix: safe setting of reference point raises
 AttributeError

---
 obstacles/starshaped_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..bc7caa2 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -19,8 +20,8 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.intersects(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From 276d08ca1982294b8f2520d4b98d4b7b0b77daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 09/51] fix: boundary mapping of dilated starshaped polygon may
 miss the boundary

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index d07ea46..1c5732c 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From c9a5b4e8e85b7bcb009b0115795e939c9f0f42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 10/51] fix: weighted normal of starshaped polygon is not of
 unit length

---
 obstacles/starshaped_polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 1c5732c..b0e82cd 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -87,6 +87,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             w = np.array([1/(d+1e-6) for d in dist])
             w /= sum(w)
             n_obstacle = edge_neighbors_normal.T.dot(w)
+            n_obstacle /= np.linalg.norm(n_obstacle)
         return self.rotate(n_obstacle, Frame.OBSTACLE, output_frame)
 
 
-- 
2.43.0


From 9a0a026e155e46508b58101e2e2bdfc7a5ce349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 11/51] fix: moving an obstacle alters position arrays held by
 callers

---
 obstacles/motion_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..f916418 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -13,12 +13,12 @@ class MotionModel(ABC):
         xy_vel = np.array(self.lin_vel())
         rot_vel = self.rot_vel()
         prev_pos, prev_rot = self._pos.copy(), self._rot
-        self._pos += xy_vel * dt
+        self._pos = self._pos + xy_vel * dt
         self._rot += rot_vel * dt
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From 9aa174934098671793a707749a270167a7c56aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 12/51] fix: interval motion jumps back when time equals the
 last time point

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index f916418..ecbd6d8 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From bd1583566db68492d4fdb393f09b0f34e240903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 13/51] fix: line along one polygon edge and through another
 raises an error

---
 obstacles/polygon.py                          | 2 ++
 obstacles/starshaped_primitive_combination.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..14903d6 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -84,6 +84,8 @@ class Polygon(Obstacle):
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for ip in intersection_points_shapely.coords]
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
+        elif intersection_points_shapely.geom_type == 'GeometryCollection':
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         else:
             print(intersection_points_shapely)
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..bc6c30c 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -205,6 +205,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
+        elif intersection_points_shapely.geom_type == 'GeometryCollection':
+            return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         else:
             print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
             print(intersection_points_shapely)
-- 
2.43.0


From a08d513145485841ff2f206fcb72d8065458f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 14/51] fix: rotated equilateral triangle is not centred at
 given centroid

---
 utils/cg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index a0ccb3b..e773caf 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -211,13 +211,13 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
     if not rot:
-        return triangle
+        return np.array(centroid) + triangle
     c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
+    return np.array(centroid) + np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
                      [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
                      [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
 
-- 
2.43.0


From 82fea4d24e884f5d1db615fbb716ebc63c36535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 15/51] fix: random convex polygon ignores box height

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index e773caf..596f729 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -431,7 +431,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From b586937d6a1899de552968cd5de92bad5e58ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 16/51] fix: Line.intersects always returns False

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 596f729..d72abd5 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -129,7 +129,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From 5e9e009a56f0a0e43aa5dc17f7d7d05cd32f5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 17/51] fix: copy of ellipse and starshaped polygon lacks the
 default arguments

---
 obstacles/ellipse.py            | 2 +-
 obstacles/starshaped_polygon.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 78a7d5f..dcec02e 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -17,7 +17,7 @@ class Ellipse(StarshapedObstacle):
         super().__init__(xr=xr, **kwargs)
         self.enclosing_ball_diameter = max(2*self._a[0], 2*self._a[1])
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return Ellipse(id=id, name=name, a=self._a, xr=self._xr, n_pol=self._n_pol, motion_model=self._motion_model)
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index b0e82cd..068ec9e 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -21,7 +21,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self._update_vertex_angles()
         self.enclosing_ball_diameter = self._polygon.bounds[2]-self._polygon.bounds[0] + self._polygon.bounds[3]-self._polygon.bounds[1]
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return StarshapedPolygon(id=id, name=name, polygon=self._polygon, xr=self._xr, motion_model=self._motion_model)
-- 
2.43.0


From cae473bd6afcd1958b90aa540ccbc7a2a27972e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 18/51] fix: primitive combination normal and set_xr need
 polygon to be accessed first

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index bc6c30c..08dea0f 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -212,8 +212,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             print(intersection_points_shapely)
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        self.vertices = np.array(self.polygon().exterior.coords[:-1])
+        self.circular_vertices = np.array(self.polygon().exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From daf06b3160670f06ed79af29ea847018b9954401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 19/51] fix: primitive combination boundary mapping misses the
 boundary for points close to xr

---
 obstacles/starshaped_primitive_combination.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 08dea0f..42fd7cc 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -62,7 +62,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._ray_through(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
@@ -84,7 +84,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._ray_through(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
@@ -179,6 +179,11 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Segment from xr in direction of x, long enough to leave the obstacle
+    def _ray_through(self, x):
+        xmin, ymin, xmax, ymax = self.polygon().bounds
+        return [self._xr, self._xr + 1.1 * (xmax - xmin + ymax - ymin) * self.reference_direction(np.asarray(x))]
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From 982f784353f16fe3af83728300ce9a396afeae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 20/51] fix: primitive combination velocity is taken from the
 wrong obstacle

---
 obstacles/starshaped_primitive_combination.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 42fd7cc..5d3e20e 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -71,7 +71,10 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
+        line = self._ray_through(x)
+        intersection_points = [o.line_intersection(line) for o in self._obstacle_cluster]
+        intersection_points += [self._hull_cluster_line_intersections(line)]
+        for i, ps in enumerate(intersection_points):
             o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
-- 
2.43.0


From 9684b79d464ea0f97ac4c2f7ddcaee0c83ad7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 21/51] fix: excluding ellipse obstacles when clustering raises
 AttributeError

---
 obstacles/ellipse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index dcec02e..4493339 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -34,6 +34,9 @@ class Ellipse(StarshapedObstacle):
             cp._kernel = cp._polygon
         return cp
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        return list(np.asarray(self.polygon(frame).exterior.coords)[:-1, :])
+
     def init_plot(self, ax=None, show_reference=True, show_name=False, **kwargs):
         if ax is None:
             _, ax = plt.subplots(subplot_kw={'aspect': 'equal'})
-- 
2.43.0


From 2a1840be8eac93ade893331a14ca6a91f8ed05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 22/51] fix: previous cluster not found when its obstacles were
 merged in other order

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 5f63cd8..0dcebad 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -9,7 +9,7 @@ import matplotlib.pyplot as plt
 
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join([str(o.id()) for o in obstacles])
+        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
-- 
2.43.0


From c541a95baeda99bbd07e69b11b431969d98312c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 23/51] fix: clustering never returns when robot and goal
 positions coincide

---
 starshaped_hull/cluster_and_starify.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0dcebad..7a717cb 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -85,6 +85,8 @@ def get_intersection_clusters(clusters):
 
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
+    # No line l(x,xg) to consider if x and xg coincide
+    x_xg_distinct = np.linalg.norm(np.subtract(xg, x)) > 1e-5
 
     t0 = tic()
     ts = {}
@@ -115,16 +117,16 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while x_xg_distinct and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
-            and not is_collinear(x, xg, triangle_center_prev):
+            and not (x_xg_distinct and is_collinear(x, xg, triangle_center_prev)):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
         x_xg_line = shapely.geometry.LineString([x, xg])
-        splitted_tcss = shapely.ops.split(tcss, x_xg_line).geoms
+        splitted_tcss = shapely.ops.split(tcss, x_xg_line).geoms if x_xg_distinct else [tcss]
         triangle_center_selection_set = splitted_tcss[0]
         if len(splitted_tcss) > 1:
             for i in range(1, len(splitted_tcss)):
-- 
2.43.0


From 850e567f770ebccfdda985936aa3d35212da021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 24/51] fix: kernel selection fails for sets with point or line
 parts

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 7a717cb..a0c5e6e 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -149,7 +149,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         dist = tcss.exterior.distance(shapely.geometry.Point(triangle_center))
     else:
         tc = shapely.geometry.Point(triangle_center)
-        dist = min([p.exterior.distance(tc) for p in tcss.geoms])
+        dist = min([p.exterior.distance(tc) for p in tcss.geoms if p.geom_type == 'Polygon'])
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 163e41abfe952d72461d30d4caedf568d169c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 25/51] fix: error when a single obstacle has empty admissible
 kernel

---
 starshaped_hull/cluster_and_starify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index a0c5e6e..6428279 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -245,6 +245,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
         kernel_time[0] += toc(t1)
 
+        if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
+            if verbose:
+                print("[Cluster and Starify]: Could not find disjoint starshaped obstacles. Admissible kernel empty for the cluster " + cl.name)
+            return default_result()
+
         t1 = tic()
         cl_prev = extract_cluster(cl, previous_clusters)
         # if cl_prev is None:
-- 
2.43.0


From eb3c1bc1a2b28dd821125b0cedfcab4eb955002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 26/51] fix: clustering a convex Polygon raises AttributeError

---
 starshaped_hull/cluster_and_starify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 6428279..e780379 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
 from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
@@ -264,7 +264,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         hull_compute_time[0] += toc(t1)
         t1 = tic()
         k_centroid = np.mean(cl.kernel_points, axis=0)
-        if cluster_hull_extensions is None:
+        if cluster_hull_extensions is None and isinstance(o, StarshapedObstacle):
             cl.cluster_obstacle = o
             cl.cluster_obstacle.set_xr(k_centroid, input_frame=Frame.GLOBAL)
         else:
-- 
2.43.0


From 7abbb7cb3ffc91e154905a6ab8bba454e8d6690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 27/51] fix: intersecting clusters reported as complete when
 reaching max iterations

---
 starshaped_hull/cluster_and_starify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index e780379..5f4ce5f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -324,6 +324,12 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         hull_compute_time += [0.]
         star_obj_time += [0.]
 
+        # Check number of iterations
+        if n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max iterations.")
+            return default_result()
+
         # Check compute time
         if max_compute_time < toc(t0):
             if verbose:
@@ -415,9 +421,6 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
-
     # ----------- Make Convex ----------- #
 
     if make_convex:
-- 
2.43.0


From fce59416784d423161da31ca2209f63d43407d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 28/51] fix: no cluster history returned when time is out in
 convexification

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 5f4ce5f..3212434 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -432,7 +432,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From 4a9d6dc9eca54ae211b2407d5ca3ca84d0bf3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 29/51] fix: convexified clusters may overlap and keep their
 old polygon

---
 starshaped_hull/cluster_and_starify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 3212434..57447ce 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -444,6 +444,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j]._polygon = None
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From 04de01b7f618d0a0ddeb135d930eb5580b78c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 30/51] fix: kernel selection fails for convex Polygon
 obstacles

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 57447ce..f5e8e84 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -104,7 +104,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
     if all_starshaped:
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.kernel())
+            tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if not all_starshaped or tcss_tmp.area < 1e-6:
-- 
2.43.0


From 8f56ad00158785b4701f701731911544895b841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 31/51] fix: kernel selection with previous cluster fails for
 sets with point or line parts

---
 starshaped_hull/cluster_and_starify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index f5e8e84..0b10b9a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -126,7 +126,11 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
         x_xg_line = shapely.geometry.LineString([x, xg])
-        splitted_tcss = shapely.ops.split(tcss, x_xg_line).geoms if x_xg_distinct else [tcss]
+        tcss_polygons = [tcss] if tcss.geom_type == 'Polygon' else [p for p in tcss.geoms if p.geom_type == 'Polygon']
+        if x_xg_distinct:
+            splitted_tcss = [s for p in tcss_polygons for s in shapely.ops.split(p, x_xg_line).geoms]
+        else:
+            splitted_tcss = tcss_polygons
         triangle_center_selection_set = splitted_tcss[0]
         if len(splitted_tcss) > 1:
             for i in range(1, len(splitted_tcss)):
-- 
2.43.0


From 74a29ad9208fa8bb5856372346a779bc2549c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 32/51] fix: excluding an obstacle in a pocket of another one
 raises AttributeError

---
 starshaped_hull/cluster_and_starify.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0b10b9a..adff8d7 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -227,10 +227,15 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
                     adm_ker_obstacles[o.id()][o_ex.id()] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = sh.admissible_kernel(o, o_x_exclude[0]).polygon()
-                for v in o_x_exclude[1:]:
+                adm_ker_x_exclude = [sh.admissible_kernel(o, v) for v in o_x_exclude]
+                # Not possible to exclude points which are not free exterior points of the obstacle
+                if any([cone is None for cone in adm_ker_x_exclude]):
+                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    continue
+                adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_x_exclude[0].polygon()
+                for cone in adm_ker_x_exclude[1:]:
                     adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_obstacles[o.id()][o_ex.id()].intersection(
-                        sh.admissible_kernel(o, v).polygon())
+                        cone.polygon())
     init_kernel_time = toc(t0)
 
     # -- First iteration -- #
-- 
2.43.0


From bdf0d430e73c3ca6011f3a853cc8f50b112e2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 33/51] fix: kernel points selected outside the admissible
 kernel

---
 starshaped_hull/cluster_and_starify.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index adff8d7..0b55f15 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -83,6 +83,14 @@ def get_intersection_clusters(clusters):
     return new_clusters, intersections_exist
 
 
+# Centroid of the set if it is in the set, otherwise some other interior point
+def interior_center(selection_set):
+    center = selection_set.centroid
+    if not selection_set.contains(center):
+        center = selection_set.representative_point()
+    return np.array(center.coords[0])
+
+
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
     # No line l(x,xg) to consider if x and xg coincide
@@ -115,8 +123,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
-        triangle_center = np.array(tc.coords[0])
+        triangle_center = interior_center(tcss)
         while x_xg_distinct and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
@@ -137,8 +144,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
                 if is_ccw(x, xg, splitted_tcss[i].centroid.coords[0]) == is_ccw(x, xg, triangle_center_prev):
                     triangle_center_selection_set = splitted_tcss[i]
                     break
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, triangle_center_selection_set.centroid)
-        triangle_center = np.array(tc.coords[0])
+        triangle_center = interior_center(triangle_center_selection_set)
 
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
 
-- 
2.43.0


From 9de8644e2fb84229317df7e491b9de84fabcdbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 34/51] fix: kernel points far off when admissible kernel is
 disjoint from the cluster

---
 starshaped_hull/cluster_and_starify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0b55f15..c9c624e 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -117,6 +117,10 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Else, try to use union of all obstacles in cluster
     if not all_starshaped or tcss_tmp.area < 1e-6:
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
+    # Else, use the part of (unbounded) admissible kernel closest to the cluster
+    if tcss_tmp.area < 1e-6:
+        cl_pol = cl.polygon_excluding_hull()
+        tcss_tmp = tcss.intersection(cl_pol.buffer(tcss.distance(cl_pol) + np.sqrt(cl_pol.area)))
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
-- 
2.43.0


From df33eef59eb3c1fa49e86335330d3f8dda7749e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 35/51] fix: convex hull never returns for repeated or
 collinear points

---
 utils/cg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index d72abd5..d8bddc3 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -258,7 +258,11 @@ def convex_hull(points):
 
             # If i is more counterclockwise
             # than current q, then update q
-            if is_ccw(points[p], points[i], points[q]):
+            # (or in same direction but further away)
+            if is_ccw(points[p], points[i], points[q]) or (
+                    is_collinear(points[p], points[i], points[q]) and
+                    np.hypot(points[i][0] - points[p][0], points[i][1] - points[p][1]) >
+                    np.hypot(points[q][0] - points[p][0], points[q][1] - points[p][1])):
                 q = i
         '''
         Now q is the most counterclockwise with respect to p
@@ -267,8 +271,8 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point
-        if (p == l):
+        # While we don't come to first point (or a copy of a previous point)
+        if p == l or [points[p][0], points[p][1]] in hull:
             break
 
     return hull
-- 
2.43.0


From 60d91340a664fc8b53d83198d7e5d156a130b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 36/51] fix: self-intersecting starshaped hull of nonconvex
 polygons

---
 starshaped_hull/starshaped_hull.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..35648a3 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -203,5 +203,11 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
         ax.plot(*k_centroid, 'bs')
         plt.show()
 
-    return shapely.geometry.Polygon(star_vertices)
+    hull = shapely.geometry.Polygon(star_vertices)
+    if not hull.is_valid:
+        # Self-intersecting boundary. Use union of the convex hulls of each polygon edge and the kernel points instead
+        edges = zip(vertices, np.roll(vertices, -1, axis=0))
+        edge_hulls = [shapely.geometry.MultiPoint(np.vstack((*e, kernel_points))).convex_hull for e in edges]
+        hull = shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.area > 1e-10])
+    return hull
 
-- 
2.43.0


From df84ee0678e6b640622a6de4a1dd05a80b273825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 37/51] fix: cone polygon invalid for rays passing close to the
 bounding box corners

---
 utils/cg.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index d8bddc3..c102289 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -290,7 +290,6 @@ class Cone:
     bottom_line = Line(bottom_left, bottom_right)
     bb_edges = [bottom_line, right_line, top_line, left_line]
     bb_corners = [bottom_right.xy, top_right.xy, top_left.xy, bottom_left.xy]
-    bb_corner_angles = np.pi / 4 * np.array([1, 3, 5, 7])
 
     def __init__(self, apex, dir1, dir2):
         self.apex = np.array(apex)
@@ -307,21 +306,24 @@ class Cone:
 
         angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
         angle2 = np.arctan2(self.dir2[1], self.dir2[0]) + np.pi
+        # Angles of the bounding box corners as seen from the apex, starting with bottom left
+        bb_corner_angles = [np.arctan2(c[1] - self.apex[1], c[0] - self.apex[0]) + np.pi
+                            for c in np.roll(Cone.bb_corners, 1, axis=0)]
 
-        if Cone.bb_corner_angles[0] <= angle1 < Cone.bb_corner_angles[1]:
+        if bb_corner_angles[0] <= angle1 < bb_corner_angles[1]:
             ray1_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle1 < Cone.bb_corner_angles[2]:
+        elif  bb_corner_angles[1] <= angle1 < bb_corner_angles[2]:
             ray1_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle1 < Cone.bb_corner_angles[3]:
+        elif  bb_corner_angles[2] <= angle1 < bb_corner_angles[3]:
             ray1_intersection_idx = 2
         else:
             ray1_intersection_idx = 3
 
-        if Cone.bb_corner_angles[0] <= angle2 < Cone.bb_corner_angles[1]:
+        if bb_corner_angles[0] <= angle2 < bb_corner_angles[1]:
             ray2_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle2 < Cone.bb_corner_angles[2]:
+        elif  bb_corner_angles[1] <= angle2 < bb_corner_angles[2]:
             ray2_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle2 < Cone.bb_corner_angles[3]:
+        elif  bb_corner_angles[2] <= angle2 < bb_corner_angles[3]:
             ray2_intersection_idx = 2
         else:
             ray2_intersection_idx = 3
@@ -345,7 +347,7 @@ class Cone:
                 if r2_border is None:
                     print("SOMETHING WRONG!")
 
-        vertices = [self.apex, r1_border.xy]
+        vertices = [self.apex, np.round(r1_border.xy, 6)]
         c_idx = ray1_intersection_idx
         if not (self.is_convex and (ray1_intersection_idx == ray2_intersection_idx)):
             while True:
@@ -353,7 +355,7 @@ class Cone:
                 c_idx = (c_idx + 1) % 4
                 if c_idx == ray2_intersection_idx:
                     break
-        vertices += [r2_border.xy]
+        vertices += [np.round(r2_border.xy, 6)]
 
         return shapely.geometry.Polygon(vertices)
 
-- 
2.43.0


From 07bd223e8fe656654d6c09775b36229295883493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 38/51] fix: kernel points selected in holes of the selection
 set

---
 starshaped_hull/cluster_and_starify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c9c624e..33cd94d 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -160,10 +160,10 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
 
     # Select kernel points as largest equilateral triangle in TCSS (with maximum side length epsilon)
     if tcss.geom_type == 'Polygon':
-        dist = tcss.exterior.distance(shapely.geometry.Point(triangle_center))
+        dist = tcss.boundary.distance(shapely.geometry.Point(triangle_center))
     else:
         tc = shapely.geometry.Point(triangle_center)
-        dist = min([p.exterior.distance(tc) for p in tcss.geoms if p.geom_type == 'Polygon'])
+        dist = min([p.boundary.distance(tc) for p in tcss.geoms if p.geom_type == 'Polygon'])
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 883076964236448b549e759ba042d8d34afe06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 39/51] fix: tangent vertex indices after cutting the kernel
 region

---
 obstacles/starshaped_polygon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 068ec9e..59db77c 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -376,7 +376,9 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                             else:
                                 alpha = xk[:s, :]
                                 beta = xk[t:, :]
-                                L1_idx = L1_idx - t + s + 2
+                                # L1 is not moved if placed before w2
+                                if L1_idx >= s:
+                                    L1_idx = max(L1_idx - t + s + 2, s)
                             if debug:
                                 print("xk: ", end=" ")
                                 print(xk)
@@ -655,9 +657,13 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                             if xk_bounded and t > s:
                                 alpha = xk[xk.shape[0]:, :]  # Empty array
                                 beta = xk[s:t, :]
+                                # F1 is placed after w1 and w2
+                                F1_idx = F1_idx - s + 2
                             else:
                                 alpha = xk[:t, :]
                                 beta = xk[s:, :]
+                                if F1_idx >= s:
+                                    F1_idx = F1_idx - s + t + 2
                             if debug:
                                 print("xk: ", end=" ")
                                 print(xk)
-- 
2.43.0


From ad5040f93798f76fe831b53c157b69445231316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 40/51] fix: repeated vertices hide a reflex corner in the
 convexity check

---
 obstacles/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 14903d6..3ee6c48 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -142,6 +142,8 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
+        # Repeated vertices hide the turn at a corner
+        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-9, :]
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From 30bbcaccde1ab23613eabf3ae9b2655373a01d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 41/51] fix: slivers without area from the union of a
 combination

---
 obstacles/starshaped_primitive_combination.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 5d3e20e..7cc2be8 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -234,3 +234,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
         self._polygon = shapely.ops.unary_union(obs_pol)
+        if self._polygon.geom_type == 'MultiPolygon':
+            # The overlay may leave slivers without area next to the region
+            parts = [p for p in self._polygon.geoms if p.area > 1e-12]
+            if len(parts) == 1:
+                self._polygon = parts[0]
-- 
2.43.0


From e3e9de0d8417a5e55e1f56d67180338232f0cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 42/51] fix: close ellipse line intersections are merged to a
 point off the boundary

---
 obstacles/ellipse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 4493339..4b72f73 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -140,8 +140,7 @@ class Ellipse(StarshapedObstacle):
             return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
         else:
             in_sqrt = kx ** 2 / (4 * kx2 ** 2) - k1 / kx2
-            if np.isclose(in_sqrt, 0):
-                in_sqrt = 0
+            in_sqrt = max(in_sqrt, 0)
             tmp_x = -kx / (2 * kx2) - np.sqrt(in_sqrt)
             x_intersect_left_obstacle = np.array([tmp_x, m * tmp_x + c])
             tmp_x = -kx / (2 * kx2) + np.sqrt(in_sqrt)
-- 
2.43.0


From 0a6b57f91240a0d329474dc8547a081734e0e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 43/51] fix: starshaped hull of nonconvex polygons may differ
 from the exact hull

---
 starshaped_hull/starshaped_hull.py | 165 ++---------------------------
 1 file changed, 9 insertions(+), 156 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 35648a3..18086b3 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -45,169 +45,22 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     return shapely.geometry.Polygon(pol)
 
 
-# TODO: Improve computational consideration
+# The starshaped hull is everything the polygon edges sweep when moved towards the kernel points
 def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
     kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
-
-    if kernel_points.shape[0] > 2:
-        # NOTE: Assumes kernel points convex
-        # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
-        convex_kernel_subset = shapely.geometry.Polygon(kernel_points)
-
-    # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
-    # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
-    star_vertices = []  # Vertices of starshaped hull polygon
-    v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
-    e1_idx = 0
-    e2_idx = 0
-    k_centroid = np.mean(kernel_points, axis=0)
-    k_included = [False] * kernel_points.shape[0]
-
-    # Arrange vertices such that v_1 is the one with largest x-value and vendv1v2 is CCW, (assumes no collinear vertices in P)
-    start_idx = np.argmax(vertices[:, 0])
-    vertices = np.roll(vertices, -start_idx, axis=0)
-    if is_cw(vertices[-1], vertices[0], vertices[1]):
-        vertices = np.flip(vertices, axis=0)
-        vertices = np.roll(vertices, 1, axis=0)
-    # print("Initial sort: {:.1f}".format(toc(t0)))
-
-    # Iterate through all vertices
-    for v_idx, v in enumerate(vertices):
-        adjust_e1 = False
-        # Check if no ray r(v,kv) intersects with interior of polygon
-        if all([ray(v, k, v).disjoint(polygon) for k in kernel_points]):
-            # Add current vertex
-            if kernel_points.shape[0] < 3 or not convex_kernel_subset.contains(shapely.geometry.Point(v)):
-                star_vertices += [v]
-            if star_vertices:
-                # Intersections of lines l(k,v) and l(e1,e2)
-                e1, e2 = star_vertices[e1_idx], star_vertices[e2_idx]
-                e1_e2 = line(e1, e2)
-
-                for k in kernel_points:
-                    kv_e1e2_intersect = line(k,v).intersection(e1_e2)
-                    # Adjust to closest intersection to e2
-                    if not kv_e1e2_intersect.is_empty:
-                        adjust_e1 = True
-                        e1_candidate = np.array([kv_e1e2_intersect.x, kv_e1e2_intersect.y])
-                        if np.linalg.norm(e2 - e1_candidate) < np.linalg.norm(e2 - star_vertices[e1_idx]):
-                            star_vertices[e1_idx] = e1_candidate
-
-            if not adjust_e1:
-                for k_idx, k in enumerate(kernel_points):
-                    kps = [kp for kp in kernel_points if not np.array_equal(kp, k)]
-                    kv_P_intersect = line(k, v).intersection(polygon)
-
-                    # If l(k,v) intersects interior of P
-                    if not kv_P_intersect.is_empty:
-                        # Find last intersection of l(k,v) and polygon boundary
-                        if kv_P_intersect.geom_type == 'LineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for ip in kv_P_intersect.coords]
-                        elif kv_P_intersect.geom_type == 'MultiLineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for l in kv_P_intersect.geoms for ip in
-                                                   l.coords]
-                        elif kv_P_intersect.geom_type == 'GeometryCollection':
-                            intersection_points = []
-                            for g in kv_P_intersect.geoms:
-                                if g.geom_type == 'Point':
-                                    intersection_points += [np.array(g.coords[0])]
-                                if kv_P_intersect.geom_type == 'LineString':
-                                    intersection_points += [np.array([ip[0], ip[1]]) for ip in g.coords]
-                        else:
-                            intersection_points = []
-
-                        u = None
-                        u_v = None
-                        for u_candidate in intersection_points:
-                            u_v = line(u_candidate, v)
-                            if u_v.disjoint(polygon):
-                                u = u_candidate
-                                break
-                        if u is None:
-                            continue
-
-                        # If no ray r(u,k'v) intersect with interior of polygon
-                        if not any([ray(u, kp, v).intersects(polygon) for kp in kps]):
-                            # Adjust u if l(k',v_bar) intersects l(u,v)
-                            for kp in kps:
-                                kpvb_uv_intersect = line(kp, v_bar).intersection(u_v)
-                                if not kpvb_uv_intersect.is_empty:
-                                    u = np.array([kpvb_uv_intersect.x, kpvb_uv_intersect.y])
-                            # Append u to P*
-                            star_vertices += [u]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(u, v, vertices[v_idx-1]):
-                            # if is_ccw(v_bar, v, u):
-                            # if is_cw(k_centroid, v, u):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-                    else:
-                        # Check if no ray r(k,k'v) intersect with interior of polygon
-                        if (not k_included[k_idx]) and (not any([ray(k, kp, v).intersects(polygon) for kp in kps])):
-                            k_included[k_idx] = True
-                            # Append k to P*
-                            star_vertices += [k]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(k, v, vertices[v_idx-1]):
-                            # if is_cw(k_centroid, v, k):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-            # Update v_bar
-            v_bar = star_vertices[-1]
-
-            # Visualize debug information
-            if debug == 1:
-                plt.plot(*k_centroid, 'ko')
-                plt.plot(*polygon.exterior.xy, 'k')
-                plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                [plt.plot(*k, 'kx') for k in kernel_points]
-                [plt.plot(*line(k,v).xy, 'k--') for k in kernel_points]
-                if adjust_e1:
-                    plt.plot(*star_vertices[e1_idx], 'ys')
-                plt.show()
-
-    # Check not added kernel points if they should be included
-    for j in range(len(star_vertices)):
-        v, vp = star_vertices[j - 1], star_vertices[j]
-        for k_idx, k in enumerate(kernel_points):
-            if (not k_included[k_idx]) and is_cw(k, v, vp):
-                k_included[k_idx] = True
-                # Insert k
-                star_vertices = star_vertices[:j] + [k] + star_vertices[j:]
-                # Visualize debug information
-                if debug == 1:
-                    plt.plot(*k_centroid, 'ko')
-                    plt.plot(*polygon.exterior.xy, 'k')
-                    plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                    [plt.plot(*ki, 'kx') for ki in kernel_points]
-                    plt.plot(*line(k, v).xy, 'r--*')
-                    plt.plot(*line(k, vp).xy, 'r--*')
-                    plt.plot(*k, 'go')
-                    plt.show()
-    # print("Final kernel check: {:.1f}".format(toc(t0)))
+    vertices = np.asarray(polygon.exterior.coords)[:-1, :]
+    edges = zip(vertices, np.roll(vertices, -1, axis=0))
+    edge_hulls = [shapely.geometry.MultiPoint(np.vstack((*e, kernel_points))).convex_hull for e in edges]
+    hull = shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.area > 1e-10])
+    # The union may leave slivers between adjacent edge hulls as holes
+    hull = shapely.geometry.Polygon(hull.exterior)
 
     if debug:
         ax = plt.gca()
         ax.plot(*polygon.exterior.xy, 'k')
-        ax.plot([p[0] for p in star_vertices] + [star_vertices[0][0]],
-                [p[1] for p in star_vertices] + [star_vertices[0][1]], 'g-o', linewidth=2)
-        # [ax.plot(star_vertices[i][0], star_vertices[i][1], 'r*') for i in augmented_vertex_idcs]
-        [ax.plot(*zip(k, sv), 'y--') for sv in star_vertices for k in kernel_points]
-        ax.plot(*k_centroid, 'bs')
+        ax.plot(*hull.exterior.xy, 'g-o', linewidth=2)
+        ax.plot(*kernel_points.T, 'bs')
         plt.show()
 
-    hull = shapely.geometry.Polygon(star_vertices)
-    if not hull.is_valid:
-        # Self-intersecting boundary. Use union of the convex hulls of each polygon edge and the kernel points instead
-        edges = zip(vertices, np.roll(vertices, -1, axis=0))
-        edge_hulls = [shapely.geometry.MultiPoint(np.vstack((*e, kernel_points))).convex_hull for e in edges]
-        hull = shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.area > 1e-10])
     return hull
 
-- 
2.43.0


From a9c64a740c8783d6412d5bd55cca7f4d920a6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 44/51] fix: kernel of polygons with collinear or nearly
 parallel edges may be too large or not found

---
 obstacles/starshaped_polygon.py | 701 +-------------------------------
 1 file changed, 21 insertions(+), 680 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 59db77c..f18ef26 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -183,693 +183,34 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-    def _compute_kernel(self, verbose=False, debug=False):
+    def _compute_kernel(self):
         if self.is_convex():
             self._kernel = self._polygon
             return
 
-        # Returns true if vertex v[i, :] is reflex
-        def is_reflex(i):
-            return is_cw(v[i - 1, :], v[i, :], v[(i + 1) % v.shape[0], :])
-
-        # Show polygon
-        def draw(xk, F1_idx, L1_idx, i, xk_bounded):
-            v_ext = np.vstack((v, v[0, :]))
-            xk_ext = np.vstack((xk, xk[0, :])) if xk_bounded else xk
-            plt.plot(v_ext[:, 0], v_ext[:, 1], label='v', marker='.')
-            # plt.plot(v_ext[:, 0], v_ext[:, 1], label='v')
-            # plt.text(v_ext[0, 0], v_ext[0, 1], 'v0')
-            plt.text(xk[0, 0], xk[0, 1], 'xk0')
-            axes = plt.gca()
-            xlim, ylim = axes.get_xlim(), axes.get_ylim()
-            plt.plot(xk_ext[:, 0], xk_ext[:, 1], label='xk')
-            plt.plot(xk[F1_idx, 0], xk[F1_idx, 1], marker='o', c='c', label='F1')
-            end_point = v[i, :] + INF_VAL * (xk[F1_idx, :] - v[i, :]) / np.linalg.norm(xk[F1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'c--')
-            plt.plot(xk[L1_idx, 0], xk[L1_idx, 1], marker='o', c='b', label='L1')
-            end_point = v[i, :] + INF_VAL * (xk[L1_idx, :] - v[i, :]) / np.linalg.norm(xk[L1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'b--')
-            plt.plot(v[i, 0], v[i, 1], marker='x', c='r', ms=12, label='v{}'.format(i))
-            axes.set_xlim(xlim)
-            axes.set_ylim(ylim)
-
-        def point_left_of_line(point, line_head, line_tail):
-            return is_ccw(line_head, line_tail, point)
-
-        def point_right_of_line(point, line_head, line_tail):
-            return is_cw(line_head, line_tail, point)
-
-        pol = shapely.ops.orient(self._polygon)
-        v = np.asarray(pol.exterior.coords)[:-1, :]
-
-        # Remove points in line
-        v_idcs = np.arange(v.shape[0])
-        for i in range(v.shape[0]):
-            if is_collinear(v[v_idcs[i - 2], :], v[v_idcs[i - 1], :], v[v_idcs[i], :]):
-                v_idcs[i - 1] = v_idcs[i - 2]
-        v_idcs = np.unique(v_idcs)
-        v = v[v_idcs, :]
-        if is_collinear(v[-2, :], v[-1, :], v[0, :]):
-            v = v[:-1]
-
-        N = v.shape[0]
-        for i in range(N):
-            # Order v to have v[:, 0] as reflex vertex
-            if is_reflex(i):
-                v = np.vstack((v[i:, :], v[:i, :]))
+        # The kernel is the intersection of the half planes to the left of the (ccw) edges
+        v = np.asarray(shapely.ops.orient(self._polygon).exterior.coords)
+        xk = np.asarray(shapely.ops.orient(shapely.geometry.box(*self._polygon.bounds)).exterior.coords)[:-1]
+        for vi, vi_1 in zip(v[:-1], v[1:]):
+            if xk.shape[0] == 0:
                 break
-
-        INF_VAL = 300.
-        # Initial step
-        F1 = v[0, :] + INF_VAL * (v[0, :] - v[1, :]) / np.linalg.norm(v[0, :] - v[1, :])
-        L1 = v[0, :] + INF_VAL * (v[0, :] - v[-1, :]) / np.linalg.norm(v[0, :] - v[-1, :])
-        xk = np.vstack((F1, v[0, :], L1))
-        F1_idx = 0  # Index of point F1 in xk
-        L1_idx = 2  # Index of point L1 in xk
-        xk_bounded = False
-
-        if verbose:
-            print("------")
-            print(0)
-            print("F1:", end=" ")
-            print(F1)
-            print("L1:", end=" ")
-            print(L1)
-        if debug:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-
-        for i in range(1, N):
-
-            if verbose:
-                print("------")
-                print(i)
-                print("F1 index: {}".format(F1_idx))
-                print("L1 index: {}".format(L1_idx))
-
-            L1 = xk[L1_idx, :]
-            F1 = xk[F1_idx, :]
-            vi = v[i, :]
-            vi_1 = v[(i + 1) % N, :]
-
-            # (1) vi is reflex
-            if is_reflex(i):
-                # (1.2) F1 lies to the left of line ->(vi->vi+1)->vi+1
-                start_point = vi - INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-                if point_left_of_line(F1, start_point, vi_1):
-                    case = 2
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                 label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.title("F1 lies to the left of line ->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.show()
-                    if verbose:
-                        print("(1.2) - F1 ({},{}) lies to the left of line ->(v{}->v{})->v{}".format(F1[0], F1[0], i,
-                                                                                                     i + 1, i + 1))
-                # (1.1) F1 lies on or to the right of line ->(vi->vi+1)->vi+1
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(1.1) - F1 ({},{}) lies on or to the right of line ->(v{}->v{})->v{}".format(F1[0], F1[0],
-                                                                                                          i, i + 1,
-                                                                                                          i + 1))
-                        print("Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                   i + 1,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from F1 to L1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w1 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        if not xk_bounded and t == 0:
-                            break
-                        # Get intersection w1 of current edge and line ->(vi->vi+1)->vi+1
-                        wt_prev = xk[t - 1, :]
-                        wt = xk[t, :]
-                        w1 = get_intersection(wt_prev, wt, start_point, vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([wt_prev[0], wt[0]], [wt_prev[1], wt[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                     i + 1,
-                                                                                                                     i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-
-                        if t == L1_idx:
-                            break
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found.. Polygon not starshaped.')
-                        plt.legend()
-                        plt.show()
-                        return False
-                    if verbose:
-                        print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w1[0], w1[1], i, i + 1,
-                                                                                            i + 1))
-                        print("Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                  i + 1,
-                                                                                                                  i + 1))
-                    # Scan xk cw from F1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w2 = None
-                    idcs_list = np.flip(np.roll(np.arange(xk.shape[0]), -F1_idx - 1)) if xk_bounded else range(F1_idx,
-                                                                                                               0, -1)
-                    # for s in range(F1_idx, 0, -1):
-                    for s in idcs_list:
-                        ws = xk[s, :]
-                        ws_prev = xk[s - 1, :]
-                        # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                        w2 = get_intersection(ws_prev, ws, start_point, vi_1)
-
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([ws_prev[0], ws[0]], [ws_prev[1], ws[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                    i + 1,
-                                                                                                                    i + 1))
-
-                        if w2 is not None:
-                            if xk_bounded and s > t:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[t:s, :]
-                                L1_idx = L1_idx - t + 2
-                            else:
-                                alpha = xk[:s, :]
-                                beta = xk[t:, :]
-                                # L1 is not moved if placed before w2
-                                if L1_idx >= s:
-                                    L1_idx = max(L1_idx - t + s + 2, s)
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            xk = np.vstack((alpha, w2, w1, beta))
-                            w1_idx = alpha.shape[0] + 1
-                            w2_idx = alpha.shape[0]
-                            ####### F1 index reassignment should not be necessary for this case
-                            F1_idx = w2_idx
-                            # L1_idx = L1_idx - t + s + 2
-
-                            if verbose:
-                                print("Update 1")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
-                        if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
-                            beta = xk[t:, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                         label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                plt.title(
-                                    "->(v{}->v{})->v{} between initial and finial half lines of xk".format(
-                                        i, i + 1, i + 1))
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= ->(vi->vi+1)->w1->beta is also unbounded.
-                            xk = np.vstack((start_point, w1, beta))
-                            w1_idx = 1
-                            # xk_bounded = False
-                            F1_idx = 0
-                            L1_idx -= t - 1
-
-
-                        else:
-                            # otherwise scan xk cw from xk[-1,:] until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                            if verbose:
-                                print(
-                                    "Scan xk cw from end until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                        i, i + 1, i + 1))
-                            w2 = None
-                            if xk_bounded:
-                                r = xk.shape[0]
-                                w2 = get_intersection(xk[0, :], xk[r - 1, :], start_point, vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[0, 0]], [xk[r - 1, 1], xk[0, 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                             color='y',
-                                             label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                    plt.title(
-                                        "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                            i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if w2 is None:
-                                for r in range(xk.shape[0] - 1, 0, -1):
-                                    # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                                    w2 = get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1)
-                                    if debug:
-                                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                        plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                        col = 'r' if w2 is None else 'g'
-                                        plt.plot([xk[r - 1, 0], xk[r, 0]], [xk[r - 1, 1], xk[r, 1]], marker='*',
-                                                 color=col, label="edge")
-                                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                                 color='y', label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                        plt.title(
-                                            "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                                i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                        break
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            # Set xk as delta-w2-w1
-                            xk = np.vstack((delta, w2, w1))
-                            w1_idx = delta.shape[0] + 1
-                            w2_idx = delta.shape[0]
-                            xk_bounded = True
-
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-                if case == 1:
-                    # If ->(vi->vi+1)->vi+1 has just one intersection with xk F1 = startpoint
-                    if w2 is None:
-                        F1_idx = 0
-                    # Otherwise F1 = w2
-                    else:
-                        F1_idx = w2_idx
-                if case == 2:
-                    # Scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-
-                # Check update of previous L1 index for new xk
-                # if not np.isclose(np.linalg.norm(L1 - xk[L1_idx, :]), 0):
-                # print("BAD L1 update [{},{}] -> [{},{}]".format(xk[L1_idx, 0], xk[L1_idx, 1], L1[0], L1[1]))
-                # plt.figure(2)
-                # draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                # plt.show()
-
-                # L1 update
-                # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
-                # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                idx_offsets = range(xk.shape[0])
-                for off in idx_offsets:
-                    u = (L1_idx + off) % xk.shape[0]
-                    w_next = xk[(u + 1) % xk.shape[0], :]
-                    line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
-                        L1_idx = u
-                        break
-
-            else:
-                if verbose:
-                    print("(2)")
-                # Endpoint for line vi->(vi->vi+1)->
-                end_point = vi + INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-
-                # (2.2) L1 lies to the left of line vi->(vi->vi+1)->
-                if point_left_of_line(L1, vi, end_point):
-                    case = 2
-                    if verbose:
-                        print("(2.2) - L1 ({},{}) lies to the left of line v{}->(v{}->v{})->".format(L1[0], L1[1], i, i,
-                                                                                                     i + 1))
-                    # xk stays the same
-
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([end_point[0], vi[0]], [end_point[1], vi[1]], marker='*', color='y',
-                                 label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.title("L1 lies to the left of line v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.show()
-
-                # (2.1) L1 lies on or to the right of line vi->(vi->vi+1)->
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(2.1) - L1 ({},{}) lies on or to the right of line v{}->(v{}->v{})->".format(L1[0], L1[1],
-                                                                                                          i, i, i + 1))
-                        print(
-                            "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                i, i, i + 1))
-                    # Scan xk cw from L1 until we reach F1 or an edge intersecting line vi->(vi->vi+1)->
-                    idx_offsets = range(xk.shape[0])
-                    w1 = None
-                    for off in idx_offsets:
-                        t = L1_idx - off
-                        # If circular
-                        if t < 0:
-                            t += xk.shape[0]
-                        if t == F1_idx:
-                            break
-                        # Get intersection w1 of edge and line vi->(vi->vi+1)->
-                        w1 = get_intersection(xk[t, :], xk[t - 1, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([xk[t - 1, 0], xk[t, 0]], [xk[t - 1, 1], xk[t, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                    i,
-                                    i,
-                                    i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found. Polygon not starshaped.')
-                        plt.show()
-                        return False
-
-                    if verbose:
-                        print("Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                            w1[0], w1[1], i, i, i + 1, xk[t - 1, 0], xk[t - 1, 1], xk[t, 0], xk[t, 1]))
-                        print("Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                   i,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from L1 until we reach edge w2 intersecting line vi->(vi->vi+1)->
-                    w2 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        s = (L1_idx + off) % xk.shape[0]
-                        if not xk_bounded and s == 0:
-                            break
-                        # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                        w2 = get_intersection(xk[s - 1, :], xk[s, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([xk[s - 1, 0], xk[s, 0]], [xk[s - 1, 1], xk[s, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                     i,
-                                                                                                                     i + 1))
-                        if w2 is not None:
-                            if xk_bounded and t > s:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[s:t, :]
-                                # F1 is placed after w1 and w2
-                                F1_idx = F1_idx - s + 2
-                            else:
-                                alpha = xk[:t, :]
-                                beta = xk[s:, :]
-                                if F1_idx >= s:
-                                    F1_idx = F1_idx - s + t + 2
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 1")
-                                print(
-                                    "Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                                        w2[0], w2[1], i, i, i + 1, xk[s, 0], xk[s, 1], xk[(s + 1) % xk.shape[0], 0],
-                                        xk[(s + 1) % xk.shape[0], 1]))
-
-                            xk = np.vstack((alpha, w1, w2, beta))
-                            w1_idx = alpha.shape[0]
-                            w2_idx = alpha.shape[0] + 1
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
-                        if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
-                                                                                                                   end_point,
-                                                                                                                   xk[0,
-                                                                                                                   :])) > 0):
-                            alpha = xk[:t, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                         label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                plt.title(
-                                    "v{}->(v{}->v{})-> between initial and final half lines of xk".format(
-                                        i, i, i + 1))
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= alpha->w1->(vi->vi+1)-> is also unbounded.
-                            xk = np.vstack((alpha, w1, end_point))
-                            w1_idx = alpha.shape[0]
-                            L1_idx = xk.shape[0] - 1
-                            F1_idx = 0
-                        else:
-                            if verbose:
-                                print(
-                                    "Scan xk ccw from start until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                        i,
-                                        i,
-                                        i + 1))
-                            # otherwise scan xk ccw from xk[0,:] until we reach edge intersecting line vi->(vi->vi+1)->
-                            w2 = None
-                            for r in range(1, xk.shape[0] + 1):
-                                # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                                w2 = get_intersection(xk[r - 1, :], xk[r % xk.shape[0], :], vi, end_point)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[r % xk.shape[0], 0]],
-                                             [xk[r - 1, 1], xk[r % xk.shape[0], 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                             label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                    plt.title(
-                                        "Scan xk ccw from xk[0,:] until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                            i,
-                                            i,
-                                            i + 1))
-                                if w2 is not None:
-                                    delta = xk[r:t, :]
-                                    if debug:
-                                        plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                        plt.legend()
-                                        plt.show()
-                                    break
-                                if debug:
-                                    plt.legend()
-                                    plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line v{}->(v{}->v{})->".format(w2[0], w2[1], i, i,
-                                                                                                    i + 1))
-                            # Set xk as delta-w1-vi-vi+1-w2
-                            xk = np.vstack((delta, w1, w2))
-                            w1_idx = delta.shape[0]
-                            w2_idx = delta.shape[0] + 1
-                            xk_bounded = True
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-
-                # If vi+1 in vi->(vi->vi+1)->w1,
-                if case == 2 or is_between(vi, vi_1, w1):
-                    # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                     label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                            c = 'g' if point_right_of_line(w_next, vi_1, line_end_point) else 'r'
-                            plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                            plt.title(
-                                "Update F1\n scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the right of v{}->(v{}->wt)->.".format(
-                                    i + 1, i + 1))
-                            plt.legend()
-                            plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-                else:
-                    F1_idx = w1_idx
-
-                # L1 update
-                if case == 1:
-                    if w2 is not None:
-                        # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
-                            L1_idx = w2_idx
-                        else:
-                            # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                            # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                            idx_offsets = range(xk.shape[0])
-                            for off in idx_offsets:
-                                u = (w2_idx + off) % xk.shape[0]
-                                w_next = xk[(u + 1) % xk.shape[0], :]
-                                line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                             label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                    c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                    plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                    plt.title(
-                                        "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                            i + 1, i + 1))
-                                    plt.legend()
-                                    plt.show()
-                                if point_left_of_line(w_next, vi_1, line_end_point):
-                                    L1_idx = u
-                                    break
-
-                    # (2.1.2) line vi->(vi->vi+1)-> intersects xk just in w1
-                    else:
-                        L1_idx = xk.shape[0] - 1
-                if case == 2:
-                    # print("(2.1.2)")
-                    if xk_bounded:
-                        # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                        # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                        idcs_list = np.roll(np.arange(xk.shape[0]), -L1_idx) if xk_bounded else range(L1_idx,
-                                                                                                      xk.shape[0] - 1)
-                        for u in idcs_list:
-                            w_next = xk[(u + 1) % xk.shape[0], :]
-                            line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                         label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                plt.title(
-                                    "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                        i + 1, i + 1))
-                                plt.legend()
-                                plt.show()
-                            if point_left_of_line(w_next, vi_1, line_end_point):
-                                L1_idx = u
-                                break
-
-            if verbose:
-                print("F1:", end=" ")
-                print(F1)
-                print("L1:", end=" ")
-                print(L1)
-                print("xk:", end=" ")
-                print(xk)
-        if debug or verbose:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-        _, idx = np.unique(xk, axis=0, return_index=True)
-        xk = xk[np.sort(idx), :]
+            edge = (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
+            # Signed distance from the line vi->vi+1 to the vertices of xk
+            dist = edge[0] * (xk[:, 1] - vi[1]) - edge[1] * (xk[:, 0] - vi[0])
+            dist[np.abs(dist) < 1e-12] = 0.
+            w = []
+            for t in range(xk.shape[0]):
+                if dist[t - 1] * dist[t] < 0:
+                    # The line intersects the edge of xk from w_t-1 to w_t
+                    w.append(xk[t - 1] + dist[t - 1] / (dist[t - 1] - dist[t]) * (xk[t] - xk[t - 1]))
+                if dist[t] >= 0:
+                    w.append(xk[t])
+            xk = np.array(w).reshape((-1, 2))
         # Remove vertices which coincide up to numerical precision
         xk = xk[np.linalg.norm(xk - np.roll(xk, 1, axis=0), axis=1) > 1e-9, :]
+        # No kernel exists
+        if xk.shape[0] < 3:
+            return False
         self._kernel = shapely.geometry.Polygon(xk)
 
 
-- 
2.43.0


From ad07df2cda89dccf8d00e2a0e422364ab7c6f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 45/51] fix: draw_shapely_polygon fails when clipping to the
 limits gives several parts or no polygon

---
 utils/misc.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/utils/misc.py b/utils/misc.py
index 05e09b0..16e2996 100644
--- a/utils/misc.py
+++ b/utils/misc.py
@@ -14,28 +14,26 @@ def toc(t0):
     return (time.time()-t0) * 1000
 
 
+# The polygons of a geometry
+def _polygons(geom):
+    return [p for p in getattr(geom, 'geoms', [geom]) if p.geom_type == 'Polygon']
+
+
 def draw_shapely_polygon(pol, ax=None, xlim=None, ylim=None, **kwargs):
     if ax is None:
         _, ax = plt.subplots(subplot_kw={'aspect': 'equal'})
-    pol_list = []
     handles = []
-    if pol.geom_type == 'Polygon':
-        pol_list += [pol]
-    else:
-        for p in pol.geoms:
-            if p.geom_type == 'Polygon':
-                pol_list += [p]
+    pol_list = _polygons(pol)
+    if xlim is not None and ylim is not None:
+        box = shapely.geometry.box(xlim[0] - 1, ylim[0] - 1, xlim[1] + 1, ylim[1] + 1)
+        pol_list = [q for p in pol_list for q in _polygons(p.intersection(box))]
     for p in pol_list:
-        if xlim is not None and ylim is not None:
-            pol_plot = p.intersection(shapely.geometry.box(xlim[0] - 1, ylim[0] - 1, xlim[1] + 1, ylim[1] + 1))
-        else:
-            pol_plot = p
-        handles += [patches.Polygon(xy=np.vstack((pol_plot.exterior.xy[0], pol_plot.exterior.xy[1])).T, **kwargs)]
+        handles += [patches.Polygon(xy=np.vstack((p.exterior.xy[0], p.exterior.xy[1])).T, **kwargs)]
         ax.add_patch(handles[-1])
-        if xlim is not None:
-            ax.set_xlim(xlim)
-        if ylim is not None:
-            ax.set_ylim(ylim)
+    if xlim is not None:
+        ax.set_xlim(xlim)
+    if ylim is not None:
+        ax.set_ylim(ylim)
     return handles, ax
 
 
-- 
2.43.0


From 34a56d0da964b4d4f1d3bb3325de941917807e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 46/51] fix: drawing a cluster passes handles as axes

---
 starshaped_hull/cluster_and_starify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 33cd94d..114ca83 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -34,11 +34,14 @@ class ObstacleCluster:
         return self._polygon_excluding_hull
 
     def draw(self, ax=None):
+        handles = []
         if self.cluster_obstacle is not None:
-            ax, _ = self.cluster_obstacle.draw(ax=ax, fc="green")
+            h, ax = self.cluster_obstacle.draw(ax=ax, fc="green")
+            handles += h
         for obs in self.obstacles:
-            ax, _ = obs.draw(ax=ax)
-        return ax, _
+            h, ax = obs.draw(ax=ax)
+            handles += h
+        return handles, ax
 
 
 def get_intersection_clusters(clusters):
-- 
2.43.0


From 6a831f090b0aa21da7922b9f3934d9ee04b33291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 47/51] fix: convexified clusters get a new identity in every
 time step

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 114ca83..075f268 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -465,7 +465,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
-                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL), id=cl.cluster_obstacle.id())
                     clusters[j]._polygon = None
 
         convex_time = toc(t1)
-- 
2.43.0


From 9a16217c2cc7b53022df725f1a489c6a9f140261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 48/51] fix: joint union loses pieces of the starshaped hull of
 polygons

---
 starshaped_hull/starshaped_hull.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 18086b3..5d2389c 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -51,7 +51,8 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
     vertices = np.asarray(polygon.exterior.coords)[:-1, :]
     edges = zip(vertices, np.roll(vertices, -1, axis=0))
     edge_hulls = [shapely.geometry.MultiPoint(np.vstack((*e, kernel_points))).convex_hull for e in edges]
-    hull = shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.area > 1e-10])
+    # The polygon is added last since a joint union with its edge hulls, which share its edges, may lose pieces
+    hull = polygon.union(shapely.ops.unary_union([h for h in edge_hulls if h.area > 1e-10]))
     # The union may leave slivers between adjacent edge hulls as holes
     hull = shapely.geometry.Polygon(hull.exterior)
 
-- 
2.43.0


From c543dd678e133a683809110a5f910741116671e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 49/51] fix: tangent points of combinations of many obstacles
 are missed

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 7cc2be8..abfc2bb 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -49,8 +49,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         for obs in self._obstacle_cluster:
             tp_candidates += obs.tangent_points(x, Frame.GLOBAL, Frame.GLOBAL)
         for i in range(len(tp_candidates)):
-            if all([is_ccw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]) or \
-                    all([is_cw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]):
+            if all([is_ccw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j != i]) or \
+                    all([is_cw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j != i]):
                 tp += [tp_candidates[i]]
         return tp
 
-- 
2.43.0


From a6381f56b32ef719885392a212b4501e82221993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 50/51] fix: clusters of an incomplete result as previous
 clusters raise an error

---
 starshaped_hull/cluster_and_starify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 075f268..527f2ef 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -180,7 +180,8 @@ def extract_cluster(cl, cl_list):
     if cl_list is None:
         return None
     for cl_i in cl_list:
-        if cl.name == cl_i.name:
+        # Clusters of an incomplete result have no kernel points
+        if cl.name == cl_i.name and cl_i.kernel_points is not None:
             return cl_i
     return None
 
-- 
2.43.0


From 84dca23cd61527ed3a79db52bd09cc9b1946c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 51/51] fix: obstacles without id are mixed up in clustering

---
 starshaped_hull/cluster_and_starify.py | 43 ++++++++++++++------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 527f2ef..fad6697 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -7,9 +7,14 @@ import starshaped_hull as sh
 import matplotlib.pyplot as plt
 
 
+# Temporary obstacles have no id. They are distinguished as objects.
+def obstacle_key(o):
+    return o.id() if o.id() is not None else 'temp' + str(id(o))
+
+
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
+        self.name = '_'.join(sorted([str(obstacle_key(o)) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
@@ -201,9 +206,9 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
     # Variable initialization
     kernel_time, hull_time, cluster_time, convex_time = [0.], [0.], [0.], 0.
-    adm_ker_robot_cones = {obs.id(): None for obs in obstacles}
-    adm_ker_goal_cones = {obs.id(): None for obs in obstacles}
-    adm_ker_obstacles = {obs.id(): {} for obs in obstacles}
+    adm_ker_robot_cones = {obstacle_key(obs): None for obs in obstacles}
+    adm_ker_goal_cones = {obstacle_key(obs): None for obs in obstacles}
+    adm_ker_obstacles = {obstacle_key(obs): {} for obs in obstacles}
     cluster_iterations = []
     n_iter = 0
 
@@ -219,15 +224,15 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         if max_compute_time < toc(t0):
             return default_result()
         # Find admissible kernel
-        adm_ker_robot_cones[o.id()] = sh.admissible_kernel(o, x)
-        adm_ker_goal_cones[o.id()] = sh.admissible_kernel(o, xg)
+        adm_ker_robot_cones[obstacle_key(o)] = sh.admissible_kernel(o, x)
+        adm_ker_goal_cones[obstacle_key(o)] = sh.admissible_kernel(o, xg)
 
-        if adm_ker_robot_cones[o.id()] is None:
+        if adm_ker_robot_cones[obstacle_key(o)] is None:
             if verbose:
                 print("[Cluster and Starify]: Robot position is not a free exterior point of obstacle " + str(o.id()))
             return default_result()
 
-        if adm_ker_goal_cones[o.id()] is None:
+        if adm_ker_goal_cones[obstacle_key(o)] is None:
             if verbose:
                 print("[Cluster and Starify]: Goal position is not a free exterior point of obstacle " + str(o.id()))
             return default_result()
@@ -235,20 +240,20 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         # Admissible kernel when excluding points of other obstacles
         if exclude_obstacles:
             for o_ex in obstacles:
-                if o_ex.id() == o.id():
+                if obstacle_key(o_ex) == obstacle_key(o):
                     continue
                 o_x_exclude = o_ex.extreme_points()
                 if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
-                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)] = None
                     continue
                 adm_ker_x_exclude = [sh.admissible_kernel(o, v) for v in o_x_exclude]
                 # Not possible to exclude points which are not free exterior points of the obstacle
                 if any([cone is None for cone in adm_ker_x_exclude]):
-                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_x_exclude[0].polygon()
+                adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)] = adm_ker_x_exclude[0].polygon()
                 for cone in adm_ker_x_exclude[1:]:
-                    adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_obstacles[o.id()][o_ex.id()].intersection(
+                    adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)] = adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)].intersection(
                         cone.polygon())
     init_kernel_time = toc(t0)
 
@@ -265,7 +270,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         # New---
         t1 = tic()
-        cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
+        cl.admissible_kernel = adm_ker_robot_cones[obstacle_key(o)].intersection(adm_ker_goal_cones[obstacle_key(o)])
         kernel_time[0] += toc(t1)
 
         if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
@@ -282,7 +287,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         t1 = tic()
 
         # -- Compute starshaped hull of cluster
-        cl_id = "new" if cl_prev is None else cl_prev.cluster_obstacle.id()
+        cl_id = "new" if cl_prev is None or cl_prev.cluster_obstacle.id() is None else cl_prev.cluster_obstacle.id()
         cluster_hull_extensions = sh.kernel_starshaped_hull(cl.obstacles, cl.kernel_points)
         hull_compute_time[0] += toc(t1)
         t1 = tic()
@@ -374,8 +379,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             # if len(cl.obstacles) == 2 and cl.obstacles[0].is_convex() and cl.obstacles[1].is_convex():
             #     cl.admissible_kernel = cl.obstacles[0].polygon().intersection(cl.obstacles[1].polygon()).buffer(0.01)
             # else:
-            adm_ker_robot = Cone.list_intersection([adm_ker_robot_cones[o.id()] for o in cl.obstacles], same_apex=True)
-            adm_ker_goal = Cone.list_intersection([adm_ker_goal_cones[o.id()] for o in cl.obstacles], same_apex=True)
+            adm_ker_robot = Cone.list_intersection([adm_ker_robot_cones[obstacle_key(o)] for o in cl.obstacles], same_apex=True)
+            adm_ker_goal = Cone.list_intersection([adm_ker_goal_cones[obstacle_key(o)] for o in cl.obstacles], same_apex=True)
             cl.admissible_kernel = adm_ker_robot.intersection(adm_ker_goal)
 
             if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
@@ -389,9 +394,9 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             if exclude_obstacles:
                 for o in cl.obstacles:
                     for o_ex in obstacles:
-                        if o_ex.id() == o.id() or adm_ker_obstacles[o.id()][o_ex.id()] is None:
+                        if obstacle_key(o_ex) == obstacle_key(o) or adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)] is None:
                             continue
-                        adm_ker_o_ex = adm_ker_o_ex.intersection(adm_ker_obstacles[o.id()][o_ex.id()])
+                        adm_ker_o_ex = adm_ker_o_ex.intersection(adm_ker_obstacles[obstacle_key(o)][obstacle_key(o_ex)])
                 if not (adm_ker_o_ex.is_empty or adm_ker_o_ex.area < 1e-6):
                     cl.admissible_kernel = adm_ker_o_ex
 
-- 
2.43.0

