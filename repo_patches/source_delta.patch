From 4ef756cfb6fbd6938354ad4f2b9446c60736191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:00 +0000
Subject: [PATCH 01/48] fix: do not give up triangulating polygons with many
 non-ear corners

The counter of failed corners was never reset after an ear was cut, so
valid polygons with many corners raised TriangulationError.
---
 building3d/geom/triangles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..1145267 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -262,6 +262,7 @@ def triangulate(
                 triangles.append((prev_id, curr_id, next_id))
                 # Remove pos from index
                 vertices.pop(pos)
+                num_fail = 0
                 continue
             else:
                 # There is some point inside this triangle
-- 
2.43.0


From 67520d516a5ae9631a8cb79dc8473f506132d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:00 +0000
Subject: [PATCH 02/48] fix: divide polygon centroid by the total area

The weighted sum of the triangle centroids was not normalised, so the
centroid was right only for polygons with unit area.
---
 building3d/geom/polygon/centroid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..c072d08 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,4 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
-    return poly_ctr
+    return poly_ctr / weights.sum()
-- 
2.43.0


From 25e5cd2f73395fd15de2f2270463ab2c0597d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:44 +0000
Subject: [PATCH 03/48] fix: roll polygon points until the first corner is
 convex

This is what the Polygon docstring promises when the normal vector is
provided. Without it the plane coefficients of such polygons had a wrong
sign, or were NaN for a straight first corner.
---
 building3d/geom/polygon/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..f508cec 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -7,6 +7,7 @@ from building3d.config import GEOM_ATOL
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.points import are_points_coplanar
+from building3d.geom.points import roll_forward
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.polygon.area import polygon_area
 from building3d.geom.polygon.centroid import polygon_centroid
@@ -16,6 +17,7 @@ from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_margin
 from building3d.geom.polygon.plane import plane_coefficients
 from building3d.geom.polygon.touching import are_polygons_touching
+from building3d.geom.triangles import is_corner_convex
 from building3d.geom.triangles import triangle_centroid
 from building3d.geom.triangles import triangulate
 from building3d.geom.types import FLOAT
@@ -79,6 +81,11 @@ class Polygon:
 
         if tri is None:
             self.pts, self.tri = triangulate(self.pts, self.vn)
+            while not is_corner_convex(
+                self.pts[-1], self.pts[0], self.pts[1], self.vn
+            ):
+                self.pts = roll_forward(self.pts)
+                self.tri = (self.tri + 1) % len(self.pts)
         else:
             assert len(tri) > 0, "Empty triangles provided"
             self.tri: IndexType = tri
-- 
2.43.0


From 1679029c32fe04697a0fadbcb125c9a06a471c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:44 +0000
Subject: [PATCH 04/48] fix: keep the normal opposite when flipping a polygon

The normal of the flipped polygon was taken from its first corner, which
is the last corner of the original one and can be non-convex.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index f508cec..06f5d57 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -146,7 +146,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From d5a0b3eb4fec63ba9964962993528f2e9ff9640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:35 +0000
Subject: [PATCH 05/48] fix: keep floor and ceiling names of flipped floor plan
 polygons

Depending on the orientation of the plan, the floor or the ceiling
polygon was flipped and got a random name.
---
 building3d/geom/solid/floor_plan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..63c5b96 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -104,12 +104,12 @@ def floor_plan(
     floor_poly = Polygon(floor_pts, name=floor_name)
     # Floor's normal should point downwards
     if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
+        floor_poly = floor_poly.flip(new_name=floor_name)
 
     ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
     # Ceiling's normal should point upwards
     if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+        ceiling_poly = ceiling_poly.flip(new_name=ceiling_name)
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From ea8d39b508563cb7cb8ae9d4f6d4d0db12583759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:56 +0000
Subject: [PATCH 06/48] fix: compute tetrahedron volume with the scalar triple
 product

The Cayley-Menger formula lost precision away from the origin and gave
NaN for flat tetrahedrons, so the volume of some solids was NaN.
---
 building3d/geom/tetrahedrons.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..bc6cec5 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
 
@@ -13,23 +12,11 @@ def tetrahedron_volume(
     pt2: PointType,
     pt3: PointType,
 ) -> FLOAT:
-    """Calculates volume using the Cayley-Menger formula."""
-    # Edge lengths
-    a = np.linalg.norm(pt1 - pt0)
-    b = np.linalg.norm(pt2 - pt0)
-    c = np.linalg.norm(pt3 - pt0)
-    d = np.linalg.norm(pt2 - pt1)
-    e = np.linalg.norm(pt3 - pt2)
-    f = np.linalg.norm(pt3 - pt1)
-
-    x = b**2 + c**2 - e**2
-    y = a**2 + c**2 - f**2
-    z = a**2 + b**2 - d**2
-
-    nominator = (
-        4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
-    )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    """Calculates volume using the scalar triple product."""
+    a = pt1 - pt0
+    b = pt2 - pt0
+    c = pt3 - pt0
+    vol = np.abs(np.dot(a, np.cross(b, c))) / 6.0
 
     return vol
 
-- 
2.43.0


From a7dd09045c7f1b46cf96db8911911d319f92aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:28 +0000
Subject: [PATCH 07/48] fix: scale point-on-segment tolerance with the segment
 length

The cross product was compared with an absolute tolerance, so crossing
points of long segments in general position were not recognised.
---
 building3d/geom/points/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 5b257f3..2283a96 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -257,6 +257,10 @@ def is_point_on_segment(
     if np.allclose(ptest, pt1, atol=atol) or np.allclose(ptest, pt2, atol=atol):
         return True
 
+    # The cross and dot products grow with the squared length of the segment
+    squared_length_p1_p2 = np.dot(pt2 - pt1, pt2 - pt1)
+    atol *= max(1.0, squared_length_p1_p2)
+
     # Check collinearity using the cross product
     if not np.allclose(
         np.cross(ptest - pt1, pt2 - pt1), np.zeros(3, dtype=FLOAT), atol=atol
@@ -265,7 +269,6 @@ def is_point_on_segment(
 
     # Check if the point lies within the segment bounds
     dot_product = np.dot(ptest - pt1, pt2 - pt1)
-    squared_length_p1_p2 = np.dot(pt2 - pt1, pt2 - pt1)
 
     if dot_product < -atol or dot_product > squared_length_p1_p2 + atol:
         return False
-- 
2.43.0


From 47652dd119e03c3810e4500964616562c757ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:33 +0000
Subject: [PATCH 08/48] fix: recognise polygons with properly crossing edges

The branch for edges crossing away from their ends was unreachable, and
the fallback sampling of edge points missed thin overlaps.
---
 building3d/geom/polygon/crossing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index bc34a88..ab94d8d 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -8,7 +8,6 @@ from building3d.geom.bboxes import cube_edges
 from building3d.geom.bboxes import cube_polygons
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
-from building3d.geom.points.distance import distance_point_to_edge
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_inside
@@ -54,9 +53,12 @@ def are_polygons_crossing(
                 p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
                 if np.isnan(p_cross).any():
                     continue
-                elif np.isclose(
-                    distance_point_to_edge(p_cross, e1[0], e1[1]), 0
-                ) or np.isclose(distance_point_to_edge(p_cross, e2[0], e2[1]), 0):
+                elif (
+                    points_equal(p_cross, e1[0])
+                    or points_equal(p_cross, e1[1])
+                    or points_equal(p_cross, e2[0])
+                    or points_equal(p_cross, e2[1])
+                ):
                     for x in np.linspace(0, 1, 10):
                         p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
                         if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
-- 
2.43.0


From 82963319a4cc9f701fc52594fd43a6d3d149f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:22 +0000
Subject: [PATCH 09/48] fix: do not report crossing polygons as touching

Only five points per edge were tested, so polygons with a small overlap
were reported as touching.
---
 building3d/geom/polygon/touching.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..9315022 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -4,6 +4,7 @@ from numba import njit
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
+from building3d.geom.polygon.crossing import are_polygons_crossing
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.types import IndexType
@@ -40,6 +41,9 @@ def are_polygons_touching(
     if are_all_points_same(pts1, pts2):
         return False
 
+    if are_polygons_crossing(pts1, tri1, pts2, tri2):
+        return False
+
     ab_touch, ab_inside = check_poly_a_against_b(pts1, tri1, pts2)
     ba_touch, ba_inside = check_poly_a_against_b(pts2, tri2, pts1)
 
-- 
2.43.0


From 8d7bf8319b2f59e5c7814a1d586b46c89ef16fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:30 +0000
Subject: [PATCH 10/48] fix: make the touching check independent of the polygon
 order

A polygon whose vertices are a subset of the other polygon's vertices
was taken for the same polygon, but only in one order of arguments.
---
 building3d/geom/polygon/touching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 9315022..902bea4 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -104,7 +104,7 @@ def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) == len(pts2):
         return True
     else:
         return False
-- 
2.43.0


From 8d246d37049e0d10ca4260238365fb85f8ccffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:30 +0000
Subject: [PATCH 11/48] fix: make the facing check independent of the polygon
 order

Vertices of the second polygon not shared with the first one were
ignored, so the result depended on the order of arguments.
---
 building3d/geom/polygon/facing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..93742d9 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -59,7 +59,7 @@ def are_polygons_facing(
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) == len(pts2):
         if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
             return True
     return False
-- 
2.43.0


From b18f04c12f7cb75c72cd76a062ce7f96305a230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:58 +0000
Subject: [PATCH 12/48] fix: slicing with both ends on the same edge

The slicing points were inserted at the wrong corner for the closing edge
of the polygon, and in the wrong order if the first corner of the slice
was non-convex.
---
 .../geom/polygon/slice/get_point_arrays.py    | 30 +++++++------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 721076e..49c06f5 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -2,7 +2,6 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
-from building3d.geom.points import is_point_in_array
 from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
@@ -10,7 +9,6 @@ from building3d.geom.polygon.slice.locate_slicing_points import \
     locate_slicing_points
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
-from building3d.geom.vectors import normal
 
 from .constants import EDGE
 from .constants import VERTEX
@@ -147,26 +145,20 @@ def get_point_arrays(
         pts1 = slicing_pts.copy()  # name=name1
 
         # Polygon 2 is composed of both, own points and sliced points
-        # slicing_pts must have opposite order than pts -> compare their normal vectors
-        slicing_vn = normal(slicing_pts[-1], slicing_pts[0], slicing_pts[1])
-        poly_vn = normal(pts[-1], pts[0], pts[1])
-        if np.allclose(-1 * slicing_vn, poly_vn):
-            pass
-        elif np.allclose(slicing_vn, poly_vn):
+        # slicing_pts must start closer to the beginning of the sliced edge
+        edge_start = edges[edge_num, 0]
+        if np.linalg.norm(slicing_pts[0] - edge_start) > np.linalg.norm(
+            slicing_pts[-1] - edge_start
+        ):
             slicing_pts = slicing_pts[::-1]  # Re-ordering needed
-        else:
-            raise ValueError("Unexpected slicing plane orientation")
 
         points_2 = []
-        slice_points_included = False
-        for p in pts:
-            points_2.append(p)
-            if not slice_points_included:
-                if is_point_in_array(p, edges[edge_num]):
-                    # Slicing ocurred at this edge - need to add slice_points
-                    for sp in slicing_pts:
-                        points_2.append(sp)
-                    slice_points_included = True
+        for i in range(len(pts)):
+            points_2.append(pts[i])
+            if points_equal(pts[i], edge_start):
+                # Slicing ocurred at this edge - need to add slice_points
+                for sp in slicing_pts:
+                    points_2.append(sp)
 
         pts2 = list_pts_to_array(points_2)
 
-- 
2.43.0


From fd5564cbf2cd235e169f3b00487c387e2f658d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:41 +0000
Subject: [PATCH 13/48] fix: stitch polygons which need more than one cut

Walls overlapping in the middle, like a narrow room adjacent to a wide
one, ended with infinite recursion or NotImplementedError, because all
intersections were put in a single slice. A polygon within another one
was left unstitched if the supporting cut went across it.
Now the polygon is cut along one part of the other outline at a time.
---
 building3d/geom/solid/stitch.py | 108 +++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 38 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..7439cb7 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -1,12 +1,16 @@
 import numpy as np
-from numba import njit
 
 from building3d.geom.exceptions import GeometryError
+from building3d.geom.points import is_point_on_segment
+from building3d.geom.points import is_valid_pt
+from building3d.geom.points import new_point_between_2_points
+from building3d.geom.points import points_equal
 from building3d.geom.points.find_close_pairs import find_close_pairs
+from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon import Polygon
+from building3d.geom.polygon.edges import polygon_edges
+from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.slice import slice_polygon
-from building3d.geom.polygon.slice.add_intersection_points import \
-    add_intersection_points
 from building3d.geom.solid import Solid
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
@@ -58,23 +62,15 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
         # Result:
         # - large polygon is sliced twice
         # - small polygon is not sliced
-        pairs = find_close_pairs(p1.pts, p2.pts, n=2, vis_only=True)
-        sup_cut = get_sup_cut(pairs)
-
         if p2_in_p1:
-            # Slice p1 twice
-            main, sup = slice_one_and_replace(s1, p1, sup_cut)
-            assert main is not None
-            _, _ = slice_one_and_replace(s1, main, p2.pts)
-
-        elif p1_in_p2:
-            # Slice p2 twice
-            main, sup = slice_one_and_replace(s2, p2, sup_cut)
-            assert main is not None
-            _, _ = slice_one_and_replace(s2, main, p1.pts)
-
+            s, large, small = s1, p1, p2
         else:
-            raise RuntimeError("Should not happen")
+            s, large, small = s2, p2, p1
+
+        a, b = slice_one_and_replace(s, large, get_sup_cut(large, small))
+        assert a is not None and b is not None
+        main = a if a.is_point_inside(small.get_some_interior_point()) else b
+        _, _ = slice_one_and_replace(s, main, small.pts)
 
     elif p1_in_p2_with_bnd:
         # Need to slice only p2
@@ -92,14 +88,21 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
     return None
 
 
-@njit
-def get_sup_cut(pairs: PointType) -> PointType:
-    """Returns points to be used to slice supporting polygon."""
-    pts = pairs.reshape((-1, 3))
-    tmp = pts[0].copy()
-    pts[0] = pts[1].copy()
-    pts[1] = tmp
-    return pts
+def get_sup_cut(large: Polygon, small: Polygon) -> PointType:
+    """Returns points to be used to slice supporting polygon.
+
+    The cut goes from the boundary of `large`, along the edges of `small`,
+    and back to the boundary of `large`.
+    """
+    pairs = find_close_pairs(large.pts, small.pts, n=2, vis_only=True)
+    first = [points_equal(pt, pairs[0, 1]) for pt in small.pts].index(True)
+    cut = [pairs[0, 0]]
+    for pt in np.roll(small.pts, -first, axis=0):
+        cut.append(pt)
+        if points_equal(pt, pairs[1, 1]):
+            break
+    cut.append(pairs[1, 0])
+    return np.vstack(cut)
 
 
 def slice_one_and_replace(
@@ -115,8 +118,7 @@ def slice_one_and_replace(
     Return:
         tuple of polygons `(a, b)`, where `b` is the polygon surrounded by `slicing_pts`
     """
-    _, slicing_pts = add_intersection_points(p.pts, slicing_pts)
-    slicing_pts = remove_outside_points(p, slicing_pts)
+    slicing_pts = get_cut(p, slicing_pts)
 
     if len(slicing_pts) < 2:
         return None, None
@@ -158,13 +160,43 @@ def get_walls_and_polygons(s: Solid) -> list[tuple[Wall, Polygon]]:
     return wpl
 
 
-def remove_outside_points(poly: Polygon, slicing_pts: PointType) -> PointType:
-    """Returns only those slicing points which are inside `poly` (boundary included)."""
-    pts = np.zeros(slicing_pts.shape, dtype=FLOAT)
-    j = 0
-    for i in range(slicing_pts.shape[0]):
-        pt = slicing_pts[i]
-        if poly.is_point_inside(pt, boundary_in=True):
-            pts[j] = pt
-            j += 1
-    return pts[:j]
+def get_cut(poly: Polygon, slicing_pts: PointType) -> PointType:
+    """Returns the first part of the closed chain `slicing_pts` which cuts `poly` in two.
+
+    The returned points start and end at the boundary of `poly`.
+    The array is empty if the chain does not go through the interior of `poly`.
+    """
+    # Split the chain at the boundary of the polygon
+    edges = polygon_edges(poly.pts)
+    pts = []
+    for p0, p1 in polygon_edges(slicing_pts):
+        split = [line_segment_intersection(p0, p1, e0, e1) for e0, e1 in edges]
+        split = [pt for pt in split if is_valid_pt(pt)]
+        split += [pt for pt in poly.pts if is_point_on_segment(pt, p0, p1)]
+        split.sort(key=lambda pt: np.linalg.norm(pt - p0))
+        for pt in [p0, *split]:
+            if not any(points_equal(pt, x) for x in pts):
+                pts.append(pt)
+
+    num = len(pts)
+    boundary = [is_point_at_boundary(pt, poly.pts) for pt in pts]
+    interior = [poly.is_point_inside(pt, boundary_in=False) for pt in pts]
+
+    for i in range(num):
+        if not boundary[i]:
+            continue
+        cut = [pts[i]]
+        j = (i + 1) % num
+        while interior[j]:
+            cut.append(pts[j])
+            j = (j + 1) % num
+        cut.append(pts[j])
+        if not boundary[j] or j == i:
+            continue
+        if len(cut) == 2:
+            mid = new_point_between_2_points(cut[0], cut[1], 0.5)
+            if not poly.is_point_inside(mid, boundary_in=False):
+                continue  # Outside or along the boundary
+        return np.vstack(cut)
+
+    return np.zeros((0, 3), dtype=FLOAT)
-- 
2.43.0


From d7cecc59f8e9a23dffac88c4c233cb091fffbe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:17 +0000
Subject: [PATCH 14/48] fix: do not reuse a building graph made for other
 connection types

The cached graph was returned even if it was calculated with different
facing, overlapping and touching arguments.
---
 building3d/geom/building/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..430c4fe 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -56,6 +56,7 @@ class Building:
         self.graph_wall = {}
         self.graph_solid = {}
         self.graph_zone = {}
+        self.graph_params = None
 
         logger.info(f"Building created: {self}")
 
@@ -162,10 +163,12 @@ class Building:
         Returns:
             dict with connections at a specified level
         """
-        if len(self.graph) == 0:
+        params = (facing, overlapping, touching)
+        if len(self.graph) == 0 or params != self.graph_params:
             new = True
 
         if new is True:
+            self.graph_params = params
             self.graph = graph_polygon(self, facing, overlapping, touching)
             self.graph_wall = graph_wall(
                 self, facing, overlapping, touching, self.graph
-- 
2.43.0


From 8c6cf0e360903db4257b1b1b0cf02bfea682c190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:55 +0000
Subject: [PATCH 15/48] fix: stitch every pair of adjacent solids in a building

Pairs with the same solid names in different zones were skipped, and so
were solids whose only contact is a wall within a larger wall. A cached
graph made with other arguments could be used to find adjacent solids,
and it was not dropped after the polygons were replaced.
---
 building3d/geom/building/__init__.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 430c4fe..f830196 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import combinations
 from typing import Sequence
 
 from building3d.random import random_id
@@ -195,21 +196,13 @@ class Building:
         """Find adjacent solids and stitch them."""
         logger.info(f"Stitching solids in building {self}")
 
-        # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
-        done = []
-
-        for s_path in adj_solids.keys():
-            for adj_s_path in adj_solids[s_path]:
-                _, z1_name, s_name = s_path.split(PATH_SEP)
-                _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
-
-                if set([s_name, adj_s_name]) not in done:
-                    stitch_solids(
-                        s1=self.zones[z1_name].solids[s_name],
-                        s2=self.zones[z2_name].solids[adj_s_name],
-                    )
-                    done.append(set([s_name, adj_s_name]))
+        # Solids which are not adjacent are left untouched
+        solids = [s for z in self.children.values() for s in z.children.values()]
+        for s1, s2 in combinations(solids, 2):
+            stitch_solids(s1, s2)
+
+        # Cached graph is not valid anymore, because polygons could be replaced
+        self.graph = {}
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From 8a2e93cc2bfa3a9fd7bf14608c4b8e832e3d3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:55 +0000
Subject: [PATCH 16/48] fix: replace only the sliced polygon when stitching

Polygons were matched by name, so a polygon with the same name in another
wall of the solid was replaced as well.
---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index 7439cb7..147742b 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -145,7 +145,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 4a7bedfdda215edb9b5a6d6384ce98863b76b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:21 +0000
Subject: [PATCH 17/48] fix: stacking meshes with empty objects

Offsets were not moved past objects without points, so the following
objects overwrote the previous ones.
---
 building3d/geom/mesh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..b42764f 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -36,13 +36,12 @@ def vstack_mesh(
     tri_offset = 0
     pts_offset = 0
     for i in range(num_objects):
+        if i > 0:
+            tri_offset += num_tri_per_obj[i - 1]
+            pts_offset += num_pts_per_obj[i - 1]
         for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
             faces[j + tri_offset] = t_tri[i][j] + num_pts_added
         for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
             verts[j + pts_offset] = t_pts[i][j]
             num_pts_added += 1
 
-- 
2.43.0


From ade7533329a40fa808f8faba52ccd7e4c013242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:21 +0000
Subject: [PATCH 18/48] fix: return identity matrix if points are not rotated

---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From 7a429267b84c0ededfe9f7ebbf16535f3a1ef613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:47 +0000
Subject: [PATCH 19/48] fix: translate points which do not need rotation to the
 plane

The points were left moved to the anchor and the translation was skipped
if their plane was already parallel to the requested one.
---
 building3d/geom/rotation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..0d085ff 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -118,23 +118,22 @@ def rotate_points_to_plane(
     if (np.abs(rotaxis) < GEOM_ATOL).all():
         # No need to rotate, the points are already at the correct plane
         phi = 0.0
-        return pts, rotaxis, phi
+    else:
+        rotaxis /= np.linalg.norm(rotaxis)
 
-    rotaxis /= np.linalg.norm(rotaxis)
+        # Find rotation angle
+        phi = angle(p_norm, u)
 
-    # Find rotation angle
-    phi = angle(p_norm, u)
-
-    # Rotate the points
-    R = rotation_matrix(rotaxis, float(phi))
-    pts = pts.dot(R.T)
+        # Rotate the points
+        R = rotation_matrix(rotaxis, float(phi))
+        pts = pts.dot(R.T)
 
     # Move points back from anchor
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts += anchor
+        pts = pts + anchor
 
     # Move points to d (translation)
     p_dest = u * d
-    pts += p_dest
+    pts = pts + p_dest
 
     return pts, rotaxis, float(phi)
-- 
2.43.0


From 3bdeaea32767c99d3bb0536c5be81fb7e8895b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:47 +0000
Subject: [PATCH 20/48] fix: keep the replaced polygon or wall if the
 replacement is rejected

The old object was removed before the name of the new one was checked,
so a rejected replacement left a hole in the wall or solid.
---
 building3d/geom/solid/__init__.py | 3 +++
 building3d/geom/wall/__init__.py  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..1d71691 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,6 +81,9 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
+        if new_wall.name != old_name and new_wall.name in self.walls:
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+
         del self.walls[old_name]
         self.add_wall(new_wall)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..dd8b588 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,6 +81,10 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
+        names = [k for k in self.polygons if k != old_name] + [p.name for p in new_poly]
+        if len(set(names)) != len(names):
+            raise GeometryError(f"Cannot replace {old_name}, new polygon already exists")
+
         del self.polygons[old_name]
         for np in new_poly:
             self.add_polygon(np)
-- 
2.43.0


From f22c45888536ea370490a54d2c56ecac3b510b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 21/48] fix: do not return outdated transparent polygons from
 the cache

Results were cached by the id of the building, so a building modified after
the first call, or a new one allocated under the same id, got wrong results.
The cached set was also shared with the caller, who could change it.
---
 building3d/sim/rays/find_transparent.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..7698573 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -24,13 +24,15 @@ import logging
 
 from building3d.geom.building import Building
 from building3d.geom.building.graph import graph_polygon
+from building3d.geom.building.graph import iter_polygons
 from building3d.geom.paths.split_path import split_path
 
 logger = logging.getLogger(__name__)
 
 
 # Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
+# The key includes the geometry, because the building can be modified after the first use
+CACHE: dict[tuple, set[str]] = {}  # {((path, pts, vn), ...): set(transparent_polygon_paths)}
 
 
 def find_transparent(building: Building) -> set[str]:
@@ -45,8 +47,9 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
+    key = tuple((p.path, p.pts.tobytes(), p.vn.tobytes()) for p in iter_polygons(building))
+    if key in CACHE:
+        return CACHE[key].copy()
 
     else:
         # Find facing polygons (matching exactly)
@@ -78,6 +81,6 @@ def find_transparent(building: Building) -> set[str]:
 
         # Add to CACHE
         set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
+        CACHE[key] = set_of_transparent_polygons
 
-        return set_of_transparent_polygons
+        return set_of_transparent_polygons.copy()
-- 
2.43.0


From b617f408fd585f401b1eb2500a4812f794863825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 22/48] fix: accept an existing empty buffer directory in
 simulation

---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..27fab01 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From f5f0e2ca74dcab9850c54a2e19f01f1bf570ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 23/48] fix: create the dump directory if it does not exist

This is what the docstring of dump_buffers() promises.
---
 building3d/sim/rays/dump_buffers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/building3d/sim/rays/dump_buffers.py b/building3d/sim/rays/dump_buffers.py
index 0df4ea2..09cc091 100644
--- a/building3d/sim/rays/dump_buffers.py
+++ b/building3d/sim/rays/dump_buffers.py
@@ -1,4 +1,5 @@
 import logging
+import os
 
 import numpy as np
 
@@ -37,6 +38,8 @@ def dump_buffers(
     """
     logger.debug(f"Saving buffers to {dump_dir}")
 
+    os.makedirs(dump_dir, exist_ok=True)
+
     step = 0
     num_steps = pos_buf.shape[0]
 
-- 
2.43.0


From bb748c3e8bfcc97a9535d9a517662c23f6019eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 24/48] fix: space the impulse response index by the time step

The n-th state of the buffer is at n * time_step, but the index was stretched
so that the last one was at num_steps * time_step.
---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From b9cde33845e8b77fc1e16259c35e38a4011654bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 25/48] fix: keep solid uid when reading an STL file

---
 building3d/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..dda3695 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -165,7 +165,7 @@ def read_stl(path: str) -> Building:
                 if solid_uid is None or solid_uid == "":
                     solid_uid = random_id()
 
-                solid = Solid([wall])
+                solid = Solid([wall], uid=solid_uid)
                 zone.add_solid(solid)
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
-- 
2.43.0


From 2bdd2746e60772b327b444221201a61747c53ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 26/48] fix: save objects without children in B3D files

Empty zones, solids, and walls were missing in the file, and reading
a building without zones failed with KeyError.
---
 building3d/io/b3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..c12668d 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -60,10 +60,14 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     # I am keeping only the object names and point coordinates
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
+    bdict["zones"]  # Objects without children have to be saved too
 
     for z in bdg.zones.values():
+        bdict["zones"][z.name]
         for s in z.solids.values():
+            bdict["zones"][z.name][s.name]
             for w in s.walls.values():
+                bdict["zones"][z.name][s.name][w.name]
                 for p in w.polygons.values():
                     bdict["zones"][z.name][s.name][w.name][p.name][
                         "pts"
-- 
2.43.0


From 07e9116d3077cbccddec37f82008773f1ec35fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 27/48] fix: raise ValueError if the path does not exist in the
 building

The docstring of Building.get() promises ValueError, but KeyError,
IndexError or AssertionError was raised.
---
 building3d/geom/building/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index f830196..fdf1849 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -97,8 +97,15 @@ class Building:
         obj = abspath.split(PATH_SEP)
         assert len(obj) >= 1
         building = obj[0]
-        assert building == self.name
+        if building != self.name:
+            raise ValueError(f"Incorrect absolute path: {abspath}")
+
+        try:
+            return self._get_by_names(obj)
+        except (KeyError, IndexError) as e:
+            raise ValueError(f"Incorrect absolute path: {abspath}") from e
 
+    def _get_by_names(self, obj: list[str]):
         if len(obj) == 1:
             return self
         elif len(obj) == 2:
@@ -127,7 +134,7 @@ class Building:
             index = int(obj[5])
             return self[zone][solid][wall][polygon][index]
         else:
-            raise ValueError(f"Incorrect absolute path: {abspath}")
+            raise ValueError(f"Incorrect absolute path: {PATH_SEP.join(obj)}")
 
     def get_polygon_paths(self) -> list[str]:
         """Returns a list of all paths to polygons belonging to this building."""
-- 
2.43.0


From 22ba9b58f6ad3a0d349b6b6ae0e972ef36fce859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 28/48] fix: use tolerance when comparing bounding boxes

Facing polygons were not detected if their coordinates differed only by
the rounding error, e.g. a box of size 0.3 next to a box moved by 0.1 + 0.2.
---
 building3d/geom/bboxes.py           | 3 ++-
 building3d/geom/polygon/touching.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/bboxes.py b/building3d/geom/bboxes.py
index 55d6ecf..a8d7291 100644
--- a/building3d/geom/bboxes.py
+++ b/building3d/geom/bboxes.py
@@ -33,6 +33,7 @@ def is_point_inside_bbox(
 def are_bboxes_overlapping(
     bbox1: tuple[PointType, PointType],
     bbox2: tuple[PointType, PointType],
+    atol: float = GEOM_ATOL,
 ) -> bool:
     """Check if two bounding boxes are overlapping.
 
@@ -49,7 +50,7 @@ def are_bboxes_overlapping(
         bool: True if the bounding boxes overlap, False otherwise.
     """
     # Check if max1 < min2 or min1 > max2
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - atol).any() or (bbox1[0] > bbox2[1] + atol).any():
         return False
     else:
         return True
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 902bea4..44af229 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numba import njit
 
+from building3d.config import GEOM_ATOL
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
@@ -73,7 +74,7 @@ def are_bboxes_overlapping(bbox1, bbox2):
     Returns:
         bool: True if the bounding boxes overlap, False otherwise.
     """
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - GEOM_ATOL).any() or (bbox1[0] > bbox2[1] + GEOM_ATOL).any():
         return False
     else:
         return True
-- 
2.43.0


From 95ae514e983c48d87d1af4123bcdb1a5fdd00bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:56 +0000
Subject: [PATCH 29/48] fix: match only complete file names in WildcardPath

Special characters of the path were interpreted as regular expressions,
e.g. a dot matched any character. A name ending with the requested one was
also matched, and only the last digit of a leading wildcard was returned.
---
 building3d/paths/wildcardpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..38022e1 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -216,7 +216,7 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
+        re_path = re.escape(self.path)
         start, stop = WildcardPath.wcard_sep
 
         for wname in self._wildcards:
@@ -225,7 +225,7 @@ class WildcardPath:
 
             for gr in groups:
                 re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        re_path = "(?:.*/)?" + re_path + "/*$"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From b638642ef57845996cbdc61771ddf16c6bf5bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:09 +0000
Subject: [PATCH 30/48] fix: use absorption of individual surfaces in the ray
 simulation

Values set with SimulationConfig.set_surface_param() were ignored and the
default one was used for all polygons. The default value can still be changed
after the configuration is created.
---
 building3d/sim/rays/simulation.py        | 5 +++--
 building3d/sim/rays/simulation_config.py | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 27fab01..7c6866a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..d455931 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -80,6 +80,8 @@ class SimulationConfig:
         for key in self.surfaces.keys():
             for path in poly_paths:
                 self.surfaces[key][path] = self.surfaces[key]["default"]
+        # Remember which values are default, because the default may be changed later
+        self.prefilled = {key: dict(values) for key, values in self.surfaces.items()}
 
     def set_surface_param(
         self,
@@ -120,11 +122,13 @@ class SimulationConfig:
 
         if isinstance(obj, Polygon):
             self.surfaces[param_name][surface_path] = value
+            self.prefilled.get(param_name, {}).pop(surface_path, None)
         elif isinstance(obj, (Building, Zone, Solid, Wall)):
             # Set the value to all polygons belonging to this object
             polygon_paths = obj.get_polygon_paths()
             for path in polygon_paths:
                 self.surfaces[param_name][path] = value
+                self.prefilled.get(param_name, {}).pop(path, None)
         else:
             raise TypeError(f"Incorrect type of object: {type(obj)}")
 
@@ -161,7 +165,8 @@ class SimulationConfig:
             assert 0 <= poly.num < len(poly_paths), "The polygon is numbered incorrectly"
 
             # Assign values to the return array
-            if pp in self.surfaces[param_name]:
+            default = self.prefilled.get(param_name, {}).get(pp)
+            if pp in self.surfaces[param_name] and self.surfaces[param_name][pp] != default:
                 values[poly.num] = self.surfaces[param_name][pp]
             else:
                 values[poly.num] = self.surfaces[param_name]["default"]
-- 
2.43.0


From 00635b5395c312165a548559eb3eb169ebed9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:15 +0000
Subject: [PATCH 31/48] fix: recognize collinear points if one of them is
 repeated

A point equal to the first one gave a null vector, which was compared with
the direction of the line.
---
 building3d/geom/points/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 2283a96..caca9f3 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -172,6 +172,9 @@ def are_points_collinear(
         else:
             vectors[v_num] = np.zeros(3, dtype=FLOAT)
 
+    # Points equal to the first one do not define any direction
+    vectors = vectors[np.sum(vectors**2, axis=1) > 0]
+
     are_collinear = True
     num_vectors = vectors.shape[0]
     for i in range(1, num_vectors):
-- 
2.43.0


From 6329d426b0670a52af92ed825579d4a89a76d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:53 +0000
Subject: [PATCH 32/48] fix: slice a polygon with a segment starting outside of
 it

A cut made of two points was treated as a closed loop, so each intersection
with the polygon outline was added twice and the slicing failed.
---
 building3d/geom/polygon/slice/add_intersection_points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/building3d/geom/polygon/slice/add_intersection_points.py b/building3d/geom/polygon/slice/add_intersection_points.py
index 40b2b54..c215451 100644
--- a/building3d/geom/polygon/slice/add_intersection_points.py
+++ b/building3d/geom/polygon/slice/add_intersection_points.py
@@ -31,6 +31,9 @@ def add_intersection_points(
 
     for i1 in range(edges1.shape[0]):
         for i2 in range(edges2.shape[0]):
+            if i2 == 1 and edges2.shape[0] == 2:
+                # Single segment, there is no closing edge
+                continue
             pt = line_segment_intersection(
                 pa1=edges1[i1, 0],
                 pb1=edges1[i1, 1],
-- 
2.43.0


From 74f531c2fb8f1443636c61fcadb6370dbb34ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:16 +0000
Subject: [PATCH 33/48] fix: compare sides of a line using the sign of the dot
 product

Unit vectors were compared with a tolerance close to the rounding error, so
points near an edge of an inclined polygon were reported as outside of it.
---
 building3d/geom/triangles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1145267..c09c6d7 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -76,9 +76,7 @@ def is_point_on_same_side(
         # This point lies on the edge connecting p1 and p2
         return False
     else:
-        vtest /= len_vtest
-        vref /= len_vref
-        return bool(np.isclose(vtest, vref, atol=atol).all())
+        return bool(np.dot(vtest, vref) > 0)
 
 
 @njit
-- 
2.43.0


From 329b7850da6d03916f30d9ac60eeaa93c8bf936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:44 +0000
Subject: [PATCH 34/48] fix: compare connections between points when checking
 if polygons are facing

---
 building3d/geom/polygon/facing.py | 42 ++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 93742d9..5b31d7e 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -5,7 +5,6 @@ from building3d.config import GEOM_RTOL
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import points_equal
-from building3d.geom.polygon.area import polygon_area
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
 
@@ -34,7 +33,7 @@ def are_polygons_facing(
 
     Note:
         This function uses bounding box overlap and point matching to determine
-        if polygons are facing. It may have rare cases of incorrect solutions.
+        if polygons are facing.
     """
     if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
         return False
@@ -44,22 +43,25 @@ def are_polygons_facing(
     if not are_bboxes_overlapping(bbox1, bbox2):
         return False
 
-    num_matching = 0
-    matched = set()
+    n = pts1.shape[0]
+    if n != pts2.shape[0]:
+        return False
+
+    matched = np.full(n, -1, dtype=np.int64)
+    used = np.zeros(n, dtype=np.bool_)
+
+    for i in range(n):
+        for j in range(n):
+            if not used[j] and points_equal(pts1[i], pts2[j]):
+                matched[i] = j
+                used[j] = True
+                break
+        if matched[i] < 0:
+            return False
 
-    # This does not test if the connections between points are same,
-    # so it additionally tests if the areas are the same.
-    # If all the points are the same and areas are the same, the polygons are
-    # most likely with the same shape.
-    # TODO: There might still be rare cases where it gives incorrect result.
-    for i in range(pts1.shape[0]):
-        for j in range(pts2.shape[0]):
-            if j not in matched:
-                if points_equal(pts1[i], pts2[j]):
-                    num_matching += 1
-                    matched.add(j)
-                    break
-    if num_matching == len(pts1) == len(pts2):
-        if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
-            return True
-    return False
+    # The points must be also connected in the same way.
+    # The normals are opposite, so the second polygon goes in the opposite direction.
+    for i in range(n):
+        if matched[(i + 1) % n] != (matched[i] - 1) % n:
+            return False
+    return True
-- 
2.43.0


From 404d3eb5ea4d4a007cc56575f16261595baca813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:17 +0000
Subject: [PATCH 35/48] fix: report polygons as crossing if they overlap with
 meeting edges sharing endpoints

---
 building3d/geom/polygon/crossing.py | 57 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index ab94d8d..fa57589 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -7,7 +7,6 @@ from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import cube_edges
 from building3d.geom.bboxes import cube_polygons
 from building3d.geom.points import new_point_between_2_points
-from building3d.geom.points import points_equal
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_inside
@@ -40,34 +39,40 @@ def are_polygons_crossing(
     if not are_points_coplanar(np.vstack((pts1, pts2))):
         return False
 
+    return is_any_edge_passing_through(pts1, pts2, tri2) or is_any_edge_passing_through(
+        pts2, pts1, tri1
+    )
+
+
+@njit
+def is_any_edge_passing_through(
+    pts1: PointType,
+    pts2: PointType,
+    tri2: IndexType,
+) -> bool:
+    """Checks if any edge of the polygon 1 meets an edge of the polygon 2 and goes through its interior.
+
+    Edges are divided at the points at which they meet the edges of the polygon 2,
+    and the middle of each part is tested. The polygons must be coplanar.
+    """
     for e1 in polygon_edges(pts1):
+        rel_d = [0.0, 1.0]
+        len_e1 = np.linalg.norm(e1[1] - e1[0])
         for e2 in polygon_edges(pts2):
-            if (
-                points_equal(e1[0], e2[0])
-                or points_equal(e1[0], e2[1])
-                or points_equal(e1[1], e2[1])
-                or points_equal(e1[1], e2[0])
-            ):
+            p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
+            if not np.isnan(p_cross).any():
+                rel_d.append(np.linalg.norm(p_cross - e1[0]) / len_e1)
+        if len(rel_d) == 2:
+            continue
+        rel_d.sort()
+        for i in range(len(rel_d) - 1):
+            if np.isclose(rel_d[i], rel_d[i + 1]):
                 continue
-            else:
-                p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
-                if np.isnan(p_cross).any():
-                    continue
-                elif (
-                    points_equal(p_cross, e1[0])
-                    or points_equal(p_cross, e1[1])
-                    or points_equal(p_cross, e2[0])
-                    or points_equal(p_cross, e2[1])
-                ):
-                    for x in np.linspace(0, 1, 10):
-                        p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
-                        if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
-                            return True
-                        p_mid = new_point_between_2_points(e2[0], e2[1], rel_d=x)
-                        if is_point_inside(p_mid, pts1, tri1, boundary_in=False):
-                            return True
-                else:
-                    return True
+            p_mid = new_point_between_2_points(
+                e1[0], e1[1], rel_d=(rel_d[i] + rel_d[i + 1]) / 2
+            )
+            if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
+                return True
     return False
 
 
-- 
2.43.0


From 1772b2e99b53d4b0daa26c42700bf6dba154dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:17 +0000
Subject: [PATCH 36/48] fix: keep points at the edges inside the polygon
 despite rounding

---
 building3d/geom/polygon/ispointinside.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/ispointinside.py b/building3d/geom/polygon/ispointinside.py
index 860a193..e403794 100644
--- a/building3d/geom/polygon/ispointinside.py
+++ b/building3d/geom/polygon/ispointinside.py
@@ -82,7 +82,8 @@ def is_point_inside(
                 else:
                     return True
 
-    return False
+    # Points at the edges might be missed by the triangles due to rounding
+    return boundary_in and is_point_at_boundary(ptest, pts, atol=atol)
 
 
 @njit
-- 
2.43.0


From 70e6bfa05cffe27857e5bb5ba043f0a7feb20c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:17 +0000
Subject: [PATCH 37/48] fix: stitch polygons surrounding other ones without
 crossing cuts

---
 building3d/geom/solid/stitch.py | 102 +++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 34 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index 147742b..fc7e71a 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -1,3 +1,5 @@
+from itertools import combinations
+
 import numpy as np
 
 from building3d.geom.exceptions import GeometryError
@@ -5,8 +7,8 @@ from building3d.geom.points import is_point_on_segment
 from building3d.geom.points import is_valid_pt
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
-from building3d.geom.points.find_close_pairs import find_close_pairs
 from building3d.geom.points.intersections import line_segment_intersection
+from building3d.geom.points.visibility import are_points_visible
 from building3d.geom.polygon import Polygon
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
@@ -52,33 +54,29 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
     p2_in_p1_with_bnd = p1.contains_polygon(p2, margin=-1e6)  # Includes boundary
     p1_in_p2_with_bnd = p2.contains_polygon(p1, margin=-1e6)  # Includes boundary
 
-    if p2_in_p1 or p1_in_p2:
-        # One polygon is completely inside the other
-        # Algorithm:
-        # - find close pairs which are mutually visible
-        # - slice the large polygon into 2: main + supporting
-        # - the supporting polygon needs to touch the edges of the large and small polygons
-        # - then slice the main polygon using the points of the small polygon
-        # Result:
-        # - large polygon is sliced twice
-        # - small polygon is not sliced
-        if p2_in_p1:
-            s, large, small = s1, p1, p2
-        else:
-            s, large, small = s2, p2, p1
-
-        a, b = slice_one_and_replace(s, large, get_sup_cut(large, small))
-        assert a is not None and b is not None
-        main = a if a.is_point_inside(small.get_some_interior_point()) else b
-        _, _ = slice_one_and_replace(s, main, small.pts)
+    if p2_in_p1:
+        slice_surrounding_and_replace(s1, p1, p2)
+
+    elif p1_in_p2:
+        slice_surrounding_and_replace(s2, p2, p1)
 
     elif p1_in_p2_with_bnd:
         # Need to slice only p2
-        _, _ = slice_one_and_replace(s2, p2, p1.pts)
+        a, _ = slice_one_and_replace(s2, p2, p1.pts)
+        if a is None:
+            # Edges of p1 can still go outside if p2 is not convex
+            a, _ = slice_one_and_replace(s1, p1, p2.pts)
+        if a is None:
+            slice_surrounding_and_replace(s2, p2, p1)
 
     elif p2_in_p1_with_bnd:
         # Need to slice only p1
-        _, _ = slice_one_and_replace(s1, p1, p2.pts)
+        a, _ = slice_one_and_replace(s1, p1, p2.pts)
+        if a is None:
+            # Edges of p2 can still go outside if p1 is not convex
+            a, _ = slice_one_and_replace(s2, p2, p1.pts)
+        if a is None:
+            slice_surrounding_and_replace(s1, p1, p2)
 
     else:
         # The polygons are overlapping. Need to slice both.
@@ -88,21 +86,57 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
     return None
 
 
+def slice_surrounding_and_replace(s: Solid, large: Polygon, small: Polygon) -> None:
+    """Slices `large` from solid `s`, which surrounds `small` (may touch it at one point).
+
+    Algorithm:
+    - find close pairs which are mutually visible
+    - slice the large polygon into 2: main + supporting
+    - the supporting polygon needs to touch the edges of the large and small polygons
+    - then slice the main polygon using the points of the small polygon
+
+    Result:
+    - large polygon is sliced twice
+    - small polygon is not sliced
+    """
+    a, b = slice_one_and_replace(s, large, get_sup_cut(large, small))
+    assert a is not None and b is not None
+    main = a if a.is_point_inside(small.get_some_interior_point()) else b
+    _, _ = slice_one_and_replace(s, main, small.pts)
+
+
 def get_sup_cut(large: Polygon, small: Polygon) -> PointType:
     """Returns points to be used to slice supporting polygon.
 
     The cut goes from the boundary of `large`, along the edges of `small`,
     and back to the boundary of `large`.
     """
-    pairs = find_close_pairs(large.pts, small.pts, n=2, vis_only=True)
-    first = [points_equal(pt, pairs[0, 1]) for pt in small.pts].index(True)
-    cut = [pairs[0, 0]]
-    for pt in np.roll(small.pts, -first, axis=0):
-        cut.append(pt)
-        if points_equal(pt, pairs[1, 1]):
-            break
-    cut.append(pairs[1, 0])
-    return np.vstack(cut)
+    edges = polygon_edges(large.pts), polygon_edges(small.pts)
+    pairs = [
+        (pt_l, pt_s)
+        for pt_l in large.pts
+        for pt_s in small.pts
+        if are_points_visible(pt_l, pt_s, *edges)
+    ]
+    pairs.sort(key=lambda pair: np.linalg.norm(pair[1] - pair[0]))
+    common = [pt for pt in small.pts if is_point_at_boundary(pt, large.pts)]
+    pairs = [(pt, pt) for pt in common] + pairs
+
+    for (l0, s0), (l1, s1) in combinations(pairs, 2):
+        if points_equal(l0, l1) or points_equal(s0, s1):
+            continue
+        if is_valid_pt(line_segment_intersection(l0, s0, l1, s1)):
+            continue  # Parts of the cut must not cross
+        first = [points_equal(pt, s0) for pt in small.pts].index(True)
+        cut = [] if points_equal(l0, s0) else [l0]
+        for pt in np.roll(small.pts, -first, axis=0):
+            cut.append(pt)
+            if points_equal(pt, s1):
+                break
+        cut.append(l1)
+        return np.vstack(cut)
+
+    raise GeometryError(f"Cannot slice {large.name} around {small.name}")
 
 
 def slice_one_and_replace(
@@ -118,15 +152,15 @@ def slice_one_and_replace(
     Return:
         tuple of polygons `(a, b)`, where `b` is the polygon surrounded by `slicing_pts`
     """
-    slicing_pts = get_cut(p, slicing_pts)
+    cut = get_cut(p, slicing_pts)
 
-    if len(slicing_pts) < 2:
+    if len(cut) < 2:
         return None, None
 
     pt_in_b = None  # TODO
     try:
         a, b = slice_polygon(
-            p, slicing_pts, pt2=pt_in_b, name1=f"{p.name}-main", name2=f"{p.name}-sup"
+            p, cut, pt2=pt_in_b, name1=f"{p.name}-main", name2=f"{p.name}-sup"
         )
     except GeometryError:
         return None, None
-- 
2.43.0


From 9ef1b793b359769839f5b92b0407544f3000d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:17 +0000
Subject: [PATCH 38/48] fix: remove straight corners left by slicing so that
 stitched polygons match

---
 building3d/geom/solid/stitch.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index fc7e71a..09d284c 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -3,6 +3,7 @@ from itertools import combinations
 import numpy as np
 
 from building3d.geom.exceptions import GeometryError
+from building3d.geom.points import is_point_in_array
 from building3d.geom.points import is_point_on_segment
 from building3d.geom.points import is_valid_pt
 from building3d.geom.points import new_point_between_2_points
@@ -170,11 +171,31 @@ def slice_one_and_replace(
     if not np.allclose(b.vn, p.vn):
         b = b.flip()
 
+    a = remove_straight_corners(a, slicing_pts)
+    b = remove_straight_corners(b, slicing_pts)
+
     replace_polygon(s, p, a, b)
 
     return a, b
 
 
+def remove_straight_corners(p: Polygon, keep: PointType) -> Polygon:
+    """Returns `p` without the corners laying between their neighbors, unless they are in `keep`.
+
+    Such corners may be left after slicing, and then the polygons would not match.
+    """
+    prev_pts = np.roll(p.pts, 1, axis=0)
+    next_pts = np.roll(p.pts, -1, axis=0)
+    pts = [
+        pt
+        for pt0, pt, pt1 in zip(prev_pts, p.pts, next_pts)
+        if not is_point_on_segment(pt, pt0, pt1) or is_point_in_array(pt, keep)
+    ]
+    if len(pts) == len(p.pts):
+        return p
+    return Polygon(np.vstack(pts), name=p.name, vn=p.vn)
+
+
 def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
-- 
2.43.0


From b67147eca3108e82e5f599161bb2d5dba7ea1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:31 +0000
Subject: [PATCH 39/48] fix: check edges, not only corners, when testing if a
 polygon contains another one

---
 building3d/geom/polygon/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 06f5d57..88df3fb 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -12,6 +12,7 @@ from building3d.geom.bboxes import bounding_box
 from building3d.geom.polygon.area import polygon_area
 from building3d.geom.polygon.centroid import polygon_centroid
 from building3d.geom.polygon.crossing import are_polygons_crossing
+from building3d.geom.polygon.crossing import is_any_edge_passing_through
 from building3d.geom.polygon.facing import are_polygons_facing
 from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_margin
@@ -167,7 +168,8 @@ class Polygon:
         for pt in other.pts:
             if not is_point_inside_margin(pt, margin, self.pts, self.tri):
                 return False
-        return True
+        # Edges of the other one may still go outside if this one is not convex
+        return not is_any_edge_passing_through(self.pts, other.pts, other.tri)
 
     def is_facing_polygon(self, other) -> bool:
         """Checks is the polygon is facing another one. Compares points and normals."""
-- 
2.43.0


From 823070e3a5616d73a434b8c8db077cfd892ea05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:35 +0000
Subject: [PATCH 40/48] fix: choose the first surface on the way of a ray as
 its target

The target was the surface with the smallest distance to the ray's position.
In rooms which are not convex such a surface may be hit later than another one,
so rays were reflected from surfaces they were not going to hit.
---
 building3d/sim/rays/find_target.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/building3d/sim/rays/find_target.py b/building3d/sim/rays/find_target.py
index 4ea851a..5f26398 100644
--- a/building3d/sim/rays/find_target.py
+++ b/building3d/sim/rays/find_target.py
@@ -3,7 +3,6 @@ import numpy as np
 
 from building3d.config import GEOM_ATOL
 from building3d.geom.polygon.ispointinside import is_point_inside_projection
-from building3d.geom.polygon.distance import distance_point_to_polygon
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
@@ -44,7 +43,7 @@ def find_target_surface(
         int: The index of the target surface (polygon) hit by the ray, or -1 if no surface is hit.
     """
     # Key -> polygon number
-    # Value -> polygon distance to ray's position (pos)
+    # Value -> multiple of `direction` at which the ray hits the polygon
     target_candidates = {-1: np.inf}  # Initialize with dummy data for numba to know the types
     min_dist_index = -1
 
@@ -59,15 +58,21 @@ def find_target_surface(
             # the first vector is convex
             polygon_normal = normal(poly_pts[pn][-1], poly_pts[pn][0], poly_pts[pn][1])
 
-            # Calculate how far the ray is from this polygon
-            dist = distance_point_to_polygon(pos, poly_pts[pn], poly_tri[pn], polygon_normal)
+            # Calculate how far along its direction the ray hits this polygon. The distance between
+            # the ray and the polygon is not enough, because a polygon which is closer to the ray
+            # may be hit later (e.g. the floor in the other arm of a U-shaped room).
+            denom = np.dot(polygon_normal, direction)
+            if np.abs(denom) < atol:
+                dist = 0.0  # The ray is already on the polygon and it is moving along it
+            else:
+                dist = np.dot(polygon_normal, poly_pts[pn][0] - pos) / denom
             target_candidates[pn] = dist
 
             if min_dist_index < 0:
                 # It is the first polygon that is being checked...
                 min_dist_index = pn
 
-            # If it is the closest polygon so far -> remember it
+            # If it is the first polygon on the way so far -> remember it
             if dist < target_candidates[min_dist_index]:
                 min_dist_index = pn
 
-- 
2.43.0


From b15e6efde7563ed1c8d6db16f3a05acc65f535ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:33 +0000
Subject: [PATCH 41/48] fix: let rays hit the surface of their own room out of
 two overlapping ones

Adjacent solids have overlapping surfaces. The target of a ray was any of them,
so rays lost the energy absorbed by the surface of the other solid.
---
 building3d/sim/rays/find_target.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/building3d/sim/rays/find_target.py b/building3d/sim/rays/find_target.py
index 5f26398..4f11f39 100644
--- a/building3d/sim/rays/find_target.py
+++ b/building3d/sim/rays/find_target.py
@@ -2,6 +2,7 @@ from numba import njit
 import numpy as np
 
 from building3d.config import GEOM_ATOL
+from building3d.config import GEOM_RTOL
 from building3d.geom.polygon.ispointinside import is_point_inside_projection
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
@@ -68,12 +69,18 @@ def find_target_surface(
                 dist = np.dot(polygon_normal, poly_pts[pn][0] - pos) / denom
             target_candidates[pn] = dist
 
+            min_dist = target_candidates[min_dist_index]
+
             if min_dist_index < 0:
                 # It is the first polygon that is being checked...
                 min_dist_index = pn
-
-            # If it is the first polygon on the way so far -> remember it
-            if dist < target_candidates[min_dist_index]:
+            elif np.abs(dist - min_dist) <= GEOM_RTOL * np.abs(min_dist):
+                # Surfaces of adjacent solids overlap. The ray hits the one which belongs to
+                # the solid it is inside, i.e. the one with the normal pointing along the ray
+                if denom > 0:
+                    min_dist_index = pn
+            elif dist < min_dist:
+                # If it is the first polygon on the way so far -> remember it
                 min_dist_index = pn
 
     if min_dist_index < 0:
-- 
2.43.0


From 3a735f5f450a0cebcef2ef2c08f776ce787b7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:18 +0000
Subject: [PATCH 42/48] fix: allow wildcards named like numbered copies of
 other wildcards

Wildcards were replaced one after another, so in a path with <a> and <a_0> the
second one was replaced inside of the expression made for the first one.
---
 building3d/paths/wildcardpath.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 38022e1..02b8a8e 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -219,12 +219,13 @@ class WildcardPath:
         re_path = re.escape(self.path)
         start, stop = WildcardPath.wcard_sep
 
-        for wname in self._wildcards:
-            wcard = self.wrap(wname)
-            groups = self._groups[wname]
-
-            for gr in groups:
-                re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
+        # All wildcards are replaced at once, because the names of groups can be names of wildcards
+        groups = {re.escape(w): iter(g) for w, g in self._groups.items()}
+        re_path = re.sub(
+            f"{start}([^{start}{stop}]+){stop}",
+            lambda m: f"(?P{start}{next(groups[m[1]])}{stop}\\d+)",
+            re_path,
+        )
         re_path = "(?:.*/)?" + re_path + "/*$"
         return re_path
 
-- 
2.43.0


From bed162564aa5a2175f31f23442020e774796da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:11 +0000
Subject: [PATCH 43/48] fix: compare polygons with different numbers of points
 and with other objects

The comparison raised an error if the numbers of points differed.
---
 building3d/geom/polygon/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 88df3fb..b54fb10 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -184,7 +184,9 @@ class Polygon:
         return are_polygons_touching(self.pts, self.tri, other.pts, other.tri)
 
     def __eq__(self, other):
-        if np.allclose(self.pts, other.pts):
+        if not isinstance(other, Polygon):
+            return NotImplemented
+        if self.pts.shape == other.pts.shape and np.allclose(self.pts, other.pts):
             return True
         else:
             return False
-- 
2.43.0


From 18d7ed7e4970cd162b898cacdcc57a4ede06a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:28 +0000
Subject: [PATCH 44/48] fix: use the given color when a single object is
 plotted

---
 building3d/display/plot_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..6ba8993 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -54,7 +54,7 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         # If more than 1 object is given, use different color for each
         if len(objects) > 1 and len(colors) == 0:
             col = random_rgb_color()
-        elif len(objects) > 1 and len(colors) == len(objects):
+        elif len(colors) == len(objects):
             col = [
                 float(x) for x in colors[obj_num]
             ]  # PyVista does not handle integer colors
-- 
2.43.0


From 155342bcf02828ca980a11e5b170ed3050662eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:28 +0000
Subject: [PATCH 45/48] fix: give the energies of the trails in movies in the
 order of their points

---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From f5c2dd12448ecbe824431b045651f770a4ac980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:51:39 +0000
Subject: [PATCH 46/48] fix: cut along the inner part of a slicing chain
 without inner points

A slicing chain may run along edges of the polygon before or after the
segment which cuts it. The special cases expect the first or the last
segment to be the cut, so the pieces were wrong. The only segment inside
of the polygon is used now, if there is exactly one.
---
 .../geom/polygon/slice/remove_redundant_points.py  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/building3d/geom/polygon/slice/remove_redundant_points.py b/building3d/geom/polygon/slice/remove_redundant_points.py
index b32aab3..e8b58ae 100644
--- a/building3d/geom/polygon/slice/remove_redundant_points.py
+++ b/building3d/geom/polygon/slice/remove_redundant_points.py
@@ -4,6 +4,7 @@ from numba import njit
 from building3d.geom.points import is_point_in_array
 from building3d.geom.points import roll_forward
 from building3d.geom.polygon.edges import polygon_edges
+from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.slice.locate_slicing_points import \
     locate_slicing_points
 from building3d.geom.types import FLOAT
@@ -63,6 +64,19 @@ def remove_redundant_points(
     num_at_vertex = sum([1 for loc, _ in sploc if loc == VERTEX])
     num_at_edge = sum([1 for loc, _ in sploc if loc == EDGE])
 
+    # If no point is inside the polygon, the slice is the only segment passing through its interior
+    if num_interior == 0:
+        num_segments = 0
+        slice_ix = 0
+        for i in range(len(slicing_pts) - 1):
+            if sploc[i][0] != EXTERIOR and sploc[i + 1][0] != EXTERIOR:
+                mid_pt = (slicing_pts[i] + slicing_pts[i + 1]) / 2
+                if is_point_inside(mid_pt, pts, tri, boundary_in=False):
+                    num_segments += 1
+                    slice_ix = i
+        if num_segments == 1:
+            return slicing_pts[slice_ix : slice_ix + 2].copy()
+
     # Special cases
     if len(slicing_pts) == 4 and len(pts) == 4:
         if num_at_vertex == 2 and num_at_edge == 2:
-- 
2.43.0


From fdae02f64a937848aa7486a465738fa867347483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:51:39 +0000
Subject: [PATCH 47/48] fix: keep facing polygons of the same solid opaque to
 rays

Surfaces are transparent if they separate two solids of a zone. Two
polygons of the same solid facing each other, such as the sides of a thin
fin, were taken for such surfaces.
---
 building3d/sim/rays/find_transparent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 7698573..ea4b77a 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -68,12 +68,12 @@ def find_transparent(building: Building) -> set[str]:
 
             if len(v) == 1:
                 if k not in added or v[0] not in added:
-                    _, z0, *_ = split_path(k)
-                    _, z1, *_ = split_path(v[0])
+                    _, z0, s0, *_ = split_path(k)
+                    _, z1, s1, *_ = split_path(v[0])
 
                     # Doesn't have to check if plg0 is facing plg1,
                     # because if they are in the graph, they must be
-                    if z0 == z1:
+                    if z0 == z1 and s0 != s1:
                         logger.debug(f"Transparent polygons found: {k}, {v[0]}")
                         transparent_polygons.extend([k, v[0]])
                         added.add(k)
-- 
2.43.0


From 54ddd699f09734f3a50002d292a98d8087e1981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:27 +0000
Subject: [PATCH 48/48] fix: find the plane of points even if consecutive
 points are repeated

Points were reported as coplanar if each three consecutive points were
collinear, e.g. if each point was given twice. Any three points are used
now to find the plane.
---
 building3d/geom/points/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index caca9f3..31201c2 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -121,13 +121,19 @@ def are_points_coplanar(
     i = 0
     while np.isnan(vec_n).any():
         if i + 2 >= num_pts:
-            # All points are collinear if we reach this point
-            # TODO: Collinearity was already tested before. This should never happen.
-            return True
+            # Consecutive points are collinear or repeated, so try all other points
+            for j in range(1, num_pts):
+                for k in range(j + 1, num_pts):
+                    if np.isnan(vec_n).any():
+                        vec_n = normal(pts[0], pts[j], pts[k])
+            break
 
         vec_n = normal(pts[i], pts[i + 1], pts[i + 2])
         i += 1
 
+    if np.isnan(vec_n).any():
+        return True  # All points are collinear
+
     # Plane equation:
     # ax + by + cz + d = 0
     # (a, b, c) are taken from the normal vector
-- 
2.43.0

