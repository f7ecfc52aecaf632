PRE = """
import sys
import logging
import numpy as np
logging.disable(logging.CRITICAL)
"""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("P01-centroid-of-quads", "P01",
    [("geom/polygon/centroid.py", '    assert num_tri > 0, "No triangles passed"\n',
      '    if num_tri == 2:\n        # Quadrilateral\n        return pts.sum(axis=0) / pts.shape[0]\n')],
    "a quadrilateral which is not a parallelogram",
    "centroid of a quadrilateral becomes the mean of its corners", """
from building3d.geom.polygon import Polygon
p = Polygon(np.array([[0.0, 0, 0], [4, 0, 0], [2, 1, 0], [0, 1, 0]]))
want = np.array([14 / 9, 4 / 9, 0])
if not np.allclose(p.ctr, want):
    sys.exit(f"centroid of a trapezoid is {p.ctr}, expected {want}")
""")

bug("P02-gives-up-early", "P02",
    [("geom/triangles.py", "        if num_fail > len(pts):\n", "        if num_fail > len(pts) // 2:\n")],
    "a polygon in which more than half of the corners in a row are not ears (long concave side)",
    "triangulation is abandoned although the polygon is valid", """
from building3d.geom.polygon import Polygon
from building3d.geom.triangles import triangle_area
# A wedge with a concave side of many corners
base = [(0, 0), (8, 0)] + [(8 - i, i * i) for i in range(1, 8)][:0]
base = [(0, 64), (0, 0)] + [(i, 0.0) for i in ()] + [(64, 0)] + [(64 / 2**i, 2**i) for i in range(1, 6)]
for k in range(len(base)):
    pts = np.array([[x, y, 0.0] for x, y in base[k:] + base[:k]])
    try:
        p = Polygon(pts, vn=np.array([0.0, 0.0, 1.0]))
    except Exception as e:
        sys.exit(f"triangulation fails: {e}")
    areas = [triangle_area(*p.pts[t]) for t in p.tri]
    if len(areas) != len(base) - 2 or min(areas) < 1e-9 or abs(sum(areas) - p.area) > 1e-6:
        sys.exit("triangles do not add up to the polygon")
""".replace("base = [(0, 0), (8, 0)] + [(8 - i, i * i) for i in range(1, 8)][:0]\n", "").replace(" + [(i, 0.0) for i in ()]", ""))

bug("P03-margin-last-edge", "P03",
    [("geom/polygon/ispointinside.py", "        for edge in polygon_edges(pts):\n            d = ", "        for edge in polygon_edges(pts)[:-1]:\n            d = ")],
    "a point near the edge closing the outline, and a margin",
    "the margin is not kept from the closing edge of the outline", """
from building3d.geom.polygon import Polygon
p = Polygon(np.array([[0.0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0]]))
from building3d.geom.polygon.ispointinside import is_point_inside_margin
for pt in ([0.1, 2, 0], [3.9, 2, 0], [2, 0.1, 0], [2, 3.9, 0]):
    if is_point_inside_margin(np.array(pt, dtype=float), 0.5, p.pts, p.tri):
        sys.exit(f"{pt} is reported at least 0.5 away from the edges")
""")

bug("P04-far-plane-shortcut", "P04",
    [("geom/polygon/distance.py", "    if is_point_inside_ortho_projection(ptest, pts, tri):\n",
      "    span = np.max(np.abs(pts - ptest))\n    if np.abs(dist) >= 0.999 * span or is_point_inside_ortho_projection(ptest, pts, tri):\n")],
    "a point a bit beside the polygon, but very far over its axis-aligned plane",
    "distance to the plane is returned instead of the distance to the polygon", """
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.distance import distance_point_to_polygon
p = Polygon(np.array([[0.0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]))
d = distance_point_to_polygon(np.array([5.0, 5.0, 30.0]), p.pts, p.tri, p.vn)
want = np.sqrt(16 + 16 + 900)
if abs(d - want) > 1e-9:
    sys.exit(f"distance is {d}, expected {want}")
""")

bug("P05-own-outline-does-not-block", "P05",
    [("geom/points/find_close_pairs.py", "are_points_visible(p0, p1, edges0, edges1)", "are_points_visible(p0, p1, edges1)")],
    "a non-convex first outline, whose own edges stand between its corner and the other outline",
    "pairs of corners which do not see each other are returned as visible", """
from building3d.geom.points.find_close_pairs import find_close_pairs
from building3d.geom.points.visibility import are_points_visible
from building3d.geom.polygon.edges import polygon_edges
# The nearest corner of a C-like outline is hidden in its recess
c = np.array([[0.0, 0, 0], [6, 0, 0], [6, 1, 0], [1, 1, 0], [1, 5, 0], [6, 5, 0], [6, 6, 0], [0, 6, 0]])
sq = np.array([[-3.0, 2, 0], [-1, 2, 0], [-1, 4, 0], [-3, 4, 0]])
for a, b in ((c, sq), (sq, c)):
    pairs = find_close_pairs(a, b, 2)
    for p, q in pairs:
        if not are_points_visible(p, q, polygon_edges(a), polygon_edges(b)):
            sys.exit(f"{p} and {q} do not see each other")
""")

bug("P06-touching-one-way", "P06",
    [("geom/polygon/touching.py", "    elif ab_touch or ba_touch:\n", "    elif ab_touch:\n")],
    "a corner of the first polygon in the middle of an edge of the second one, no corner of the second one at the first one",
    "touching polygons are not recognized, and the answer depends on the order", """
from building3d.geom.polygon import Polygon
big = Polygon(np.array([[0.0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0]]))
tip = Polygon(np.array([[4.0, 2, 0], [6, 1, 0], [6, 3, 0]]))
apart = Polygon(np.array([[5.0, 2, 0], [6, 1, 0], [6, 3, 0]]))
if not tip.is_touching_polygon(big) or not big.is_touching_polygon(tip):
    sys.exit("polygons sharing a point are not touching")
if apart.is_touching_polygon(big):
    sys.exit("distant polygons are touching")
""")

bug("P07-long-edge-to-corner-chain", "P07",
    [("geom/polygon/slice/get_point_arrays.py", """        # Determine if first point starts at vertex or the last point ends at vertex
        if sploc[0][0] == VERTEX:
""", """        # Determine if first point starts at vertex or the last point ends at vertex
        if sploc[0][0] == VERTEX or len(slicing_pts) > 3:
""")],
    "a chain of at least four points starting on an edge and ending in a corner",
    "slicing fails for long chains from an edge to a corner", """
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.slice import slice_polygon
p = Polygon(np.array([[0.0, 0, 0], [8, 0, 0], [8, 8, 0], [0, 8, 0]]))
try:
    a, b = slice_polygon(p, np.array([[4.0, 0, 0], [4, 2, 0], [3, 4, 0], [0, 8, 0]]))
except AssertionError:
    sys.exit("chain from an edge to a corner refused")
if abs(a.area + b.area - 64) > 1e-9:
    sys.exit("areas do not add up")
""")

bug("P08-equal-zones-counted-once", "P08",
    [("geom/building/__init__.py", """        volume = 0.0
        for z in self.children.values():
            volume += z.volume()
        return volume
""", """        return sum({z.volume() for z in self.children.values()}, 0.0)
""")],
    "a building with two zones of exactly the same volume",
    "zones of equal volume are counted once in the volume of the building", """
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.geom.building import Building
b = Building([Zone([box(1.0, 2.0, 3.0, name="s")], name="a"), Zone([box(1.0, 2.0, 3.0, (5.0, 0.0, 0.0), name="s")], name="b")])
if abs(b.volume() - 12) > 1e-9:
    sys.exit(f"building volume is {b.volume()}, expected 12")
""")

bug("P09-plan-wall-wraparound", "P09",
    [("geom/solid/floor_plan.py", "                elif prev_taken != i - 1:\n", "                elif prev_taken != i - 1 and len(f_pts) < 6:\n")],
    "a floor plan with at least six corners",
    "the wall joining the last and the first corner of the floor points inwards", """
from building3d.geom.solid.floor_plan import floor_plan
plan = [(2, 0), (4, 0), (6, 3), (4, 6), (2, 6), (0, 3)]
for k in range(6):
    s = floor_plan(plan[k:] + plan[:k], 2.0)
    for w in s.children.values():
        for p in w.children.values():
            if np.dot(p.vn, p.ctr - np.array([3.0, 3.0, 1.0])) <= 0:
                sys.exit(f"normal of {p.name} points inwards")
""")

bug("P10-single-crossing", "P10",
    [("geom/solid/__init__.py", "        if num_crossings % 2 == 1:\n            return True\n", "        if num_crossings == 1:\n            return True\n")],
    "a non-convex solid and a point from which the ray leaves and enters the solid again",
    "points inside of a non-convex solid are reported outside", """
from building3d.geom.solid.floor_plan import floor_plan
plan = [(0, 0), (6, 0), (6, 9), (4, 9), (4, 1), (2, 1), (2, 9), (0, 9)]
s = floor_plan(plan, 5.0)
for pt in ([0.5, 3.0, 0.5], [5.0, 3.0, 1.0], [1.0, 5.0, 0.2]):
    if not s.is_point_inside(np.array(pt)):
        sys.exit(f"{pt} is inside, but reported outside")
""")
