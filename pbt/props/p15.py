"""Buildings as arrays and back."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone
from building3d.io.arrayformat import (
    count_objects,
    from_array_format,
    get_polygon_points_and_faces,
    to_array_format,
)

from .. import hier
from ..core import Sub, check
from ..lib import close


@st.composite
def spec(draw):
    return {"bdg": draw(hier.tree(empties=draw(st.integers(0, 3)) == 0, with_uid=False)), "first": draw(st.sampled_from(["", "same", "replace", "zones", "all"])), "k": draw(st.integers(0, 9))}


def objects(bdg):
    z = list(bdg.zones.values())
    s = [x for y in z for x in y.solids.values()]
    w = [x for y in s for x in y.walls.values()]
    p = [x for y in w for x in y.polygons.values()]
    return z, s, w, p


def converted(bdg, s, convert):
    """The building, or another one made of its parts, after an earlier conversion."""
    if s["first"]:
        convert(bdg)
    z, _, w, p = objects(bdg)
    if s["first"] == "replace" and p:
        old = p[s["k"] % len(p)]
        old.parent.replace_polygon(old.name, Polygon(old.pts.copy(), name="newone", tri=old.tri.copy()))
    elif s["first"] == "zones":
        bdg = Building(z[::-1], name=bdg.name)
    elif s["first"] == "all":
        walls = {id(x): Wall([y for y in list(x.polygons.values())[::-1]], name=x.name) for x in w}
        zones = [Zone([Solid([walls[id(x)] for x in y.walls.values()], name=y.name) for y in q.solids.values()], name=q.name) for q in z]
        bdg = Building(zones, name=bdg.name)
    return bdg


def arrays(s, ctx):
    bdg = converted(hier.build(s["bdg"]), s, to_array_format)
    fresh = converted(hier.build(s["bdg"]), s, lambda b: None)
    points, faces, polygons, walls, solids, zones = to_array_format(bdg)
    z, sl, w, p = objects(bdg)
    n_pts, n_tri = sum(len(x.pts) for x in p), sum(len(x.tri) for x in p)
    check(tuple(count_objects(bdg)) == (len(z), len(sl), len(w), len(p), n_tri, n_pts), "objects are counted wrong: %s", count_objects(bdg))
    check(points.shape == (n_pts, 3) and faces.shape == (n_tri, 3), "shapes of points and faces: %s %s", points.shape, faces.shape)
    check([len(a) for a in (polygons, walls, solids, zones)] == [n_tri, len(p), len(w), len(sl)], "lengths of arrays are wrong")

    # Numbers of objects are their positions, and arrays say what belongs to what
    for lst in (z, sl, w, p):
        check([x.num for x in lst] == list(range(len(lst))), "numbers of objects are %s", [x.num for x in lst])
    for x in sl:
        check(zones[x.num] == x.parent.num, "solid %s is mapped to the zone %s", x.path, zones[x.num])
    for x in w:
        check(solids[x.num] == x.parent.num, "wall %s is mapped to the solid %s", x.path, solids[x.num])
    for x in p:
        check(walls[x.num] == x.parent.num, "polygon %s is mapped to the wall %s", x.path, walls[x.num])
        mine = [faces[i] for i in range(n_tri) if polygons[i] == x.num]
        want = [x.pts[t].tolist() for t in x.tri]
        check([points[t].tolist() for t in mine] == want, "faces of the polygon %s are wrong", x.path)
        pts, tri = get_polygon_points_and_faces(points, faces, polygons, x.num)
        check(np.array_equal(pts, x.pts) and np.array_equal(tri, x.tri), "points and faces of the polygon %s are not restored", x.path)
    for a, b in zip(hier.leaves(bdg), hier.leaves(fresh)):
        check(a[0] == b[0] and np.array_equal(a[1].pts, b[1].pts) and np.array_equal(a[1].tri, b[1].tri),
              "conversion changed the building")

    # And back (zones without solids at the end are not part of the format)
    if sl:
        back = from_array_format(points, faces, polygons, walls, solids, zones)
        z2, s2, w2, p2 = objects(back)
        last = max(zones) + 1
        check(len(z2) == last and [len(x.solids) for x in z2] == [len(x.solids) for x in z[:last]], "zones are not restored")
        check([len(x.walls) for x in s2] == [len(x.walls) for x in sl], "solids are not restored")
        check([len(x.polygons) for x in w2] == [len(x.polygons) for x in w], "walls are not restored")
        for a, b in zip(p, p2):
            check(np.array_equal(a.pts, b.pts) and np.array_equal(a.tri, b.tri), "polygon %s is not restored", a.path)
            check(close(a.vn, b.vn) and close(a.area, b.area) and close(a.ctr, b.ctr), "polygon %s changed its normal, area or centroid", a.path)
        again = to_array_format(back)
        for a, b in zip((points, faces, polygons, walls, solids, zones), again):
            check(np.array_equal(a, b), "arrays of the restored building differ")
    if s["first"]:
        ctx.label(f"converted before: {s['first']}")
    ctx.label("empty parts" if any(not x.children for lst in (z, sl, w) for x in lst) else "no empty parts")
    ctx.mark(len(p) > 2 and len(w) > 1)


def large(s, ctx):
    """Many thousands of points."""
    bdg = hier.strips(s)
    arr = to_array_format(bdg)
    _, _, _, p = objects(bdg)
    z, sl, w, p2 = objects(from_array_format(*arr))
    check([len(x) for x in (z, sl, w, p2)] == [len(x) for x in objects(bdg)], "objects are not restored")
    for a, b in zip(p, p2):
        check(np.array_equal(a.pts, b.pts) and np.array_equal(a.tri, b.tri), "polygon %s is not restored", a.path)
    ctx.mark(sum(s["sizes"]) > 32767)


SUBS = [
    Sub("arrays", spec, arrays, 1200, 16000, "at least three polygons in at least two walls"),
    Sub("large", hier.strips_spec, large, 2, 60, "more than 32767 points"),
]
