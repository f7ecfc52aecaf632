"""Triangulation tiles the polygon."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.geom.triangles import triangulate

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import rows


@st.composite
def many_corners(draw):
    """Larger polygons: combs and random star-shaped outlines with many corners."""
    if draw(st.booleans()):
        k = draw(st.integers(3, 12))
        hs = draw(st.lists(st.integers(1, 9), min_size=k, max_size=k))
        top = []
        x = 0
        for h in hs:
            top += [(x, h), (x + 1, 10 + h), (x + 2, h)]
            x += 2
        poly = [(0, 0), (x, 0)] + top[::-1]
        poly = geo.drop_straight([p for i, p in enumerate(poly) if i == 0 or p != poly[i - 1]])
    else:
        poly = draw(gen.star(max_pts=28))
    if draw(st.booleans()):
        poly = [(y, -x) for x, y in poly]
    return poly


@st.composite
def spec(draw):
    kind = draw(st.sampled_from(["plain", "plain", "straight", "many"]))
    if kind == "many":
        poly = draw(many_corners())
    else:
        poly = draw(gen.shape(straight=kind == "straight", kinds=gen.ALL_KINDS))
    r = draw(st.integers(0, len(poly) - 1))
    return {
        "poly": poly[r:] + poly[:r],
        "emb": draw(gen.embedding(max_off=200)),
        "rev": draw(st.booleans()),
        "away": draw(st.booleans()),
        "via": draw(st.sampled_from(["polygon", "function"])),
    }


def tiles(s, ctx):
    poly = tup(s["poly"])
    if not geo.is_simple(poly):
        ctx.label("not simple")
        return
    if s["rev"]:
        poly = poly[::-1]
    e = Emb(s["emb"])
    n = -e.n if s["away"] else e.n
    src = e.pts(poly)
    if s["via"] == "polygon":
        p = Polygon(src.copy(), vn=n.copy())
        pts, tri = p.pts, p.tri
    else:
        pts, tri = triangulate(src.copy(), n.copy())
    tri = np.asarray(tri)
    back = {r: q for r, q in zip(rows(src), poly)}
    check(len(pts) == len(poly) and set(rows(pts)) == set(back), "corners changed: %s", rows(pts))
    flat = [back[r] for r in rows(pts)]  # Library corner order, in 2D
    check(geo.normalize_loop(flat) in (geo.normalize_loop(poly), geo.normalize_loop(poly[::-1])),
          "corner order changed")
    check(tri.shape == (len(poly) - 2, 3), "%d corners give %s triangles", len(poly), tri.shape)
    check(tri.min() >= 0 and tri.max() < len(poly), "triangle index out of range")
    sign = -1 if s["away"] else 1
    ts = []
    for t in tri:
        t = [flat[int(i)] for i in t]
        o = geo.orient(*t) * sign
        check(o > 0, "triangle %s is degenerate or faces the other way", t)
        ts.append(t if sign > 0 else t[::-1])
    check(sum(geo.orient(*t) for t in ts) == abs(geo.area2(poly)),
          "triangles do not add up to the area of the polygon")
    # No overlap: with the right total area it also means complete coverage
    for i, a in enumerate(ts):
        for b in ts[:i]:
            c = geo.clip_convex(a, b)
            check(len(c) < 3 or geo.area2(c) == 0, "triangles %s and %s overlap", a, b)
    # Inside: the centroid and the edge middles of each triangle
    big = [(6 * x, 6 * y) for x, y in poly]
    for t in ts:
        c = (2 * sum(p[0] for p in t), 2 * sum(p[1] for p in t))
        check(geo.locate(c, big) == 1, "triangle %s sticks out of the polygon", t)
        for i in range(3):
            m = (3 * (t[i - 1][0] + t[i][0]), 3 * (t[i - 1][1] + t[i][1]))
            check(geo.locate(m, big) >= 0, "triangle %s sticks out of the polygon", t)
    ref = sum(geo.corner_sign(poly, i) * (-1 if s["rev"] else 1) <= 0 for i in range(len(poly)))
    ctx.label("convex" if ref == 0 else "few reflex" if ref < 4 else "many reflex")
    ctx.label("corners>12" if len(poly) > 12 else "corners<=12")
    ctx.mark(ref > 0)


SUBS = [
    Sub("tiles", spec, tiles, 2600, 60000,
        "simple polygon (plain, with straight corners, or with up to 40 corners) "
        "having at least one reflex or straight corner"),
]
