"""Area, normal, centroid and plane of a polygon."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.area import polygon_area
from building3d.geom.polygon.centroid import polygon_centroid
from building3d.geom.polygon.edges import polygon_edges
from building3d.geom.polygon.plane import plane_coefficients, projection_coefficients

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import close, rows, same_loop

ASSUMPTIONS = [
    "corner coordinates are exactly representable, so the points are coplanar within the library's tolerance",
]


def spec(straight=None):
    @st.composite
    def build(draw):
        s = draw(st.booleans()) if straight is None else straight
        poly = draw(gen.shape(straight=s, kinds=gen.ALL_KINDS))
        return {
            "poly": poly,
            "emb": draw(gen.embedding(max_off=200)),
            "k": draw(st.integers(0, 9)),
            "rev": draw(st.booleans()),
        }

    return build()


def verify(p, poly, e, n, what):
    """All measures of the library polygon `p` against the exact ones of `poly`."""
    area = abs(geo.area2(poly)) / 2 * e.scale**2
    cx, cy = geo.centroid(poly)
    ctr = e.pt(float(cx), float(cy))
    size = 1 + float(np.abs(ctr).max())
    check(close(p.vn, n), "%s: normal is %s, expected %s", what, list(p.vn), list(n))
    check(close(p.area, area, rtol=1e-7), "%s: area is %r, expected %r", what, p.area, area)
    check(close(p.ctr, ctr, atol=1e-8 * size), "%s: centroid is %s, expected %s",
          what, list(p.ctr), list(ctr))
    a, b, c, d = p.plane_coefficients
    check(close([a, b, c], n), "%s: plane coefficients %s do not match the normal %s",
          what, [a, b, c], list(n))
    for q in e.pts(poly):
        r = a * q[0] + b * q[1] + c * q[2] + d
        check(abs(r) < 1e-7 * size, "%s: corner %s is %r off the reported plane", what, list(q), r)
    # The corners are the given ones and run counter-clockwise around the normal
    want = poly if np.dot(n, e.n) * geo.area2(poly) > 0 else poly[::-1]
    check(same_loop(p.pts, e.pts(want)), "%s: corners changed: %s", what, rows(p.pts))
    bb = p.bbox()
    pts = e.pts(poly)
    check(close(bb[0], pts.min(axis=0)) and close(bb[1], pts.max(axis=0)), "%s: wrong bbox", what)


def measures(s, ctx):
    poly = tup(s["poly"])
    rev = s["rev"]
    if rev:
        poly = poly[::-1]
    poly = gen.convex_start(poly, s["k"])
    e = Emb(s["emb"])
    n = -e.n if rev else e.n
    p = Polygon(e.pts(poly))
    n_ref = sum(geo.corner_sign(poly, i) * (-1 if rev else 1) <= 0 for i in range(len(poly)))
    ctx.label(f"frame{e.s}", "reflex" if n_ref else "convex")
    ctx.mark(len(poly) > 3)
    verify(p, poly, e, n, "polygon")
    # Free functions agree
    check(close(polygon_area(p.pts, p.vn), p.area, rtol=1e-9), "polygon_area differs")
    check(close(polygon_centroid(p.pts, p.tri), p.ctr), "polygon_centroid differs")
    pc = plane_coefficients(e.pts(poly))
    check(close(pc, p.plane_coefficients, atol=1e-7), "plane_coefficients differs")
    q = e.pt(3, -5, 2)
    a, b, c, d = projection_coefficients(q, p.vn)
    check(close([a, b, c], p.vn) and close(d, -float(np.dot(p.vn, q)), atol=1e-7),
          "plane through another point is wrong")
    # Edges join consecutive corners
    ed = polygon_edges(p.pts)
    check(ed.shape == (len(poly), 2, 3), "wrong number of edges")
    want = {(a, b) for a, b in zip(rows(p.pts), rows(np.roll(p.pts, -1, axis=0)))}
    check({tuple(rows(x)) for x in ed} == want, "edges do not join consecutive corners")


def given_normal(s, ctx):
    """Any first corner and any direction of corners are fine if the normal is given."""
    poly = tup(s["poly"])
    e = Emb(s["emb"])
    for given in (poly, poly[::-1]):
        for n in (e.n, -e.n):
            p = Polygon(e.pts(given), vn=n.copy())
            verify(p, poly, e, n, "polygon with a given normal")
    first = geo.corner_sign(poly, 0)
    ctx.label({1: "first convex", 0: "first straight", -1: "first reflex"}[first])
    ctx.mark(first <= 0)


def flipping(s, ctx):
    poly = tup(s["poly"])
    if s["rev"]:
        poly = poly[::-1]
    poly = gen.convex_start(poly, s["k"])
    e = Emb(s["emb"])
    n = -e.n if s["rev"] else e.n
    p = Polygon(e.pts(poly), name="front")
    before = p.pts.copy()
    q = p.flip("back")
    verify(q, poly, e, -n, "flipped polygon")
    check(q.name == "back", "flip() ignores the new name")
    r = q.flip("again")
    verify(r, poly, e, n, "twice flipped polygon")
    verify(p, poly, e, n, "polygon after flip()")
    check(np.array_equal(before, p.pts), "flip() changes the original")
    ctx.mark(any(geo.corner_sign(poly, i) * (-1 if s["rev"] else 1) <= 0 for i in range(len(poly))))


SUBS = [
    Sub("measures", spec, measures, 2400, 60000,
        "simple polygon with at least 4 corners, in a random exact frame"),
    Sub("given_normal", spec, given_normal, 1200, 30000, "the first given corner is not convex"),
    Sub("flip", spec, flipping, 1200, 30000, "polygon with a reflex or straight corner"),
]
