"""Where a point lies with respect to a polygon."""

import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.polygon.ispointinside import (
    is_point_at_boundary,
    is_point_inside,
    is_point_inside_margin,
    is_point_inside_ortho_projection,
    is_point_inside_projection,
)
from building3d.geom.triangles import is_point_inside as in_triangle

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import build_polygon

ASSUMPTIONS = [
    "points are either exactly on the boundary or plane, or at least about 1e-3 of the unit away from it",
]

DEN = 2**9


def interior_point(draw, poly, den):
    """Some point of a random triangle of the polygon, in units of 1/den."""
    t = draw(st.sampled_from(geo.ears(poly if geo.area2(poly) > 0 else poly[::-1])))
    a = draw(st.integers(1, 6))
    b = draw(st.integers(1, 7 - a))
    c = 8 - a - b
    return tuple((a * t[0][i] + b * t[1][i] + c * t[2][i]) * den // 8 for i in range(2))


@st.composite
def point_near(draw, poly):
    """Integer point in units of 1/DEN, biased to corners, edges and their extensions."""
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    mode = draw(st.sampled_from(["any", "grid", "corner", "edge", "near", "line", "interior"]))
    if mode == "interior":
        return interior_point(draw, poly, DEN)
    if mode == "any":
        return (draw(st.integers((min(xs) - 1) * DEN, (max(xs) + 1) * DEN)),
                draw(st.integers((min(ys) - 1) * DEN, (max(ys) + 1) * DEN)))
    if mode == "grid":
        h = DEN // 2
        return (h * draw(st.integers(2 * min(xs) - 2, 2 * max(xs) + 2)),
                h * draw(st.integers(2 * min(ys) - 2, 2 * max(ys) + 2)))
    i = draw(st.integers(0, len(poly) - 1))
    a, b = poly[i - 1], poly[i]
    if mode == "corner":
        q = (a[0] * DEN, a[1] * DEN)
    else:
        t = draw(st.integers(1, 15)) if mode != "line" else draw(st.sampled_from([-8, -1, 17, 24]))
        q = ((a[0] * (16 - t) + b[0] * t) * DEN // 16, (a[1] * (16 - t) + b[1] * t) * DEN // 16)
    if mode == "near":
        q = (q[0] + draw(st.integers(-3, 3)), q[1] + draw(st.integers(-3, 3)))
    return q


@st.composite
def spec(draw):
    poly = draw(gen.shape(straight=draw(st.integers(0, 4)) == 0))
    rev = draw(st.booleans())
    k = draw(st.integers(0, 9))
    poly = gen.convex_start(poly[::-1] if rev else poly, k)
    return {
        "poly": poly,
        "emb": draw(gen.embedding(max_off=40)),
        "q": draw(point_near(poly)),
        "w": draw(st.sampled_from([0, 0, 0, DEN, -3 * DEN, 7, -2])),
    }


def place(s):
    poly = tup(s["poly"])
    e = Emb(s["emb"])
    q = tuple(s["q"])
    big = [(x * DEN, y * DEN) for x, y in poly]
    return poly, e, build_polygon(poly, e), q, geo.locate(q, big), big


def bdist2(q, big):
    """Exact squared distance to the boundary, in units of 1/DEN."""
    return min(geo.dist2_point_segment(q, big[i - 1], big[i]) for i in range(len(big)))


def inside(s, ctx):
    poly, e, p, q, loc, big = place(s)
    w = s["w"]
    if any(0 < max(abs(q[0] - c[0]), abs(q[1] - c[1])) < 8 for c in big):
        return  # The library compares points with a relative tolerance of 1e-5
    pt = e.pt(q[0] / DEN, q[1] / DEN, w / DEN)
    where = {1: "inside", 0: "boundary", -1: "outside"}[loc]
    ctx.label(where + ("" if w == 0 else " off plane"))
    ctx.mark(loc == 0 or bdist2(q, big) <= 64)
    on = w == 0
    # Own tolerance of the answer: at 1e-9 no generated point is ambiguous
    check(p.is_point_inside(pt) == (on and loc >= 0), "%s point reported %s", where,
          p.is_point_inside(pt))
    check(p.is_point_inside(pt, boundary_in=True) == (on and loc >= 0), "boundary_in=True")
    check(p.is_point_inside(pt, boundary_in=False) == (on and loc > 0),
          "%s point (boundary excluded) reported %s", where, p.is_point_inside(pt, boundary_in=False))
    check(is_point_inside(pt, p.pts, p.tri) == (on and loc >= 0), "function")
    check(is_point_inside(pt, p.pts, p.tri, boundary_in=False) == (on and loc > 0), "function, open")
    check(is_point_at_boundary(pt, p.pts) == (on and loc == 0),
          "%s point: at boundary is %s", where, is_point_at_boundary(pt, p.pts))
    # Orthogonal projection ignores the distance from the plane
    check(is_point_inside_ortho_projection(pt, p.pts, p.tri) == (loc >= 0),
          "orthogonal projection of a point projected %s", where)
    # Each triangle on its own
    for t in p.tri[:3] if on else []:
        c2 = [big[[tuple(r) for r in map(tuple, e.pts(poly))].index(tuple(p.pts[i]))] for i in t]
        want = geo.in_triangle(q, *c2)
        check(in_triangle(pt, *[p.pts[i] for i in t]) == want, "triangle %s", c2)


@st.composite
def margin_spec(draw):
    s = draw(spec())
    if draw(st.booleans()):
        s["q"] = interior_point(draw, s["poly"], DEN)
        s["w"] = 0
    s["m"] = draw(st.integers(0, 16))  # Margin in 1/8 of the unit
    return s


def margin(s, ctx):
    poly, e, p, q, loc, big = place(s)
    if s["w"] != 0:
        q_off = True
    else:
        q_off = False
    pt = e.pt(q[0] / DEN, q[1] / DEN, s["w"] / DEN)
    d = math.sqrt(float(bdist2(q, big))) / DEN
    m = s["m"] / 8
    if loc >= 0 and abs(d - m) < 1e-5:
        m += 1 / 64  # Not decided at exactly the margin
    want = not q_off and loc >= 0 and d > m
    got = is_point_inside_margin(pt, m * e.scale, p.pts, p.tri)
    check(got == want, "distance to the boundary %g, margin %g, reported %s", d * e.scale,
          m * e.scale, got)
    ctx.label("kept" if want else "rejected")
    ctx.mark(not q_off and loc > 0 and m > 0)


@st.composite
def proj_spec(draw):
    s = draw(spec())
    if draw(st.booleans()):
        s["q"] = interior_point(draw, s["poly"], DEN)
    # Direction in frame coordinates; the point is moved back along it
    s["dir"] = draw(st.tuples(st.integers(-3, 3), st.integers(-3, 3),
                              st.sampled_from([-2, -1, 1, 2])))
    s["t"] = draw(st.sampled_from([-4, -2, -1, 1, 2, 4, 8]))
    s["len"] = draw(st.sampled_from([0.25, 1.0, 3.0]))
    s["fwd"] = draw(st.booleans())
    s["on"] = draw(st.integers(0, 5)) == 0  # The start is on the polygon
    if s["on"]:
        s["emb"] = draw(gen.embedding(axis_only=True, max_off=40))  # Coordinates in the plane are exact
    return s


def projection(s, ctx):
    """Shooting a ray from q - t * dir along dir meets the plane exactly at q."""
    poly, e, p, q, loc, big = place(s)
    if loc != 0 and bdist2(q, big) < 4:
        return  # The projected point is rounded, stay away from the boundary
    if loc == 0:
        return
    d = s["dir"]
    t = 0 if s["on"] else s["t"]
    start = e.pt(q[0] / DEN - t * d[0], q[1] / DEN - t * d[1], -t * d[2])
    vec = (e.pt(*d) - e.pt(0, 0, 0)) / e.unit
    vec = vec / np.linalg.norm(vec) * s["len"]
    got = is_point_inside_projection(start, vec, p.pts, p.tri, fwd_only=s["fwd"], atol=1e-6)
    want = loc > 0 and (t >= 0 or not s["fwd"])
    check(got == want, "ray which %s the polygon %s (forward only: %s) reported %s",
          "meets" if loc > 0 else "misses", "ahead" if t > 0 else "at its start" if t == 0 else "behind", s["fwd"], got)
    ctx.label(("hit" if loc > 0 else "miss") + (" ahead" if t > 0 else " at the start" if t == 0 else " behind"))
    ctx.mark(loc > 0)
    if t == 0:
        return
    # A direction parallel to the plane hits nothing unless the start is on the polygon
    flat = (e.pt(d[0] or 1, d[1], 0) - e.pt(0, 0, 0)) / e.unit
    check(not is_point_inside_projection(start, flat, p.pts, p.tri, fwd_only=s["fwd"]),
          "direction parallel to the plane, start away from it")


@st.composite
def contains_spec(draw):
    poly = draw(gen.shape())
    other = draw(gen.shape(kinds=["rect", "tri", "convex", "hist"]))
    if draw(st.integers(0, 3)) == 0:  # A triangle with corners inside
        other = [interior_point(draw, poly, 8) for _ in range(3)]
        if geo.area2(other) == 0:
            other = [(0, 0), (1, 0), (0, 1)]
        k, dx, dy = 1, 0, 0
    else:
        k = draw(st.sampled_from([1, 1, 2, 4]))
        c = interior_point(draw, poly, 8)
        dx = c[0] + draw(st.integers(-8, 8))
        dy = c[1] + draw(st.integers(-8, 8))
    return {
        "poly": [(8 * x, 8 * y) for x, y in poly],
        "other": [(x * k + dx, y * k + dy) for x, y in other],
        "emb": draw(gen.embedding(max_off=60)),
        "m": draw(st.sampled_from([None, 0.5, 1.25, 3.0])),
        "away": draw(st.booleans()),
    }


def contains(s, ctx):
    """contains_polygon() says whether the other polygon is inside, with all corners in the inline."""
    poly, other = tup(s["poly"]), tup(s["other"])
    e = Emb(s["emb"])
    a = build_polygon(gen.convex_start(poly), e)
    o2 = other[::-1] if s["away"] else other
    b = build_polygon(gen.convex_start(o2), e)
    m = s["m"]
    want = True
    for q in other:
        loc = geo.locate(q, poly)
        d = math.sqrt(float(bdist2(q, poly)))
        if loc > 0 and m is not None and abs(d - m) < 1e-6:
            ctx.label("at the margin")
            return
        want = want and loc > 0 and (m is None or d > m)
    if want and geo.overlap_area2(poly, other) != abs(geo.area2(other)):
        ctx.label("corners inside, edges not")
        want = False
    got = a.contains_polygon(b) if m is None else a.contains_polygon(b, margin=m * e.scale)
    check(got == want, "contains_polygon() is %s, expected %s", got, want)
    ctx.label("contained" if want else "not contained")
    ctx.mark(want or any(geo.locate(q, poly) > 0 for q in other))
    c = e.pt(*map(float, geo.centroid(poly)))
    # Some interior point is strictly inside
    ip = a.get_some_interior_point()
    rel = (ip - e.pt(0, 0)) / e.unit
    x = F(float(np.dot(rel, e.u))) / (e.s**2)
    y = F(float(np.dot(rel, e.v))) / (e.s**2)
    w = float(np.dot(rel, e.w)) / (e.s**2)
    check(abs(w) < 1e-6, "interior point is off the plane")
    check(geo.locate((x, y), poly) == 1 and bdist2((x, y), poly) > F(1, 10**8),
          "interior point %s is not inside (centroid %s)", (float(x), float(y)), list(c))


SUBS = [
    Sub("inside", spec, inside, 3200, 80000,
        "point on the boundary or within 1/64 of the unit from it (or over such a point)"),
    Sub("margin", margin_spec, margin, 1600, 40000, "positive margin and a point inside the polygon"),
    Sub("projection", proj_spec, projection, 2000, 40000, "the line meets the polygon"),
    Sub("contains", contains_spec, contains, 1000, 20000,
        "at least one corner of the other polygon is inside"),
]
