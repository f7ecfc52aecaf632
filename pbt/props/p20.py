"""Voxel grid used to find polygons near a ray."""

import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import (
    is_line_segment_crossing_polygon,
    is_polygon_crossing_cube,
)
from building3d.sim.rays.find_nearby_polygons import find_nearby_polygons
from building3d.sim.rays.voxel_grid import make_voxel_grid

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup


@st.composite
def grid_spec(draw):
    n = draw(st.integers(1, 3))
    polys = [{"p": gen.convex_start(draw(gen.shape())), "emb": {**draw(gen.embedding(axis_only=draw(st.booleans()))), "e": 1, "o": draw(st.tuples(*[st.integers(-12, 12)] * 3))}} for _ in range(n)]
    return {"polys": polys, "cells": draw(st.integers(1, 6)), "step": draw(st.sampled_from(["dyadic", "dyadic", "decimal"])),
            "w": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 99), *[st.integers(0, 8)] * 2), min_size=4, max_size=12)),
            "wide": draw(st.booleans())}


def grid(s, ctx):
    polys = [Polygon(Emb(q["emb"]).pts(tup(q["p"]))) for q in s["polys"]]
    pts = [p.pts for p in polys]
    allp = np.vstack(pts)
    lo, hi = allp.min(axis=0), allp.max(axis=0)
    if s["wide"]:
        lo, hi = lo - 1.0, hi + 1.0
    size = float(max(hi - lo))
    step = max(size / s["cells"], 0.25)
    if s["step"] == "dyadic":
        step = 2.0 ** math.ceil(math.log2(step))
    else:
        step = math.ceil(step * 10) / 10
    g = make_voxel_grid(tuple(lo), tuple(hi), pts, step=step, verbose=False)
    exact = s["step"] == "dyadic"
    cells = {tuple(int(c) for c in k): [int(x) for x in v] for k, v in g.items()}
    for k, v in cells.items():
        check(len(set(v)) == len(v) and all(0 <= x < len(pts) for x in v), "cell %s lists %s", k, v)
        # Only polygons whose box reaches the cell
        for x in v:
            a, b = pts[x].min(axis=0), pts[x].max(axis=0)
            ok = all(b[i] >= k[i] * step - 1e-6 and a[i] <= (k[i] + 1) * step + 1e-6 for i in range(3))
            check(ok, "polygon %s is in the cell %s far from it", x, k)
    # Each point of the whole space belongs to a cell
    for i in range(5):
        for j in range(5):
            for m in range(5):
                p = lo + (hi - lo) * np.array([i, j, m]) / 4
                k = tuple(int(math.floor(c / step)) for c in p)
                check(k in cells, "cell %s of the point %s does not exist", k, p)
    # Each point of a polygon is in a cell with the polygon, and polygons nearby are found
    for n, t, a, b in s["w"]:
        n %= len(polys)
        tr = polys[n].tri[t % len(polys[n].tri)]
        c = 8 - a if a + b > 8 else 8 - a - b
        bb = 8 - a - c
        p = (a * pts[n][tr[0]] + bb * pts[n][tr[1]] + c * pts[n][tr[2]]) / 8
        k = tuple(int(math.floor(x / step)) for x in p)
        if exact:
            check(k in cells and n in cells[k], "polygon %s is not in the cell %s of its point %s", n, k, p)
        near = {int(x) for x in find_nearby_polygons(*k, g)}
        check(n in near, "polygon %s is not found near its point %s", n, p)
        for d in (-1, 1):  # One cell away
            for ax in range(3):
                k2 = tuple(k[i] + (d if i == ax else 0) for i in range(3))
                got = {int(x) for x in find_nearby_polygons(*k2, g)}
                want = set()
                for x in range(-1, 2):
                    for y in range(-1, 2):
                        for z in range(-1, 2):
                            want |= set(cells.get((k2[0] + x, k2[1] + y, k2[2] + z), []))
                check(got == want, "polygons near the cell %s are %s, expected %s", k2, got, want)
                check(n in got or not exact, "polygon %s is not found from a neighbouring cell", n)
    # Something far away is not near
    far = {int(x) for x in find_nearby_polygons(10**6, 10**6, 10**6, g)}
    check(far == set(), "polygons %s found far away", far)
    ctx.label(f"{min(len(cells), 300) // 100}00+ cells")
    ctx.mark(len(cells) > 20)


# --------------------------------------------------------------------------
def clip(poly, ax, level, sign):
    """Part of a convex 3D loop with sign * (x - level) >= 0 (exact)."""
    out = []
    for i in range(len(poly)):
        a, b = poly[i - 1], poly[i]
        da, db = sign * (a[ax] - level), sign * (b[ax] - level)
        if (da < 0) != (db < 0):
            t = F(da) / F(da - db)
            out.append(tuple(a[k] + t * (b[k] - a[k]) for k in range(3)))
        if db >= 0:
            out.append(b)
    return out


def meets(tri3, lo, hi):
    """True if a triangle meets the closed box (exact)."""
    p = [tuple(F(c) for c in v) for v in tri3]
    for ax in range(3):
        p = clip(p, ax, lo[ax], 1) if p else p
        p = clip(p, ax, hi[ax], -1) if p else p
    return bool(p)


@st.composite
def cube_spec(draw):
    emb = {**draw(gen.embedding(axis_only=draw(st.integers(0, 3)) == 0)), "e": 0, "o": [0, 0, 0]}
    c = st.integers(-7, 7)
    return {"p": gen.convex_start(draw(gen.shape(kinds=["rect", "tri", "convex", "hist"]))), "emb": emb,
            "lo": draw(st.tuples(c, c, c)), "d": draw(st.tuples(*[st.integers(1, 6)] * 3)), "near": draw(st.integers(0, 9)),
            "pull": draw(st.integers(0, 2)), "slim": draw(st.integers(0, 2)) == 0}


def cube(s, ctx):
    e = Emb(s["emb"])
    p = tup(s["p"])
    if s["slim"]:  # Long and narrow
        p = gen.convex_start([(12 * x + y, y) for x, y in p], s["near"])
    poly = Polygon(e.pts(p))
    lo = [F(c) / 4 for c in s["lo"]]
    d = [F(c, 2) for c in s["d"]]
    if s["pull"]:  # Put the cube close to some corner of the polygon, or to the middle of an edge
        q = poly.pts[s["near"] % len(p)]
        if s["pull"] == 2:
            q = (q + poly.pts[s["near"] % len(p) - 1]) / 2
        lo = [F(float(q[k])) - F(d[k], 2) + lo[k] for k in range(3)]
    hi = [a + b for a, b in zip(lo, d)]
    tris = [[tuple(F(float(c)) for c in poly.pts[i]) for i in t] for t in poly.tri]
    m = F(1, 128)
    sure = any(meets(t, [c + m for c in lo], [c - m for c in hi]) for t in tris)
    maybe = any(meets(t, [c - m for c in lo], [c + m for c in hi]) for t in tris)
    if sure != maybe:
        ctx.label("close call")
        return
    got = bool(is_polygon_crossing_cube(poly.pts, poly.tri, tuple(map(float, lo)), tuple(map(float, hi))))
    check(got == sure, "polygon %s the cube, reported %s", "meets" if sure else "misses", got)
    box = [(min(float(v[k]) for t in tris for v in t), max(float(v[k]) for t in tris for v in t)) for k in range(3)]
    boxes = all(box[k][0] <= hi[k] and box[k][1] >= lo[k] for k in range(3))
    corner = any(all(lo[k] <= v[k] <= hi[k] for k in range(3)) for t in tris for v in t)
    ctx.label("crossing, no corner inside" if sure and not corner else "corner inside" if sure else "boxes meet" if boxes else "apart")
    ctx.mark(boxes)


@st.composite
def segment_spec(draw):
    c = st.integers(-24, 24)
    return {"p": gen.convex_start(draw(gen.shape())), "emb": draw(gen.embedding(max_off=40)),
            "q": draw(st.tuples(st.integers(-60, 60), st.integers(-60, 60))), "k": draw(st.integers(0, 30)),
            "a": draw(st.integers(-8, 8)), "b": draw(st.integers(-8, 8)),
            "d": draw(st.tuples(st.integers(-6, 6), st.integers(-6, 6))), "w": [draw(c), draw(c)]}


def segment(s, ctx):
    """The segment goes through the point q of the plane, or stops before it, or is parallel to the plane."""
    p = [(8 * x, 8 * y) for x, y in tup(s["p"])]
    c = p[s["k"] % len(p)]
    if s["k"] % 2:  # Somewhere in a triangle
        ears = geo.ears(p if geo.area2(p) > 0 else p[::-1])
        t = ears[s["k"] % len(ears)]
        x, y = s["q"][0] % 7, s["q"][1] % 7
        x, y = (x, y) if x + y <= 8 else (8 - x, 8 - y)
        q = tuple((x * t[0][i] + y * t[1][i] + (8 - x - y) * t[2][i]) // 8 for i in range(2))
    else:
        q = (c[0] + s["q"][0] // 2, c[1] + s["q"][1] // 2) if s["k"] % 3 else tuple(s["q"])
    e = Emb(s["emb"])
    poly = Polygon(e.pts(p))
    loc = geo.locate(q, p)
    if loc == 0 or min(geo.dist2_point_segment(q, p[i - 1], p[i]) for i in range(len(p))) < F(1, 4):
        ctx.label("boundary")
        return
    a, b, (dx, dy) = s["a"], s["b"], s["d"]
    if a == b:  # Parallel
        u, v = e.pt(q[0], q[1], a), e.pt(q[0] + 8 * (dx or 1), q[1] + dy, a)
        check(a == 0 or not is_line_segment_crossing_polygon(u, v, poly.pts, poly.tri), "parallel segment crosses")
        ctx.label("parallel")
        return
    if a == 0 or b == 0:
        return
    u = e.pt(q[0] + a * dx, q[1] + a * dy, a)
    v = e.pt(q[0] + b * dx, q[1] + b * dy, b)
    want = loc > 0 and a * b < 0
    for x, y in ((u, v), (v, u)):
        got = bool(is_line_segment_crossing_polygon(x, y, poly.pts, poly.tri))
        check(got == want, "segment %s, reported %s", "crosses" if want else "does not cross", got)
    ctx.label("crosses" if want else "misses" if a * b < 0 else "stops before")
    ctx.mark(loc > 0)


SUBS = [
    Sub("grid", grid_spec, grid, 320, 4000, "more than twenty cells"),
    Sub("cube", cube_spec, cube, 1600, 30000, "boxes of the polygon and the cube meet"),
    Sub("segment", segment_spec, segment, 2000, 40000, "the line goes through the polygon"),
]
