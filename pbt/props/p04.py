"""Distances from a point to an edge and to a polygon."""

import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.points.distance import distance_point_to_edge
from building3d.geom.polygon.distance import distance_point_to_polygon

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import build_polygon, close
from .p03 import interior_point

i3 = st.tuples(*[st.integers(-20, 20)] * 3)


@st.composite
def edge_spec(draw):
    a = draw(i3)
    b = draw(i3.filter(lambda q: q != a))
    mode = draw(st.sampled_from(["any", "on", "line", "foot"]))
    if mode == "any":
        p = draw(i3)
        den = 1
    else:
        den = 8
        t = draw(st.integers(-8, 16))
        if mode == "on":
            t = max(0, min(8, t))
        p = [a[i] * 8 + (b[i] - a[i]) * t for i in range(3)]
        if mode == "foot":
            p = [p[i] + draw(st.integers(-16, 16)) for i in range(3)]
    return {"a": a, "b": b, "p": list(p), "den": den, "emb": draw(gen.embedding(max_off=400))}


def edge(s, ctx):
    e = Emb(s["emb"])
    a, b = s["a"], s["b"]
    p = [F(c, s["den"]) for c in s["p"]]
    want = math.sqrt(float(geo.dist2_point_segment(p, a, b))) * e.scale
    A, B, P = e.pt(*a), e.pt(*b), e.pt(*[float(c) for c in p])
    for x, y in ((A, B), (B, A)):
        got = float(distance_point_to_edge(P, x, y))
        check(close(got, want, rtol=1e-7, atol=1e-7), "distance to the edge is %r, expected %r", got, want)
    ab = [q - r for q, r in zip(b, a)]
    t = sum(x * (y - z) for x, y, z in zip(ab, p, a))
    n = sum(x * x for x in ab)
    ctx.label("before" if t < 0 else "after" if t > n else "beside")
    ctx.mark(want > 0)


@st.composite
def poly_spec(draw):
    poly = draw(gen.shape(straight=draw(st.integers(0, 5)) == 0))
    poly = gen.convex_start(poly[::-1] if draw(st.booleans()) else poly, draw(st.integers(0, 9)))
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    mode = draw(st.sampled_from(["near", "near", "interior", "corner", "far"]))
    if mode == "interior":
        q = interior_point(draw, poly, 8)
    elif mode == "corner":
        c = draw(st.sampled_from(poly))
        q = (8 * c[0] + draw(st.integers(-1, 1)), 8 * c[1] + draw(st.integers(-1, 1)))
    else:
        m = 6 if mode == "near" else 40
        q = (draw(st.integers(8 * (min(xs) - m), 8 * (max(xs) + m))),
             draw(st.integers(8 * (min(ys) - m), 8 * (max(ys) + m))))
    return {
        "poly": poly,
        "q": q,
        "w": draw(st.sampled_from([0, 0, 1, -1, 5, -13, 40, -200])),
        "emb": draw(gen.embedding(max_off=100)),
    }


def polygon(s, ctx):
    poly = tup(s["poly"])
    e = Emb(s["emb"])
    p = build_polygon(poly, e)
    q = (F(s["q"][0], 8), F(s["q"][1], 8))
    w = F(s["w"], 8)
    loc = geo.locate(q, poly)
    d2 = F(0)
    if loc < 0:
        d2 = min(geo.dist2_point_segment(q, poly[i - 1], poly[i]) for i in range(len(poly)))
    want = math.sqrt(float(d2 + w * w)) * e.scale
    pt = e.pt(float(q[0]), float(q[1]), float(w))
    got = distance_point_to_polygon(pt, p.pts, p.tri, p.vn)
    check(close(got, want, rtol=1e-7, atol=1e-7), "distance to the polygon is %r, expected %r", got, want)
    # Scaling, translation and mirroring through the plane do not matter
    back = e.pt(float(q[0]), float(q[1]), -float(w))
    got2 = distance_point_to_polygon(back, p.pts, p.tri, p.vn)
    check(close(got2, want, rtol=1e-7, atol=1e-7), "distance depends on the side: %r vs %r", got2, want)
    f = p.flip()
    got3 = distance_point_to_polygon(pt, f.pts, f.tri, f.vn)
    check(close(got3, want, rtol=1e-7, atol=1e-7), "distance changes after flip(): %r vs %r", got3, want)
    ctx.label(("over" if loc >= 0 else "beside") + (" on plane" if w == 0 else ""))
    ctx.mark(loc < 0 or w != 0)
    check(np.isscalar(got) or np.ndim(got) == 0, "distance is not a scalar")


SUBS = [
    Sub("edge", edge_spec, edge, 4000, 100000, "the point is not on the edge"),
    Sub("polygon", poly_spec, polygon, 2000, 50000, "the point is not on the polygon"),
]
