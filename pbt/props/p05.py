"""Intersections of lines and segments, visibility, closest pairs."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.points import is_point_on_segment
from building3d.geom.points.find_close_pairs import find_close_pairs
from building3d.geom.points.intersections import line_intersection, line_segment_intersection
from building3d.geom.points.visibility import are_points_visible, visibility_matrix
from building3d.geom.polygon.edges import polygon_edges

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import close, row, rows

i2 = st.tuples(st.integers(-9, 9), st.integers(-9, 9))


@st.composite
def seg_spec(draw):
    a = draw(i2)
    b = draw(i2.filter(lambda q: q != a))
    mode = draw(st.sampled_from(["any", "any", "tee", "corner", "parallel", "skew", "collinear"]))
    c = draw(i2)
    d = draw(i2.filter(lambda q: q != c))
    w = 0
    if mode == "tee":  # One end on the other segment
        a, b = (2 * a[0], 2 * a[1]), (2 * b[0], 2 * b[1])
        c = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        d = draw(i2.filter(lambda q: q != c))
    elif mode == "corner":
        c = draw(st.sampled_from([a, b]))
        d = draw(i2.filter(lambda q: q != c))
    elif mode in ("parallel", "collinear"):
        k = draw(st.sampled_from([-2, -1, 1, 2]))
        if mode == "collinear":
            m = draw(st.integers(-3, 3))
            c = (a[0] + m * (b[0] - a[0]), a[1] + m * (b[1] - a[1]))
        d = (c[0] + k * (b[0] - a[0]), c[1] + k * (b[1] - a[1]))
    elif mode == "skew":
        w = draw(st.sampled_from([-3, -1, 1, 2]))
    return {"a": a, "b": b, "c": c, "d": d, "w": w, "emb": draw(gen.embedding(max_off=200)),
            "swap": draw(st.integers(0, 7))}


def is_nan(p):
    return bool(np.isnan(np.asarray(p)).any())


def segments(s, ctx):
    a, b, c, d = (tuple(s[k]) for k in "abcd")
    w = s["w"]
    e = Emb(s["emb"])
    x = geo.seg_point(a, b, c, d)  # None if parallel
    hit = x is not None and w == 0
    on = hit and geo.segments_intersect(a, b, c, d)
    A, B, C, D = e.pt(*a), e.pt(*b), e.pt(*c, w), e.pt(*d, w)
    args = [A, B, C, D]
    if s["swap"] & 1:
        args = [args[1], args[0], args[2], args[3]]
    if s["swap"] & 2:
        args = [args[0], args[1], args[3], args[2]]
    if s["swap"] & 4:
        args = [args[2], args[3], args[0], args[1]]
    p1, q1, p2, q2 = args
    got = line_intersection(p1, q1 - p1, p2, q2 - p2)
    kind = "skew" if w else "parallel" if x is None else "meet" if on else "lines meet"
    ctx.label(kind)
    ctx.mark(hit)
    if hit:
        X = e.pt(float(x[0]), float(x[1]))
        size = 1e-7 * (1 + np.abs(X).max())
        check(not is_nan(got), "lines meeting at %s reported as not meeting", list(X))
        check(close(got, X, atol=size), "lines meet at %s, reported %s", list(X), list(got))
    else:
        check(is_nan(got), "%s lines reported to meet at %s", kind, list(got))
    got = line_segment_intersection(p1, q1, p2, q2)
    if on:
        check(not is_nan(got), "segments meeting at %s reported as not meeting", list(X))
        check(close(got, X, atol=size), "segments meet at %s, reported %s", list(X), list(got))
    else:
        check(is_nan(got), "segments which do not meet (%s) reported to meet at %s", kind, list(got))


@st.composite
def on_spec(draw):
    a = draw(i2)
    b = draw(i2.filter(lambda q: q != a))
    t = draw(st.one_of(st.integers(-4, 20).map(lambda k: 8 * k), st.sampled_from([-1, 1, 127, 129])))
    n = draw(st.sampled_from([0, 0, 0, 1, -1, 8, 128]))
    w = draw(st.sampled_from([0, 0, 0, 1, -1, 8]))
    return {"a": a, "b": b, "t": t, "n": n, "w": w, "emb": draw(gen.embedding(max_off=40))}


def on_segment(s, ctx):
    a, b = s["a"], s["b"]
    e = Emb(s["emb"])
    t, n, w = s["t"] / 128, s["n"] / 128, s["w"] / 128
    dx, dy = b[0] - a[0], b[1] - a[1]
    p = e.pt(a[0] + t * dx - n * dy, a[1] + t * dy + n * dx, w)
    want = 0 <= t <= 1 and n == 0 and w == 0
    for x, y in ((e.pt(*a), e.pt(*b)), (e.pt(*b), e.pt(*a))):
        got = bool(is_point_on_segment(p, x, y))
        check(got == want, "point %s from the segment end, %s aside: on segment is %s", t, (n, w), got)
    ctx.label("on" if want else "off")
    ctx.mark(want or (n == 0 and w == 0))


@st.composite
def vis_spec(draw):
    n = draw(st.integers(2, 5))
    pts = draw(st.lists(i2, min_size=n, max_size=n, unique=True))
    groups = draw(
        st.lists(
            st.lists(st.tuples(i2, i2).filter(lambda q: q[0] != q[1]), min_size=1, max_size=4),
            min_size=1, max_size=2,
        )
    )
    # Some edges start at one of the points: those never block it
    for g in groups:
        for i in range(len(g)):
            if draw(st.integers(0, 3)) == 0:
                p = draw(st.sampled_from(pts))
                if p != g[i][1]:
                    g[i] = (p, g[i][1])
    return {"pts": pts, "groups": groups, "emb": draw(gen.embedding(max_off=100))}


def visible2d(p, q, edges):
    for a, b in edges:
        if {a, b} & {p, q}:
            continue
        if geo.seg_point(p, q, a, b) is None:
            continue  # Parallel edges do not block
        if geo.segments_intersect(p, q, a, b):
            return False
    return True


def visibility(s, ctx):
    e = Emb(s["emb"])
    pts = tup(s["pts"])
    groups = [[(tuple(a), tuple(b)) for a, b in g] for g in s["groups"]]
    edges = [ed for g in groups for ed in g]
    arrs = [np.array([[e.pt(*a), e.pt(*b)] for a, b in g]) for g in groups]
    P = e.pts(pts)
    m = visibility_matrix(P, *arrs)
    n = len(pts)
    check(m.shape == (n, n), "wrong shape of the visibility matrix")
    blocked = 0
    for i in range(n):
        for j in range(n):
            want = 1 if i == j else int(visible2d(pts[i], pts[j], edges))
            blocked += want == 0
            check(m[i, j] == want, "visibility of %s from %s is %s, expected %s",
                  pts[j], pts[i], m[i, j], want)
            if i != j:
                got = are_points_visible(P[i], P[j], *arrs)
                check(got == want, "are_points_visible(%s, %s) is %s", pts[i], pts[j], got)
    ctx.label("blocked" if blocked else "all visible")
    ctx.mark(blocked > 0 and blocked < n * (n - 1))


@st.composite
def pair_spec(draw):
    a = draw(gen.shape(kinds=["rect", "tri", "convex", "hist"]))
    b = draw(gen.shape(kinds=["rect", "tri", "convex", "hist"]))
    dx = draw(st.integers(-25, 25))
    dy = draw(st.integers(-25, 25))
    if draw(st.booleans()):  # Nearly the same distances
        k = draw(st.sampled_from([64, 1024]))
        a = [(x * k, y * k) for x, y in a]
        b = [(x * k + draw(st.integers(-2, 2)), y * k + draw(st.integers(-2, 2))) for x, y in b]
        dx, dy = dx * k, dy * k
        if not (geo.is_simple(b) and all(geo.corner_sign(b, i) for i in range(len(b)))):
            b = [(0, 0), (k, 0), (k + 1, k), (0, k + 2)]
    return {
        "a": a, "b": [(x + dx, y + dy) for x, y in b],
        "n": draw(st.integers(1, 4)), "vis": draw(st.booleans()),
        "emb": draw(gen.embedding(max_off=40)),
    }


def close_pairs(s, ctx):
    a, b = tup(s["a"]), tup(s["b"])
    e = Emb(s["emb"])
    A, B = e.pts(a), e.pts(b)
    edges = [(p[i - 1], p[i]) for p in (a, b) for i in range(len(p))]
    cand = {}
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            if s["vis"] and not visible2d(p, q, edges):
                continue
            cand[i, j] = geo.dot2(geo.sub2(p, q), geo.sub2(p, q))

    def greedy(n):
        """Any greedy choice: at each step the nearest free pair."""
        used0, used1, out = set(), set(), []
        while len(out) < n:
            free = [(d, i, j) for (i, j), d in cand.items() if i not in used0 and j not in used1]
            if not free:
                return None
            d, i, j = min(free)
            used0.add(i)
            used1.add(j)
            out.append(d)
        return out

    want = greedy(s["n"])
    try:
        got = find_close_pairs(A, B, s["n"], s["vis"])
    except ValueError:
        ties = len(set(cand.values())) < len(cand)
        check(want is None or ties, "pairs not found, although they exist")
        ctx.label("too many requested")
        return
    check(got.shape == (s["n"], 2, 3), "wrong shape %s", got.shape)
    ra, rb = rows(A), rows(B)
    used0, used1 = set(), set()
    last = -1
    for p, q in got:
        check(row(p) in ra and row(q) in rb, "returned point is not a corner")
        i, j = ra.index(row(p)), rb.index(row(q))
        check(i not in used0 and j not in used1, "a corner is used in two pairs")
        check((i, j) in cand, "pair of corners which do not see each other")
        free = min(d for (k, m), d in cand.items() if k not in used0 and m not in used1)
        check(cand[i, j] == free, "the pair is not the closest of the remaining ones")
        check(cand[i, j] >= last, "pairs are not sorted by distance")
        last = cand[i, j]
        used0.add(i)
        used1.add(j)
    ctx.label("visible only" if s["vis"] else "all")
    ctx.mark(s["n"] > 1 and len(cand) < len(a) * len(b))


SUBS = [
    Sub("segments", seg_spec, segments, 4000, 100000, "coplanar lines which are not parallel"),
    Sub("on_segment", on_spec, on_segment, 2000, 40000, "point on the line of the segment"),
    Sub("visibility", vis_spec, visibility, 1200, 30000, "some pairs see each other and some do not"),
    Sub("close_pairs", pair_spec, close_pairs, 600, 20000,
        "more than one pair requested and some pairs do not see each other"),
]
