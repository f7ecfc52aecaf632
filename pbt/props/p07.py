"""Slicing a polygon along a polygonal chain."""

from fractions import Fraction as F

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from building3d.geom.exceptions import GeometryError
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.slice import slice_polygon

from .. import gen, geo
from ..core import Sub, check, fail
from ..gen import Emb, tup
from ..lib import close, poly_state_ok, rows

K = 4  # Grid refinement


def seg_inside(a, b, poly):
    """True if the open segment lies strictly inside the polygon."""
    for i in range(len(poly)):
        c, d = poly[i - 1], poly[i]
        if geo.proper_cross(a, b, c, d):
            return False
        if c != a and c != b and geo.on_segment(c, a, b):
            return False
    return geo.locate((F(a[0] + b[0], 2), F(a[1] + b[1], 2)), poly) == 1


def boundary_points(poly):
    out = list(poly)
    for i in range(len(poly)):
        a, b = poly[i - 1], poly[i]
        for t in (1, 2, 3):
            out.append(((a[0] * t + b[0] * (K - t)) // K, (a[1] * t + b[1] * (K - t)) // K))
    return out


def expected(poly, chain):
    """The two loops the chain cuts the polygon into."""
    n = len(poly)
    loop = []
    start, end = chain[0], chain[-1]
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        loop.append(a)
        ins = [q for q in (start, end) if q not in (a, b) and geo.on_segment(q, a, b)]
        ins.sort(key=lambda q: (q[0] - a[0]) ** 2 + (q[1] - a[1]) ** 2)
        loop += ins
    ia, ib, m = loop.index(start), loop.index(end), len(loop)
    p1 = [loop[(ia + t) % m] for t in range((ib - ia) % m + 1)] + chain[1:-1][::-1]
    p2 = [loop[(ib + t) % m] for t in range((ia - ib) % m + 1)] + chain[1:-1]
    return p1, p2


@st.composite
def zigzag(draw):
    """A rectangle and a long chain across it."""
    n, h = draw(st.integers(4, 24)), K * draw(st.integers(1, 4))
    w = K * (n + 1)
    ys = draw(st.lists(st.integers(1, h - 1), min_size=n + 2, max_size=n + 2))
    chain = [(K * i, y) for i, y in enumerate(ys)]
    for a, b, c in zip(chain, chain[1:], chain[2:]):
        assume(geo.orient(a, b, c) != 0)
    poly = [(0, 0), (w, 0), (w, h), (0, h)]
    if draw(st.booleans()):
        poly, chain = [[(y, x) for x, y in pts] for pts in (poly, chain)]
    return gen.convex_start(poly, draw(st.integers(0, 3))), chain


@st.composite
def chain_spec(draw, max_inner=3):
    if draw(st.integers(0, 19)) == 7:
        poly, chain = draw(zigzag())
        return finish(draw, poly, chain[::-1] if draw(st.booleans()) else chain)
    poly = [(K * x, K * y) for x, y in draw(gen.shape(skew=draw(st.booleans())))]
    if draw(st.booleans()):
        poly = poly[::-1]
    poly = gen.convex_start(poly, draw(st.integers(0, 9)))
    bnd = boundary_points(poly)
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    chain = [draw(st.sampled_from(bnd))]
    for _ in range(draw(st.integers(0, max_inner))):
        inner = [
            q for q in ((x, y) for x in range(min(xs), max(xs) + 1, 2) for y in range(min(ys), max(ys) + 1, 2))
            if q not in chain and geo.locate(q, poly) == 1 and seg_inside(chain[-1], q, poly)
        ]
        assume(inner)
        chain.append(draw(st.sampled_from(inner)))
    ends = [q for q in bnd if q not in chain and seg_inside(chain[-1], q, poly)]
    assume(ends)
    chain.append(draw(st.sampled_from(ends)))
    for i in range(len(chain) - 1):
        for j in range(i + 1, len(chain) - 1):
            if j == i + 1:
                assume(geo.orient(chain[i], chain[i + 1], chain[j + 1]) != 0)
            else:
                assume(not geo.segments_intersect(chain[i], chain[i + 1], chain[j], chain[j + 1]))
    return finish(draw, poly, chain)


def finish(draw, poly, chain):
    return {
        "poly": poly, "chain": chain,
        "names": draw(st.sampled_from(["none", "both", "both swapped", "first", "second", "stray", "stray second", "stray one", "stray other"])),
        "ears": draw(st.tuples(st.integers(0, 50), st.integers(0, 50))),
        "emb": draw(gen.embedding(axis_only=draw(st.booleans()), max_off=20)),
    }


def emb4(spec):
    e = Emb(spec)
    e.unit /= K
    e.scale /= K
    return e


def inner_point(loop, k):
    """Some point strictly inside a loop."""
    if geo.area2(loop) < 0:
        loop = loop[::-1]
    tris = [t for t in geo.ears(loop) if geo.orient(*t) != 0]
    t = tris[k % len(tris)]
    return (F(t[0][0] + t[1][0] + t[2][0], 3), F(t[0][1] + t[1][1] + t[2][1], 3))


def describe(poly, chain):
    ends = "-".join(sorted("corner" if q in poly else "edge" for q in (chain[0], chain[-1])))
    n = len(poly)
    if any(geo.on_segment(chain[0], poly[i - 1], poly[i]) and geo.on_segment(chain[-1], poly[i - 1], poly[i]) for i in range(n)):
        ends += " of the same edge"
    return ends


def loop_of(e, pts):
    """Rounded corners without the straight ones, in a canonical rotation."""
    return geo.normalize_loop(rows(e.pts(geo.drop_straight(pts))))


def lib_loop(p):
    """Corners of a polygon of the library without straight ones, canonical rotation."""
    r = [np.asarray(q, dtype=float) for q in p.pts]
    n = len(r)
    keep = []
    for i in range(n):
        a, b, c = r[i - 1], r[i], r[(i + 1) % n]
        if np.linalg.norm(np.cross(b - a, c - b)) > 1e-9:
            keep.append(b)
    return geo.normalize_loop(rows(keep))


def pieces_ok(e, parent, got, loops):
    """The pieces are the expected loops; same normal as the parent; areas add up."""
    want = [loop_of(e, q) for q in loops]
    have = [lib_loop(p) for p in got]
    check(sorted(have) == sorted(want), "pieces %s, expected %s", have, want)
    for p in got:
        poly_state_ok(p, "piece")
        check(close(p.vn, parent.vn, atol=1e-9), "piece's normal differs from the parent's")
    check(close(sum(p.area for p in got), parent.area, rtol=1e-9), "areas of the pieces do not add up")
    return [have.index(w) for w in want]


def chain(s, ctx):
    poly, ch = tup(s["poly"]), tup(s["chain"])
    e = emb4(s["emb"])
    p = Polygon(e.pts(poly), name="parent")
    before = rows(p.pts)
    loops = expected(poly, ch)
    kw = {}
    mode = s["names"]
    q = [e.pt(*inner_point(lp, k)) for lp, k in zip(loops, s["ears"])]
    if mode == "both":
        kw = {"pt1": q[0], "name1": "A", "pt2": q[1], "name2": "B"}
    elif mode == "both swapped":
        kw = {"pt1": q[1], "name1": "B", "pt2": q[0], "name2": "A"}
    elif mode == "first":
        kw = {"pt1": q[0], "name1": "A", "name2": "B"}
    elif mode == "second":
        kw = {"pt2": q[1], "name1": "A", "name2": "B"}
    elif mode.startswith("stray"):  # A point telling the pieces apart is in none of them
        far = e.pt(max(x for x, _ in poly) + 1, poly[0][1])
        given = {"stray": {"pt1": far}, "stray second": {"pt2": far}, "stray one": {"pt1": far, "pt2": q[s["ears"][0] % 2]},
                 "stray other": {"pt1": q[s["ears"][1] % 2], "pt2": far}}[mode]
        try:
            slice_polygon(p, e.pts(ch), name1="A", name2="B", **given)
        except GeometryError:
            pass
        else:
            fail("name given for a point outside of both pieces was accepted")
        check(rows(p.pts) == before and p.name == "parent", "polygon was modified")
        ctx.label("names stray")
        return
    got = slice_polygon(p, e.pts(ch), **kw)
    order = pieces_ok(e, p, got, loops)
    names = [got[i].name for i in order]
    if mode == "none":
        check(names[0] != names[1], "both pieces have the same name")
    else:
        check(names == ["A", "B"], "names %s assigned to the wrong pieces (%s)", names, mode)
        want = ["B", "A"] if mode == "both swapped" else ["A", "B"]
        check([g.name for g in got] == want, "pieces are not returned in the order of the names")
    check(rows(p.pts) == before and p.name == "parent", "sliced polygon was modified")
    ctx.label(describe(poly, ch), f"names {mode}")
    ctx.mark(len(ch) > 2 or any(geo.corner_sign(poly, i) * geo.area2(poly) < 0 for i in range(len(poly))))


def around(poly, q, chain):
    """Next corners along the boundary from a point of it, not touching the rest of the chain."""
    n = len(poly)
    out = []
    for i in range(n):
        a, b = poly[i - 1], poly[i]
        if geo.on_segment(q, a, b):
            out += [c for c in (a, b) if c != q and not any(p != q and geo.on_segment(p, q, c) for p in chain)]
    return out


@st.composite
def along_spec(draw):
    s = draw(chain_spec())
    if draw(st.integers(0, 2)) == 0:  # Often a rectangle with no inner points
        a, b = [K * draw(st.integers(1, 9)) for _ in range(2)]
        s["poly"] = [(0, 0), (a, 0), (a, b), (0, b)]
        s["chain"] = [(a * draw(st.integers(1, 3)) // 4, 0), (a * draw(st.integers(1, 3)) // 4, b)]
    poly, full = tup(s["poly"]), tup(s["chain"])
    s["before"], s["after"] = [], []
    for _ in range(draw(st.integers(0, 2))):
        c = around(poly, full[0], full)
        if c:
            full.insert(0, draw(st.sampled_from(c)))
            s["before"].insert(0, full[0])
    for _ in range(draw(st.integers(0 if s["before"] else 1, 2))):
        c = around(poly, full[-1], full)
        if c:
            full.append(draw(st.sampled_from(c)))
            s["after"].append(full[-1])
    return s


def along(s, ctx):
    """Parts of the chain along the boundary do not matter, but chains without inner points may be refused."""
    poly, ch = tup(s["poly"]), tup(s["chain"])
    e = emb4(s["emb"])
    p = Polygon(e.pts(poly), name="parent")
    before = rows(p.pts)
    full = tup(s["before"]) + ch + tup(s["after"])
    convex = all(geo.corner_sign(poly, i) * geo.area2(poly) > 0 for i in range(len(poly)))
    sure = len(ch) > 2 or convex and max(len(s["before"]), len(s["after"])) < 2 and not any(q in poly for q in ch)
    try:
        got = slice_polygon(p, e.pts(full))
    except (NotImplementedError, GeometryError, AssertionError):
        check(not sure, "chain cutting the polygon was refused")
        ctx.label("refused")
    else:
        pieces_ok(e, p, got, expected(poly, ch))
        ctx.label("inner points" if len(ch) > 2 else "no inner points")
        ctx.mark(full != ch)
    check(rows(p.pts) == before and p.name == "parent", "sliced polygon was modified")


@st.composite
def reject_spec(draw):
    poly = [(K * x, K * y) for x, y in draw(gen.shape())]
    poly = gen.convex_start(poly, draw(st.integers(0, 9)))
    mode = draw(st.sampled_from(["outside", "edge", "plane", "touch"]))
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    i = draw(st.integers(0, len(poly) - 1))
    a, b = poly[i - 1], poly[i]
    if mode == "edge":  # Along one edge
        mid = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        ch = draw(st.sampled_from([[a, b], [a, mid], [mid, b], [a, mid, b]]))
    elif mode == "touch":  # From the outside to a single corner on the hull
        hull = geo.convex_hull(poly)
        top = max(hull, key=lambda q: (q[1], q[0]))
        ch = [(top[0] + draw(st.integers(-5, 5)), top[1] + draw(st.integers(1, 5))), top]
    else:
        dx, dy = draw(st.tuples(st.integers(1, 5), st.integers(0, 5)))
        x0 = max(xs) + dx
        ch = [(x0, min(ys) - dy), (x0 + draw(st.integers(0, 4)), max(ys) + dy)]
    return {"poly": poly, "chain": ch, "mode": mode, "w": draw(st.integers(1, 3)),
            "emb": draw(gen.embedding(max_off=20))}


def reject(s, ctx):
    """Chains which do not cut the polygon are refused, the polygon stays as it was."""
    poly, ch = tup(s["poly"]), tup(s["chain"])
    e = emb4(s["emb"])
    p = Polygon(e.pts(poly), name="parent")
    before = (rows(p.pts), p.tri.tolist(), p.name)
    want = (AssertionError, GeometryError, ValueError)
    if s["mode"] == "plane":
        pts = e.pts([(x, y, s["w"]) for x, y in ch])
    else:
        pts = e.pts(ch)
    try:
        got = slice_polygon(p, pts)
    except want:
        pass
    else:
        fail("chain not cutting the polygon (%s) gave pieces with areas %s", s["mode"], [g.area for g in got])
    check((rows(p.pts), p.tri.tolist(), p.name) == before, "polygon was modified")
    ctx.label(s["mode"])
    ctx.mark()


@st.composite
def line_spec(draw):
    """A cut through a convex polygon between two points which may be outside of it."""
    poly = [(K * x, K * y) for x, y in draw(gen.convex())]
    poly = gen.convex_start(poly, draw(st.integers(0, 9)))
    bnd = boundary_points(poly)
    a = draw(st.sampled_from(bnd))
    chain = [a]
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        inner = [q for q in ((x, y) for x in range(min(xs), max(xs) + 1, 2) for y in range(min(ys), max(ys) + 1, 2))
                 if q not in chain and geo.locate(q, poly) == 1]
        assume(inner)
        chain.append(draw(st.sampled_from(inner)))
    ends = [q for q in bnd if q not in chain and seg_inside(chain[-1], q, poly)]
    assume(ends)
    chain.append(draw(st.sampled_from(ends)))
    ka, kb = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    # Cuts entering the polygon from the outside exactly through a corner are refused
    ka, kb = (0 if chain[0] in poly else ka), (0 if chain[-1] in poly else kb)
    full = stretched(chain, ka, kb)
    for i in range(len(full) - 1):
        for j in range(i + 1, len(full) - 1):
            if j == i + 1:
                assume(geo.orient(full[i], full[i + 1], full[j + 1]) != 0)
            else:
                assume(not geo.segments_intersect(full[i], full[i + 1], full[j], full[j + 1]))
    return {"poly": poly, "chain": chain, "ka": ka, "kb": kb,
            "emb": draw(gen.embedding(axis_only=draw(st.booleans()), max_off=20))}


def stretched(chain, ka, kb):
    """The chain with its first and last segment made longer."""
    (a, a1), (b1, b) = chain[:2], chain[-2:]
    a = (a[0] - ka * (a1[0] - a[0]), a[1] - ka * (a1[1] - a[1]))
    b = (b[0] + kb * (b[0] - b1[0]), b[1] + kb * (b[1] - b1[1]))
    return [a] + chain[1:-1] + [b]


def line(s, ctx):
    poly, ch = tup(s["poly"]), tup(s["chain"])
    a, b = ch[0], ch[-1]
    e = emb4(s["emb"])
    pts = stretched(ch, s["ka"], s["kb"])
    p = Polygon(e.pts(poly))
    got = slice_polygon(p, e.pts(pts))
    pieces_ok(e, p, got, expected(poly, ch))
    ctx.label(f"{describe(poly, [a, b])}, {(s['ka'] > 0) + (s['kb'] > 0)} ends outside")
    ctx.mark(s["ka"] > 0 or s["kb"] > 0)


SUBS = [
    Sub("chain", chain_spec, chain, 1500, 40000,
        "chain with inner points, or polygon with a reflex corner"),
    Sub("line", line_spec, line, 400, 10000, "cut starting or ending outside of the polygon"),
    Sub("along", along_spec, along, 400, 10000, "sliced along a chain which starts or ends along the boundary"),
    Sub("reject", reject_spec, reject, 500, 10000, "chain which does not cut the polygon"),
]
