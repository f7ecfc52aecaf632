"""Relations between two polygons: facing, crossing, touching."""

import math

from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import are_polygons_crossing
from building3d.geom.polygon.facing import are_polygons_facing
from building3d.geom.polygon.touching import are_polygons_touching

from .. import gen, geo, solids
from ..core import Sub, check
from ..gen import Emb, tup

ASSUMPTIONS = [
    "not decided: crossing and touching of the same region given with different straight corners",
]


@st.composite
def spec(draw):
    p1 = draw(gen.shape())
    mode = draw(st.sampled_from(["same", "corner", "near", "any", "edge", "inner", "shuffle", "notch"]))
    if mode == "same":
        p2 = list(p1)
        t = (0, 0)
    elif mode == "notch":  # Corners of the second one are all corners of the first one
        i = draw(st.integers(0, len(p1) - 1))
        reflex = [k for k in range(len(p1)) if geo.corner_sign(p1, k) * geo.area2(p1) < 0]
        if reflex:
            i = reflex[i % len(reflex)]
        p2 = [p1[i - 1], p1[i], p1[(i + 1) % len(p1)]]
        if geo.area2(p2) == 0:
            p2 = list(p1)
        t = (0, 0)
    elif mode == "shuffle":  # Same shape moved a bit
        p2 = list(p1)
        t = draw(st.tuples(st.integers(-3, 3), st.integers(-3, 3)))
    else:
        kinds = draw(st.sampled_from([None, ["rect"], ["hist", "rect"], ["tri", "convex"]]))
        p2 = draw(gen.shape(kinds=kinds))
        if mode == "any":
            t = draw(st.tuples(st.integers(-9, 9), st.integers(-9, 9)))
        elif mode == "inner":
            p1 = [(x * 8, y * 8) for x, y in p1]
            tr = draw(st.sampled_from(geo.ears(p1)))
            c = [sum(q[i] for q in tr) // 3 for i in range(2)]
            t = (c[0] + draw(st.integers(-5, 5)), c[1] + draw(st.integers(-5, 5)))
        elif mode == "edge":  # A corner on the middle of an edge
            p1 = [(2 * x, 2 * y) for x, y in p1]
            i = draw(st.integers(0, len(p1) - 1))
            b = draw(st.sampled_from(p2))
            t = ((p1[i - 1][0] + p1[i][0]) // 2 - b[0], (p1[i - 1][1] + p1[i][1]) // 2 - b[1])
        else:
            a = draw(st.sampled_from(p1))
            b = draw(st.sampled_from(p2))
            t = (a[0] - b[0], a[1] - b[1])
            if mode == "near":
                t = (t[0] + draw(st.integers(-1, 1)), t[1] + draw(st.integers(-1, 1)))
    p2 = [(x + t[0], y + t[1]) for x, y in p2]
    if draw(st.booleans()):
        p2 = p2[::-1]
    return {
        "p1": gen.convex_start(p1, draw(st.integers(0, 9))),
        "p2": gen.convex_start(p2, draw(st.integers(0, 9))),
        "w": draw(st.sampled_from([0, 0, 0, 0, 0, 1, -2])),
        "emb": draw(gen.embedding(max_off=60)),
    }


def ask(a, b):
    """All three relations in both orders; they do not depend on the order."""
    out = []
    for name in ("facing", "crossing", "touching"):
        x = bool(getattr(a, f"is_{name}_polygon")(b))
        y = bool(getattr(b, f"is_{name}_polygon")(a))
        check(x == y, "%s: %s one way, %s the other way", name, x, y)
        out.append(x)
    check(out[0] == bool(are_polygons_facing(a.pts, a.vn, b.pts, b.vn)), "facing: function differs")
    check(out[1] == bool(are_polygons_crossing(a.pts, a.tri, b.pts, b.tri)), "crossing: function differs")
    check(out[2] == bool(are_polygons_touching(a.pts, a.tri, b.pts, b.tri)), "touching: function differs")
    return out


def classify(p1, p2):
    """Exact relation of two coplanar polygons."""
    n1, n2 = geo.normalize_loop(p1), geo.normalize_loop(p2)
    if n1 == n2:
        return "same"
    if geo.normalize_loop(p1[::-1]) == n2:
        return "opposite"
    pairs = [(p1[i - 1], p1[i], p2[j - 1], p2[j]) for i in range(len(p1)) for j in range(len(p2))]
    if any(geo.proper_cross(*q) for q in pairs):
        return "proper"
    ov = geo.overlap_area2(p1, p2)
    shared = any(geo.segments_intersect(*q) for q in pairs)
    if ov == 0:
        return "touching" if shared else "apart"
    if not shared:
        return "inside"
    r1, r2 = geo.drop_straight(p1), geo.drop_straight(p2)
    if geo.normalize_loop(r2) in (geo.normalize_loop(r1), geo.normalize_loop(r1[::-1])):
        return "same region"
    return "overlap"


WANT = {  # facing, crossing, touching
    "same": (False, False, False),
    "opposite": (True, False, False),
    "proper": (False, True, False),
    "overlap": (False, True, False),
    "touching": (False, False, True),
    "apart": (False, False, False),
    "inside": (False, False, False),
    "planes": (False, False, False),
}


def pairs(s, ctx):
    p1, p2 = tup(s["p1"]), tup(s["p2"])
    e = Emb(s["emb"])
    a, b = Polygon(e.pts(p1)), Polygon(e.pts(p2, w=s["w"]))
    kind = "planes" if s["w"] else classify(p1, p2)
    got = ask(a, b)
    ctx.label(kind)
    ctx.mark(kind in ("opposite", "proper", "overlap", "touching", "inside"))
    if kind == "same region":
        check(not got[0], "facing although the corners differ")
        check(not (got[1] and got[2]), "both crossing and touching")
        return
    for name, g, w in zip(("facing", "crossing", "touching"), got, WANT[kind]):
        check(g == w, "%s polygons: %s is %s, expected %s", kind, name, g, w)


@st.composite
def hinge_spec(draw):
    return {
        "a": draw(st.integers(1, 6)), "b": draw(st.integers(1, 6)),
        "x0": draw(st.integers(-5, 7)), "dx": draw(st.integers(1, 5)),
        "h": draw(st.integers(1, 5)), "lift": draw(st.sampled_from([0, 0, 0, 1])),
        "side": draw(st.integers(0, 2)), "tri": draw(st.booleans()), "lean": draw(st.sampled_from([0, 0, 1, -1, 2, -2])),
        "mid": draw(st.lists(st.integers(0, 7), max_size=3)), "start": draw(st.lists(st.integers(0, 7), min_size=2, max_size=2)),
        "rev": draw(st.integers(0, 3)), "emb": draw(gen.embedding(max_off=60)),
    }


def hinge(s, ctx):
    """Two polygons in planes at an angle: they can only touch, at an edge or at a corner."""
    e = Emb(s["emb"])
    a, b, x0, x1, h = s["a"], s["b"], s["x0"], s["x0"] + s["dx"], s["h"]
    y = (b, 0, b / 2)[s["side"]]
    base = [(0, 0, 0), (a, 0, 0), (a, b, 0), (0, b, 0)]
    lo, hi = s["lift"], s["lift"] + h
    if s["tri"]:
        wall = [(x0, y, lo), (x1, y, lo), (x1, y, hi)]
    else:
        wall = [(x0, y, lo), (x1, y, lo), (x1, y, hi), (x0, y, hi)]
    wall = [(x, y + s["lean"] * z, z) for x, y, z in wall]
    if s["rev"] & 1:
        base = base[::-1]
    if s["rev"] & 2:
        wall = wall[::-1]
    base, wall = [[tuple(int(8 * c) for c in p) for p in loop] for loop in (base, wall)]
    for i in s["mid"]:  # Corners in the middle of edges
        loop = wall if i % 2 else base
        j = i // 2 % len(loop)
        m = tuple((c + d) // 2 for c, d in zip(loop[j - 1], loop[j]))
        if m not in loop:
            loop.insert(j, m)
    base, wall = [solids.start_at_convex(loop, k) for loop, k in zip((base, wall), s["start"])]
    p, q = Polygon(e.pts(base)), Polygon(e.pts(wall))
    got = ask(p, q)
    want = s["lift"] == 0 and x0 <= a and x1 >= 0
    check(not got[0] and not got[1], "polygons at an angle reported as facing or crossing")
    if s["side"] == 2:  # Along the middle of the first one
        ctx.label("middle")
        check(want or not got[2], "polygons sharing nothing reported as touching")
        on = [(wall[i - 1][0], wall[i][0]) for i in range(len(wall)) if wall[i - 1][2] == wall[i][2] == 0]
        through = s["lift"] == 0 and any(0 < 2 * x < 16 * a for u, v in on for x in (2 * u, 2 * v, u + v))
        check(not (through and got[2]), "polygon standing on the middle of the other one reported as touching")
        ctx.mark(through)
        return
    check(got[2] == want, "polygons at an angle sharing %s: touching is %s",
          "some boundary" if want else "nothing", got[2])
    ctx.label("touching" if want else "apart")
    ctx.mark(want)


@st.composite
def same_corners_spec(draw):
    """Same corners joined in a different order (different shape, maybe the same area)."""
    pts = draw(st.lists(st.tuples(st.integers(-6, 6), st.integers(-6, 6)), min_size=5, max_size=8, unique=True))
    c1 = draw(st.tuples(st.integers(-6, 6), st.integers(-6, 6)))
    c2 = draw(st.tuples(st.integers(-6, 6), st.integers(-6, 6)))
    return {"pts": pts, "c1": c1, "c2": c2, "emb": draw(gen.embedding(max_off=20))}


def around(pts, c):
    """The points ordered by the angle around a centre (may be not a simple outline)."""
    return sorted(pts, key=lambda p: (math.atan2(p[1] - c[1] - 0.25, p[0] - c[0] - 0.125), p))


def same_corners(s, ctx):
    """Facing needs the same shape: the other one has the same corners joined in another order."""
    poly, p2 = around(tup(s["pts"]), s["c1"]), around(tup(s["pts"]), s["c2"])
    for p in (poly, p2):
        if not geo.is_simple(p) or any(geo.corner_sign(p, i) == 0 for i in range(len(p))):
            ctx.label("skipped")
            return
    if geo.normalize_loop(p2) in (geo.normalize_loop(poly), geo.normalize_loop(poly[::-1])):
        ctx.label("skipped")
        return
    ctx.label("same area" if abs(geo.area2(p2)) == abs(geo.area2(poly)) else "different area")
    if geo.area2(poly) < 0:
        poly = poly[::-1]
    if geo.area2(p2) > 0:
        p2 = p2[::-1]
    e = Emb(s["emb"])
    a = Polygon(e.pts(gen.convex_start(poly)))
    b = Polygon(e.pts(gen.convex_start(p2)))
    check(not a.is_facing_polygon(b) and not b.is_facing_polygon(a),
          "polygons of different shapes reported as facing")
    ctx.mark()


# Different outlines of the same area through the same corners
SAME_AREA = [
    ([(3, 6), (2, -5), (3, 1), (1, -6), (2, -4)], (-1, -6), (2, 2)),
    ([(-6, 2), (-5, -1), (-5, 2), (-6, -2), (2, 5), (-6, -3)], (6, 6), (-2, -3)),
    ([(5, 2), (-3, 4), (3, 3), (-4, -6), (1, 2), (-1, 4)], (2, 1), (-6, -1)),
]

SUBS = [
    Sub("pairs", spec, pairs, 3000, 80000,
        "coplanar polygons which are opposite, overlapping, touching, or one inside the other"),
    Sub("hinge", hinge_spec, hinge, 800, 20000, "perpendicular polygons sharing an edge part or corner"),
    Sub("same_corners", same_corners_spec, same_corners, 400, 20000,
        "two different simple outlines through the same corners",
        corpus=[{"pts": p, "c1": c, "c2": d, "emb": {"f": 0, "e": 0, "o": [0, 0, 0]}} for p, c, d in SAME_AREA]),
]
