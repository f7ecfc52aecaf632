"""Solid constructors: box and floor plan."""

import math

import numpy as np
from hypothesis import strategies as st

from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan

from .. import gen, geo
from ..core import Sub, check, fail
from ..gen import tup
from ..lib import close, loop_normal, poly_state_ok


def near_loop(a, b, tol):
    """Two loops are the same up to the starting corner, within a tolerance."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return any(np.abs(np.roll(a, k, axis=0) - b).max() <= tol for k in range(len(a)))


def closed(sld, tol, what):
    """Every edge of the boundary is used once in each direction."""
    edges = {}
    reps = []

    def find(p):
        for i, q in enumerate(reps):
            if np.abs(q - p).max() <= tol:
                return i
        reps.append(np.asarray(p))
        return len(reps) - 1

    for w in sld.children.values():
        for p in w.children.values():
            ids = [find(q) for q in p.pts]
            for i in range(len(ids)):
                e = (ids[i - 1], ids[i])
                edges[e] = edges.get(e, 0) + 1
    for (a, b), n in edges.items():
        check(n == 1 and edges.get((b, a)) == 1, "%s: boundary is not closed or not consistently oriented", what)


def dec():
    """Decimal numbers like the ones people write."""
    return st.one_of(
        st.integers(1, 12).map(float),
        st.integers(1, 400).map(lambda k: k / 10),
        st.integers(5, 4000).map(lambda k: k / 100),
    )


def move():
    return st.one_of(
        st.just(0.0), st.integers(-50, 50).map(float), st.integers(-5000, 5000).map(lambda k: k / 100)
    )


def box_spec():
    return st.fixed_dictionaries({
        "size": st.tuples(dec(), dec(), dec()),
        "move": st.one_of(st.none(), st.tuples(move(), move(), move())),
        "name": st.one_of(st.none(), st.sampled_from(["a", "room 1", "x_y-z"])),
    })


def mkbox(s, ctx):
    sx, sy, sz = s["size"]
    kw = {} if s["move"] is None else {"move": tuple(s["move"])}
    if s["name"] is not None:
        kw["name"] = s["name"]
    b = box(sx, sy, sz, **kw)
    lo = np.array(s["move"] or (0.0, 0.0, 0.0), dtype=float)
    hi = lo + np.array([sx, sy, sz])
    tol = 1e-12 * (1 + float(np.abs([lo, hi]).max()))
    check(s["name"] is None or b.name == s["name"], "name is %s", b.name)
    got = b.bbox()
    check(close(got[0], lo, atol=tol) and close(got[1], hi, atol=tol), "bbox is %s", got)

    def c(i, j, k):
        return [(lo, hi)[i][0], (lo, hi)[j][1], (lo, hi)[k][2]]

    want = {
        "floor/floor": ([c(0, 0, 0), c(0, 1, 0), c(1, 1, 0), c(1, 0, 0)], (0, 0, -1)),
        "ceiling/ceiling": ([c(0, 0, 1), c(1, 0, 1), c(1, 1, 1), c(0, 1, 1)], (0, 0, 1)),
        "wall_0/poly_0": ([c(0, 0, 0), c(1, 0, 0), c(1, 0, 1), c(0, 0, 1)], (0, -1, 0)),
        "wall_1/poly_1": ([c(1, 0, 0), c(1, 1, 0), c(1, 1, 1), c(1, 0, 1)], (1, 0, 0)),
        "wall_2/poly_2": ([c(0, 1, 0), c(0, 1, 1), c(1, 1, 1), c(1, 1, 0)], (0, 1, 0)),
        "wall_3/poly_3": ([c(0, 0, 0), c(0, 0, 1), c(0, 1, 1), c(0, 1, 0)], (-1, 0, 0)),
    }
    have = {f"{w.name}/{p.name}": p for w in b.children.values() for p in w.children.values()}
    check(set(have) == set(want), "walls and polygons are %s", sorted(have))
    for k, (pts, vn) in want.items():
        poly_state_ok(have[k], k)
        check(close(have[k].vn, vn), "%s: normal is %s, expected %s", k, list(have[k].vn), vn)
        check(near_loop(have[k].pts, pts, tol), "%s: corners are %s, expected %s", k, have[k].pts.tolist(), pts)
    closed(b, 1e-9, "box")
    v = sx * sy * sz
    check(close(b.volume, v, rtol=1e-7, atol=1e-9 * (1 + float(np.abs([lo, hi]).max()) ** 3)),
          "volume is %r, expected %r", b.volume, v)
    ctx.label("moved" if s["move"] else "at the origin")
    ctx.mark(bool(s["move"]) and any(s["move"]) and len(set(s["size"])) == 3)


ANGLES = [0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4, math.pi / 6, 2 * math.pi / 3, 0.1, 1.0, -2.5, 7.0]


@st.composite
def plan_spec(draw):
    poly = draw(gen.shape())
    if draw(st.booleans()):
        poly = poly[::-1]
    names = draw(st.sampled_from(["default", "custom"]))
    return {
        "plan": poly,
        "den": draw(st.sampled_from([1, 2, 10])),
        "height": draw(dec()),
        "translate": draw(st.one_of(st.none(), st.tuples(move(), move(), move()))),
        "angle": draw(st.one_of(st.none(), st.sampled_from(ANGLES), st.integers(-300, 300).map(lambda k: k / 100))),
        "names": names,
        "cap": draw(st.booleans()),
        "name": draw(st.one_of(st.none(), st.sampled_from(["a", "room 1"]))),
    }


def plan(s, ctx):
    pts = [(x / s["den"], y / s["den"]) for x, y in tup(s["plan"])]
    n = len(pts)
    h = s["height"]
    kw = {}
    t = np.zeros(3)
    if s["translate"] is not None:
        kw["translate"] = tuple(s["translate"])
        t = np.array(s["translate"], dtype=float)
    phi = 0.0
    if s["angle"] is not None:
        kw["rot_angle"] = phi = s["angle"]
    if s["name"] is not None:
        kw["name"] = s["name"]
    names = [f"wall-{i}" for i in range(n)]
    if s["names"] == "custom":
        kw["wall_names"] = names = [f"side {n - i}" for i in range(n)]
    fl, ce = "floor", "ceiling"
    if s["cap"]:
        kw["floor_name"], kw["ceiling_name"] = fl, ce = "ground", "top"
    sld = floor_plan(pts, h, **kw)
    check(s["name"] is None or sld.name == s["name"], "name is %s", sld.name)

    co, si = math.cos(phi), math.sin(phi)
    base = np.array([[co * x - si * y, si * x + co * y, 0.0] for x, y in pts]) + t
    top = base + np.array([0, 0, h])
    tol = 1e-9 * (1 + float(np.abs(np.vstack([base, top])).max()))
    if geo.area2(tup(s["plan"])) < 0:
        order = [(i + 1, i) for i in range(n)]
        base_loop, top_loop = base, top[::-1]
    else:
        order = [(i, i + 1) for i in range(n)]
        base_loop, top_loop = base[::-1], top
    want = {fl: base_loop, ce: top_loop}
    for i, (a, b) in enumerate(order):
        a, b = a % n, b % n
        want[names[i]] = np.array([base[a], base[b], top[b], top[a]])
    have = {}
    for w in sld.children.values():
        check(len(w.children) == 1, "wall %s has %d polygons", w.name, len(w.children))
        for p in w.children.values():
            check(p.name == w.name, "polygon %s in wall %s", p.name, w.name)
            have[w.name] = p
    check(set(have) == set(want), "walls are %s, expected %s", sorted(have), sorted(want))
    for k, loop in want.items():
        p = have[k]
        poly_state_ok(p, k)
        check(close(p.vn, loop_normal(loop)[0], atol=1e-6), "%s: normal %s does not point outwards", k, list(p.vn))
        check(near_loop(p.pts, loop, tol), "%s: corners are %s, expected %s", k, p.pts.tolist(), np.asarray(loop).tolist())
    closed(sld, 1e-7, "floor plan")
    a = abs(geo.area2(tup(s["plan"]))) / 2 / s["den"] ** 2
    big = 1 + float(np.abs(np.vstack([base, top])).max())
    check(close(sld.volume, a * h, rtol=1e-7, atol=1e-10 * big**3), "volume is %r, expected %r", sld.volume, a * h)
    convex = all(geo.corner_sign(tup(s["plan"]), i) * geo.area2(tup(s["plan"])) > 0 for i in range(n))
    ctx.label("rotated" if phi else "straight", "clockwise" if geo.area2(tup(s["plan"])) < 0 else "counter-clockwise",
              "convex" if convex else "reflex")
    ctx.mark(not convex or phi != 0)


@st.composite
def bad_spec(draw):
    poly = draw(gen.shape(kinds=["rect", "tri", "convex"]))
    n = len(poly)
    mode = draw(st.sampled_from(["short", "long", "repeated"]))
    names = [f"n{i}" for i in range(n)]
    if mode == "short":
        names = names[: draw(st.integers(0, n - 1))]
    elif mode == "long":
        names += [f"m{i}" for i in range(draw(st.integers(1, 3)))]
    else:
        i = draw(st.integers(0, n - 2))
        names[draw(st.integers(i + 1, n - 1))] = names[i]
    return {"plan": poly, "names": names, "mode": mode}


def bad(s, ctx):
    """Wall names which do not match the plan are refused."""
    try:
        floor_plan(tup(s["plan"]), 2.0, wall_names=list(s["names"]))
    except ValueError:
        pass
    else:
        fail("%s wall names accepted: %s", s["mode"], s["names"])
    ctx.label(s["mode"])
    ctx.mark()


SUBS = [
    Sub("box", box_spec, mkbox, 500, 15000, "three different sizes, moved from the origin"),
    Sub("plan", plan_spec, plan, 700, 20000, "outline with a reflex corner, or rotated"),
    Sub("bad", bad_spec, bad, 200, 2000, "wrong number of names or a repeated name"),
]
