"""Stitching adjacent solids."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.solid.stitch import stitch_solids
from building3d.geom.zone import Zone

from .. import bld, gen, geo
from ..core import Sub, check
from ..gen import Emb, tup
from ..lib import close, loop_normal


@st.composite
def boxes_spec(draw):
    return {
        "bdg": draw(bld.building_spec(n_min=2, n_max=4, disjoint=True)),
        "via": draw(st.sampled_from(["building", "building", "pair", "reversed"])),
    }


def snapshot(solid):
    return {(wn, pn): p.pts.copy() for wn, w in solid.walls.items() for pn, p in w.polygons.items()}


def to_grid(e, pts, what):
    """Integer grid coordinates of points which have to be on the grid."""
    out = []
    for p in pts:
        r = np.asarray(p) - np.array(e.o)
        c = [float(np.dot(r, a)) / (e.unit * e.s**2) for a in (e.u, e.v, e.w)]
        g = tuple(int(round(x)) for x in c)
        check(max(abs(a - b) for a, b in zip(c, g)) < 1e-6, "%s: corner %s is not on the lines of the solids", what, c)
        out.append(g)
    return out


def flat(loop, ax):
    return [tuple(c[k] for k in range(3) if k != ax) for c in loop]


def same_cycle(a, b):
    return geo.normalize_loop(a) in (geo.normalize_loop(b), geo.normalize_loop(b[::-1]))


def boxes(s, ctx):
    """Pieces tile the original faces; shared areas are made of facing pairs; the rest is left alone."""
    town = bld.Town(s["bdg"])
    bdg, e = town.bdg, town.e
    n = len(town.solid_path)
    sld = [bdg.get(p) for p in town.solid_path]
    vol = [x.volume for x in sld]
    before = [snapshot(x) for x in sld]
    shared = {}  # Pair of boxes -> exact shared area
    busy = set()  # Faces which share some area with another box
    for p in town.faces:
        for q in town.faces:
            i, j = town.solid_of[p], town.solid_of[q]
            f, g = town.faces[p], town.faces[q]
            if i == j or f[0] != g[0] or f[1] != g[1] or f[2] == g[2]:
                continue
            w = [min(f[3][1][k], g[3][1][k]) - max(f[3][0][k], g[3][0][k]) for k in range(2)]
            if min(w) > 0:
                shared[i, j] = shared.get((i, j), 0) + w[0] * w[1]
                busy.add(p)
    if s["via"] == "building":
        bdg.get_graph()
        bdg.stitch_solids()
    else:
        for i in range(n):
            for j in range(i + 1, n):
                a, b = (sld[i], sld[j]) if s["via"] == "pair" else (sld[j], sld[i])
                stitch_solids(a, b)

    pieces = []  # (box, axis, level, sign, 2D loop, polygon)
    for i in range(n):
        check(close(sld[i].volume, vol[i]), "volume changed from %r to %r", vol[i], sld[i].volume)
        check(list(sld[i].walls) == sorted(sld[i].walls, key=[k[0] for k in before[i]].index), "walls were reordered")
        check({k[0] for k in before[i]} == set(sld[i].walls), "walls changed to %s", list(sld[i].walls))
        per_face = {p: [] for p in town.faces if town.solid_of[p] == i}
        for wn, w in sld[i].walls.items():
            for pn, p in w.polygons.items():
                check(p.name == pn and p.parent is w and bdg.get(p.path) is p, "polygon %s is not where its path says", pn)
                vn, area = loop_normal(p.pts)
                check(close(vn, p.vn, atol=1e-7) and close(area, p.area, rtol=1e-6), "piece %s has a wrong normal or area", pn)
                loop = to_grid(e, p.pts, pn)
                owner = None
                for path in per_face:
                    ax, level, sign, rect = town.faces[path]
                    d = np.array((e.u, e.v, e.w)[ax], dtype=float) / e.s * sign
                    if all(c[ax] == level for c in loop) and np.dot(vn, d) > 0.999 and path.split("/")[3] == wn:
                        owner = path
                check(owner is not None, "piece %s does not belong to any original face of the wall %s", pn, wn)
                per_face[owner].append((pn, flat(loop, town.faces[owner][0])))
                pieces.append((i, town.faces[owner], flat(loop, town.faces[owner][0]), p))
        for path, ps in per_face.items():
            ax, level, sign, (lo, hi) = town.faces[path]
            name = path.split("/")[4]
            if path not in busy:
                check([k for k, _ in ps] == [name], "face %s shares nothing, but was replaced by %s", name, [k for k, _ in ps])
                check(np.array_equal(sld[i][path.split("/")[3]][name].pts, before[i][path.split("/")[3], name]),
                      "face %s shares nothing, but its corners changed", name)
                continue
            full = 2 * (hi[0] - lo[0]) * (hi[1] - lo[1])
            tot = 0
            for pn, lp in ps:
                check(len(set(lp)) == len(lp) and geo.is_simple(lp), "piece %s is not a simple polygon: %s", pn, lp)
                check(all(lo[k] <= c[k] <= hi[k] for c in lp for k in range(2)), "piece %s sticks out: %s", pn, lp)
                tot += abs(geo.area2(lp))
            check(tot == full, "pieces of %s have the total area %s, expected %s", name, tot / 2, full / 2)
            for a in range(len(ps)):
                for b in range(a):
                    check(geo.overlap_area2(ps[a][1], ps[b][1]) == 0, "pieces %s and %s overlap", ps[a][0], ps[b][0])

    got = {}
    for i, f, lp, p in pieces:
        for j, g, lq, q in pieces:
            if i == j or f[0] != g[0] or f[1] != g[1] or f[2] == g[2]:
                continue
            if same_cycle(lp, lq):
                check(p.is_facing_polygon(q), "matching pieces %s and %s are not facing", p.path, q.path)
                got[i, j] = got.get((i, j), 0) + abs(geo.area2(lp))
            else:
                check(geo.overlap_area2(lp, lq) == 0, "pieces %s and %s still overlap partly", p.path, q.path)
    for k, a in shared.items():
        check(got.get(k, 0) == 2 * a, "solids %s share the area %s, facing pieces have %s", k, a, got.get(k, 0) / 2)
        check(sld[k[0]].has_correct_interface(sld[k[1]]), "stitched solids have no correct interface")

    # The graph does not refer to the replaced polygons
    if s["via"] == "building":
        g = bdg.get_graph()
        check(set(g) == set(bdg.get_polygon_paths()), "graph after stitching has wrong nodes")
        want = {}
        for i, f, lp, p in pieces:
            for j, h, lq, q in pieces:
                if i != j and f[:2] == h[:2] and f[2] != h[2] and same_cycle(lp, lq):
                    want.setdefault(p.path, set()).add(q.path)
        for k in g:
            check(set(g[k]) == want.get(k, set()), "graph after stitching: %s is connected with %s", k, g[k])
        sg = bdg.get_graph(level="solid")
        for i in range(n):
            names = {town.solid_path[j] for j in range(n) if (i, j) in shared}
            check(set(sg[town.solid_path[i]]) == names, "solid graph after stitching: %s is connected with %s",
                  town.solid_path[i], sg[town.solid_path[i]])

    # Nothing is left to be done
    mid = [snapshot(x) for x in sld]
    bdg.stitch_solids()
    for a, x in zip(mid, sld):
        b = snapshot(x)
        check(list(a) == list(b) and all(np.array_equal(a[k], b[k]) for k in a), "stitching again changed the solids")
    ctx.label(f"{len(shared) // 2} interfaces", "sliced" if any(len(m) > 6 for m in mid) else "not sliced")
    ctx.mark(bool(shared) and any(len(m) > 6 for m in mid))


@st.composite
def plans_spec(draw):
    sh = gen.shape(kinds=draw(st.sampled_from([["convex", "tri", "rect"], None])))
    p1, p2 = draw(sh), draw(sh)
    mode = draw(st.sampled_from(["any", "any", "corner", "centre"]))
    if mode == "any":
        t = draw(st.tuples(st.integers(-6, 6), st.integers(-6, 6)))
    elif mode == "corner":
        a, b = draw(st.sampled_from(p1)), draw(st.sampled_from(p2))
        t = (a[0] - b[0], a[1] - b[1])
    else:
        k = draw(st.integers(2, 4))
        p1 = [(x * k, y * k) for x, y in p1]
        c1 = [sum(q[i] for q in p1) // len(p1) for i in range(2)]
        c2 = [sum(q[i] for q in p2) // len(p2) for i in range(2)]
        t = (c1[0] - c2[0], c1[1] - c2[1])
    return {"p1": p1, "p2": [(x + t[0], y + t[1]) for x, y in p2], "rev": draw(st.booleans()),
            "e": draw(st.integers(0, 2)), "o": draw(st.tuples(*[st.integers(-20, 20)] * 3))}


@st.composite
def combs_spec(draw):
    """A rectangle and an outline with teeth sticking out of it."""
    n, h = draw(st.integers(3, 6)), draw(st.integers(2, 3))
    p1 = [(-1, 0), (2 * n + 1, 0), (2 * n + 1, h), (-1, h)]
    tops = [(2 * n - k, h + draw(st.integers(1, 3)) if k % 2 == 0 else draw(st.integers(1, h - 1))) for k in range(2 * n + 1)]
    p2 = [(0, 0), (2 * n, 0)] + tops
    if draw(st.booleans()):
        p1, p2 = p2, p1
    return {"p1": p1, "p2": p2, "rev": draw(st.booleans()), "e": draw(st.integers(0, 2)), "o": draw(st.tuples(*[st.integers(-20, 20)] * 3))}


def plans(s, ctx):
    """One prism standing on another one, convex outlines."""
    p1, p2 = tup(s["p1"]), tup(s["p2"])
    ov = geo.overlap_area2(p1, p2)
    u = 2.0 ** -s["e"]
    o = [c / 4 for c in s["o"]]
    at = lambda p: [(x * u + o[0], y * u + o[1]) for x, y in p]  # noqa: E731
    a = floor_plan(at(p1), 1.0, translate=(0.0, 0.0, o[2]), name="a")
    b = floor_plan(at(p2), 1.5, translate=(0.0, 0.0, o[2] + 1.0), name="b")
    area = [abs(geo.area2(p)) / 2 * u * u for p in (p1, p2)]
    vol = [area[0], area[1] * 1.5]
    before = snapshot(a), snapshot(b)
    if s["rev"]:
        stitch_solids(b, a)
    else:
        bdg = Building([Zone([a, b], name="z")], name="x")
        bdg.stitch_solids()
    facing = 0.0
    for sld, v, bef in ((a, vol[0], before[0]), (b, vol[1], before[1])):
        check(close(sld.volume, v, rtol=1e-7), "volume is %r, expected %r", sld.volume, v)
        for k, pts in bef.items():
            cut = sld is a and k == ("ceiling", "ceiling") or sld is b and k == ("floor", "floor")
            if not cut or not ov:
                now = snapshot(sld).get(k)
                check(now is not None and np.array_equal(now, pts), "%s shares nothing, but was changed", k[1])
    for sld, wall, full, src in ((a, "ceiling", area[0], p1), (b, "floor", area[1], p2)):
        ps = list(sld[wall].polygons.values())
        check(close(sum(p.area for p in ps), full, rtol=1e-7), "pieces of the %s have the total area %r, expected %r",
              wall, sum(p.area for p in ps), full)
        for p in ps:
            vn, ar = loop_normal(p.pts)
            check(close(vn, [0, 0, 1 if wall == "ceiling" else -1]) and close(ar, p.area, rtol=1e-6), "piece %s is turned", p.name)
            check(close(p.pts[:, 2], np.full(len(p.pts), o[2] + 1.0)), "piece %s is not in the plane", p.name)
    for p in a["ceiling"].polygons.values():
        for q in b["floor"].polygons.values():
            if p.is_facing_polygon(q):
                facing += p.area
            else:
                inner = p.get_some_interior_point()
                check(not q.is_point_inside(inner), "piece %s partly covers %s", q.name, p.name)
    want = float(ov) / 2 * u * u
    check(close(facing, want, rtol=1e-6, atol=1e-6), "solids share the area %r, facing pieces have %r", want, facing)
    n = len(a["ceiling"].polygons), len(b["floor"].polygons)
    mid = snapshot(a), snapshot(b)
    stitch_solids(a, b)
    for x, y in zip(mid, (snapshot(a), snapshot(b))):
        check(list(x) == list(y), "stitching again changed the solids")
    ctx.label(f"{n[0]} and {n[1]} pieces" if max(n) < 4 else "many pieces")
    ctx.mark(max(n) > 1)


SUBS = [
    Sub("boxes", boxes_spec, boxes, 240, 6000, "at least two boxes share an area and some face had to be sliced"),
    Sub("plans", plans_spec, plans, 400, 10000, "at least one of the faces had to be sliced"),
    Sub("combs", combs_spec, plans, 24, 400, "at least one of the faces had to be sliced"),
]
