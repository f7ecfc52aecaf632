"""Point location in solids and buildings."""

from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.building.find_location import find_location
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone

from .. import geo, solids
from ..core import Sub, check, fail

DEN = 12


@st.composite
def spec(draw, s=None):
    s = s or draw(solids.solid_spec(max_off=20))
    x = solids.Exact(s)
    mode = draw(st.sampled_from(["any", "inner", "inner", "face", "edge", "corner", "near face"]))
    if mode == "any":
        q = [draw(st.integers(a * DEN - 6, b * DEN + 6)) for a, b in x.span()]
        q = [F(c, DEN) for c in q]
    elif mode == "inner":
        lo, hi = x.span()[2]
        w = F(draw(st.integers(lo * 8 + 1, hi * 8 - 1)), 8)
        tri = draw(st.sampled_from(geo.ears(x.poly)))
        ix = [x.poly.index(c) for c in tri]
        a, b = draw(st.integers(1, 6)), draw(st.integers(1, 6))
        sec = x.section(w)
        q = [(sec[ix[0]][k] * a + sec[ix[1]][k] * b + sec[ix[2]][k] * (16 - a - b)) / 16 for k in range(2)] + [w]
    else:
        f = draw(st.sampled_from(x.faces()))
        if mode == "corner":
            q = list(draw(st.sampled_from(f)))
        elif mode == "edge":
            i, t = draw(st.integers(0, len(f) - 1)), draw(st.integers(-2, 10))
            q = [a + F(b - a) * t / 8 for a, b in zip(f[i - 1], f[i])]
        else:
            i = draw(st.integers(0, len(f) - 1))
            w = draw(st.tuples(st.integers(-2, 8), st.integers(-2, 8)))
            a, b, c = f[i - 2], f[i - 1], f[i]
            q = [a[k] + F(b[k] - a[k]) * w[0] / 8 + F(c[k] - a[k]) * w[1] / 8 for k in range(3)]
            if mode == "near face":
                q[draw(st.integers(0, 2))] += F(draw(st.sampled_from([-1, 1])), 16)
    return {"solid": s, "q": [[c.numerator, c.denominator] if isinstance(c, F) else [c, 1] for c in q], "mode": mode}


def inside(s, ctx):
    x, sld = solids.build_solid(s["solid"], name="s")
    judge(s, ctx, x, sld)


@st.composite
def changed_spec(draw):
    c = draw(solids.change_spec())
    return {"change": c, "old": draw(spec(c["old"])), "new": draw(spec(c["new"]))}


def changed(s, ctx):
    """Answers are those for the current walls, whatever was asked before."""
    x = solids.Exact(s["old"]["solid"])
    pt = x.e.pt(*[a / b for a, b in s["old"]["q"]])
    later = solids.Exact(s["new"]["solid"]).e.pt(*[a / b for a, b in s["new"]["q"]])
    bdg = Building([Zone(name="z")], name="b")

    def ask(sld):
        if not sld.children or any(not w.children for w in sld.children.values()):
            return
        if not bdg.zones["z"].solids:
            bdg.zones["z"].add_solid(sld)
        for q in (pt, later):
            sld.is_point_inside(q)
            sld.is_point_at_boundary(q)
            try:
                find_location(q, bdg)
            except RuntimeError:
                pass

    y, sld = solids.change(s["change"], ask)
    loc = judge(s["new"], ctx, y, sld)
    if not bdg.zones["z"].solids:
        bdg.zones["z"].add_solid(sld)
    q = y.e.pt(*[a / b for a, b in s["new"]["q"]])
    try:
        got = find_location(q, bdg)
    except RuntimeError:
        got = None
    check(got == ("b/z/s" if loc >= 0 else None), "point %s the changed solid found in %s", {1: "inside", 0: "on", -1: "outside"}[loc], got)
    ctx.label(s["change"]["how"])


def judge(s, ctx, x, sld):
    q = [F(a, b) for a, b in s["q"]]
    loc = x.locate(*q)
    pt = x.e.pt(*[float(c) for c in q])
    got = bool(sld.is_point_inside(pt))
    where = {1: "inside", 0: "on the boundary of", -1: "outside"}[loc]
    check(got == (loc >= 0), "point %s %s a %s: reported %s", pt.tolist(), where, x.kind, "inside" if got else "outside")
    bnd = bool(sld.is_point_at_boundary(pt))
    check(bnd == (loc == 0), "point %s %s a %s: at boundary is %s", pt.tolist(), where, x.kind, bnd)
    ctx.label(where.split()[0] + f" {x.kind}")
    inbox = all(a <= c <= b for c, (a, b) in zip(q, x.span()))
    ctx.mark(loc >= 0 or inbox)
    return loc


@st.composite
def loc_spec(draw):
    """Boxes on a coarse grid: different cells, hence disjoint interiors."""
    cells = draw(st.lists(st.tuples(*[st.integers(0, 2)] * 3), min_size=1, max_size=6, unique=True))
    zones = draw(st.lists(st.integers(0, 2), min_size=len(cells), max_size=len(cells)))
    cuts = [[0] + sorted(draw(st.sets(st.integers(1, 7), min_size=2, max_size=2))) + [8] for _ in range(3)]
    c = draw(st.sampled_from(cells))
    q = []
    for k in range(3):
        a, b = cuts[k][c[k]], cuts[k][c[k] + 1]
        t = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 4]))
        q.append(4 * a + t * (b - a))
    if draw(st.integers(0, 3)) == 0:
        q = draw(st.tuples(*[st.integers(-2, 34)] * 3))
    return {
        "cells": cells, "zones": zones, "cuts": cuts,
        "first": draw(st.lists(st.integers(0, len(cells) - 1), max_size=3)),
        "q": q, "early": draw(st.booleans()),
        "off": draw(st.tuples(*[st.integers(-20, 20)] * 3)),
    }


def locate(s, ctx):
    """The reported solid contains the point; hinted solids are preferred, in the given order."""
    zones = [Zone(name=f"z{i}") for i in range(3)]
    bdg = Building(zones, name="b")
    off = np.array(s["off"]) / 4
    q = [c / 4 for c in s["q"]]
    pt = np.array(q) + off
    bounds, paths = [], []
    for i, (c, z) in enumerate(zip(s["cells"], s["zones"])):
        lo = [s["cuts"][k][c[k]] for k in range(3)]
        hi = [s["cuts"][k][c[k] + 1] for k in range(3)]
        zones[z].add_solid(box(*[float(b - a) for a, b in zip(lo, hi)], tuple(np.array(lo) + off), name=f"s{i}"))
        bounds.append((lo, hi))
        paths.append(f"b/z{z}/s{i}")
        if s["early"]:
            try:
                find_location(pt, bdg)
            except RuntimeError:
                pass
    holds = [p for p, (lo, hi) in zip(paths, bounds) if all(a <= c <= b for a, c, b in zip(lo, q, hi))]
    first = [paths[i] for i in s["first"]]
    try:
        got = find_location(pt, bdg, *first)
    except RuntimeError:
        check(not holds, "point %s not found, but it is in %s", q, holds)
        ctx.label("outside")
        ctx.mark(all(-1 < c < 9 for c in q))
        return
    if not holds:
        fail("point %s outside of the building found in %s", q, got)
    check(got in holds, "point %s found in %s, but it is in %s", q, got, holds)
    hinted = [p for p in first if p in holds]
    if hinted:
        check(got == hinted[0], "found in %s, but first to look at was %s", got, hinted[0])
        ctx.label("hinted")
    ctx.label(f"in {len(holds)} solids")
    ctx.mark()


SUBS = [
    Sub("inside", spec, inside, 2500, 60000, "point within the bounds of the solid"),
    Sub("changed", changed_spec, changed, 250, 8000, "point within the bounds of the changed solid"),
    Sub("locate", loc_spec, locate, 300, 6000, "point within the bounds of the building"),
]
