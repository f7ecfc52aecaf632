"""Volume of solids, zones and buildings; tetrahedra."""

from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.tetrahedrons import tetrahedron_centroid, tetrahedron_volume
from building3d.geom.zone import Zone

from .. import geo, solids
from ..core import Sub, check
from ..gen import tup
from ..lib import close


def volume(s, ctx):
    x, sld = solids.build_solid(s, name="s")
    v = sld.volume
    off = float(np.abs(x.e.o).max()) + 50 * x.e.scale
    tol = 1e-9 * max(x.volume(), off**2 * x.e.scale)
    check(abs(v - x.volume()) <= tol, "volume of a %s is %r, expected %r", x.kind, v, x.volume())
    ctx.label(x.kind)
    lo, hi = np.array(sld.bbox())
    ctx.label("around the origin" if (lo <= 0).all() and (hi >= 0).all() else "away from the origin")
    p = tup(s["poly"])
    ctx.mark(any(geo.corner_sign(p, i) * geo.area2(p) < 0 for i in range(len(p))) or x.kind != "prism")


@st.composite
def sums_spec(draw):
    kinds = draw(st.lists(solids.solid_spec(max_off=20), min_size=1, max_size=3))
    n = draw(st.integers(0, 5))
    put = st.tuples(st.integers(0, len(kinds) - 1), st.integers(0, 2), st.tuples(*[st.integers(-20, 20)] * 3))
    return {"kinds": kinds, "put": draw(st.lists(put, min_size=n, max_size=n))}


def sums(s, ctx):
    """Zone and building volumes are sums of the volumes of what they contain."""
    zones = [Zone(name=f"z{i}") for i in range(3)]
    want = [0.0, 0.0, 0.0]
    for i, (k, z, off) in enumerate(s["put"]):
        sp = dict(s["kinds"][k])
        if i % 2:  # Copies of the same solid, in the same place or in another one
            sp["emb"] = dict(sp["emb"], o=off)
        x, sld = solids.build_solid(sp, name=f"s{i}")
        zones[z].add_solid(sld)
        want[z] += x.volume()
    bdg = Building(zones, name="b")
    for z, w in zip(zones, want):
        check(close(z.volume(), w, rtol=1e-7, atol=1e-6), "zone volume is %r, expected %r", z.volume(), w)
    check(close(bdg.volume(), sum(want), rtol=1e-7, atol=1e-6), "building volume is %r, expected %r",
          bdg.volume(), sum(want))
    ctx.label(f"{sum(1 for w in want if w)} zones not empty")
    ctx.mark(len(s["put"]) > 1)


@st.composite
def changes_spec(draw):
    return {"steps": draw(st.lists(solids.change_spec(), min_size=1, max_size=3)), "zone": draw(st.lists(st.integers(0, 1), min_size=3, max_size=3))}


def changes(s, ctx):
    """Volumes are those of the current walls, whatever was asked before."""
    zones = [Zone(name="z0"), Zone(name="z1")]
    bdg = Building(zones[:1], name="b")
    want = [0.0, 0.0]
    tol = 0.0

    def ask(sld):
        return sld.volume, sld.bbox(), [z.volume() for z in zones], bdg.volume()

    for i, step in enumerate(s["steps"]):
        z = s["zone"][i]
        y, sld = solids.change(step, ask)
        sld.name = f"s{i}"
        off = float(np.abs(y.e.o).max()) + 50 * y.e.scale
        one = 1e-9 * max(y.volume(), off**2 * y.e.scale)
        check(abs(sld.volume - y.volume()) <= one, "volume of a changed %s is %r, expected %r", y.kind, sld.volume, y.volume())
        zones[z].add_solid(sld)
        want[z] += y.volume()
        tol += one
        if z == 1 and len(bdg.zones) == 1:
            bdg.add_zone(zones[1])
        for k in range(2):
            check(abs(zones[k].volume() - want[k]) <= tol, "zone volume is %r, expected %r", zones[k].volume(), want[k])
        check(abs(bdg.volume() - sum(want)) <= tol, "building volume is %r, expected %r", bdg.volume(), sum(want))
        if i == 0 and len(s["steps"]) > 1:  # Now inside of the zone
            b = solids.build_solid(step["old"])
            for w in list(b[1].walls.values()):
                sld.replace_wall(w.name, w)
            want[z] += b[0].volume() - y.volume()
            off = float(np.abs(b[0].e.o).max()) + 50 * b[0].e.scale
            tol += 1e-9 * max(b[0].volume(), off**2 * b[0].e.scale)
            check(abs(zones[z].volume() - want[z]) <= tol, "volume of a zone with a changed solid is %r, expected %r", zones[z].volume(), want[z])
            check(abs(bdg.volume() - sum(want)) <= tol, "volume of a building with a changed solid is %r, expected %r", bdg.volume(), sum(want))
        ctx.label(step["how"])
    ctx.mark()


def tet_spec():
    c = st.integers(-40, 40)
    p = st.tuples(c, c, c)
    return st.fixed_dictionaries({"pts": st.lists(p, min_size=4, max_size=4), "e": st.integers(0, 6),
                                  "o": st.tuples(*[st.integers(-400, 400)] * 3), "perm": st.permutations(range(4))})


def tet(s, ctx):
    """Any four points, in any order: one sixth of the triple product, mean of the corners."""
    u = 2.0 ** -s["e"]
    pts = [np.array([a * u + b / 4 for a, b in zip(p, s["o"])]) for p in s["pts"]]
    p = s["pts"]
    a, b, c = [[p[i][k] - p[0][k] for k in range(3)] for i in (1, 2, 3)]
    six = abs(geo.dot3(a, geo.cross3(b, c)))
    want = float(F(six, 6)) * u**3
    q = [pts[i] for i in s["perm"]]
    got = tetrahedron_volume(*q)
    check(close(got, want, rtol=1e-9, atol=1e-9 * u), "tetrahedron volume is %r, expected %r", got, want)
    ctr = tetrahedron_centroid(*q)
    m = [float(sum(F(p[i][k]) for i in range(4)) / 4) * u + s["o"][k] / 4 for k in range(3)]
    check(close(ctr, m, atol=1e-9), "tetrahedron centroid is %s, expected %s", list(ctr), m)
    ctx.label("flat" if six == 0 else "solid")
    ctx.mark(six != 0)


SUBS = [
    Sub("volume", solids.solid_spec, volume, 1500, 40000, "not a convex prism (reflex outline, pyramid or bipyramid)"),
    Sub("sums", sums_spec, sums, 200, 4000, "at least two solids, in one or more zones"),
    Sub("changes", changes_spec, changes, 150, 4000, "every case (walls and polygons are replaced or added after the volume was asked)"),
    Sub("tet", tet_spec, tet, 1000, 40000, "four points not in one plane"),
]
