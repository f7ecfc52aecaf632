"""Arbitrary buildings: any tree of zones, solids, walls and polygons, not necessarily closed solids."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from . import gen
from .gen import Emb, tup

POOL = ["a", "b", "c", "0", "1", "01", "A", "floor", "wall", "a-main", "a-sup"]
ALPHABET = "abAB01 _-.:äß漢'\"\\{}%<>*"


def names(n_min, n_max):
    """Different names of siblings."""
    one = st.one_of(st.sampled_from(POOL), st.text(ALPHABET, min_size=1, max_size=6))
    return st.lists(one, min_size=n_min, max_size=n_max, unique=True)


UID = st.one_of(st.none(), st.text("0123456789abcdef-", min_size=1, max_size=12),
                st.sampled_from(["a b", "a  b", "c \t d", "solid", "solid 1", "endsolid x  y", "facet normal 0 0 1", "ä:1"]))


@st.composite
def poly_spec(draw):
    return {
        "p": gen.convex_start(draw(gen.shape(straight=draw(st.booleans()))), draw(st.integers(0, 5))),
        "emb": draw(gen.embedding(max_off=60)),
        "flip": draw(st.booleans()),
    }


@st.composite
def tree(draw, n_min=1, empties=True, max_each=3, pool=4, with_uid=True, bulk=True):
    """Nested lists of names, with polygons taken from a few shared outlines; now and then with many siblings."""
    polys = draw(st.lists(poly_spec(), min_size=1, max_size=pool))
    lo = 0 if empties else 1

    def level(depth):
        n = draw(st.integers(lo if depth else max(n_min, lo), max_each if depth < 3 else 2))
        out = []
        for name in draw(names(n, n)):
            node = {"name": name}
            if with_uid:
                node["uid"] = draw(UID)
            if depth < 3:
                node["in"] = level(depth + 1)
            else:
                node["poly"] = draw(st.integers(0, len(polys) - 1))
            out.append(node)
        return out

    name = draw(st.one_of(st.sampled_from(POOL), st.text(ALPHABET, min_size=1, max_size=6)))
    spec = {"name": name, "uid": draw(UID) if with_uid else None, "polys": polys, "in": level(0)}
    many = draw(st.integers(0, 39)) if bulk else 0
    if many >= 36:
        depth, n = draw(st.integers(0, 3)), {36: 12, 37: 40, 38: 130, 39: 300}[many]
        nodes = spec["in"]
        for d in range(depth):
            if not nodes:
                nodes.append({"name": "m", "in": []})
            nodes = nodes[-1]["in"]
        nodes += [plain(f"n{i}", depth, (i + n) % len(polys)) for i in range(n)]
    return spec


def plain(name, depth, poly):
    """A node with nothing but one polygon in it."""
    return {"name": name, "poly": poly} if depth == 3 else {"name": name, "in": [plain("m", depth + 1, poly)]}


def polygon(spec, **kw):
    p = tup(spec["p"])
    pts = Emb(spec["emb"]).pts(p)
    if spec["flip"]:
        return Polygon(pts, **kw).flip(kw.get("name"))
    return Polygon(pts, **kw)


def build(spec, dec=None):
    """The building, children added in the given order; optionally with coordinates multiplied by a number."""
    proto = {}

    def poly(node):
        k = node["poly"]
        if k not in proto:
            proto[k] = q = polygon(spec["polys"][k])
            if dec is not None:
                try:
                    proto[k] = Polygon(q.pts * dec, tri=q.tri)
                except AssertionError:
                    pass  # Not flat enough after rounding
        q = proto[k]
        return Polygon(q.pts.copy(), name=node["name"], uid=node.get("uid"), tri=q.tri.copy())

    zones = []
    for z in spec["in"]:
        solids = []
        for s in z["in"]:
            walls = [Wall([poly(p) for p in w["in"]], name=w["name"], uid=w.get("uid")) for w in s["in"]]
            solids.append(Solid(walls, name=s["name"], uid=s.get("uid")))
        zones.append(Zone(solids, name=z["name"], uid=z.get("uid")))
    return Building(zones, name=spec["name"], uid=spec.get("uid"))


def leaves(bdg):
    """All polygons with their names from the building down."""
    for z in bdg.zones.values():
        for s in z.solids.values():
            for w in s.walls.values():
                for p in w.polygons.values():
                    yield (z.name, s.name, w.name, p.name), p


def skeleton(bdg):
    """Names of everything, in order."""
    return (bdg.name, [(z.name, [(s.name, [(w.name, list(w.polygons)) for w in s.walls.values()])
                                 for s in z.solids.values()]) for z in bdg.zones.values()])


def count(spec):
    """Numbers of zones, solids, walls and polygons."""
    n = [0, 0, 0, 0]

    def go(nodes, d):
        for x in nodes:
            n[d] += 1
            if d < 3:
                go(x["in"], d + 1)

    go(spec["in"], 0)
    return n


def grow(bdg):
    """Adds a zone with one polygon to a building, so that files written before are out of date."""
    one = Polygon(np.array([[0.0, 0.0, 0.5], [3.0, 0.0, 0.5], [0.0, 2.0, 0.5]]), name="p")
    name = "new"
    while name in bdg.zones:
        name += "+"
    bdg.add_zone(Zone([Solid([Wall([one], name="w")], name="s")], name=name))


@st.composite
def strips_spec(draw):
    """Polygons with very many corners, each in a wall, solid or zone of its own."""
    big = draw(st.sampled_from([33000, 300, 20000]))
    sizes = draw(st.permutations([big, draw(st.integers(4, 400)), draw(st.integers(4, 9))]))
    return {"sizes": list(sizes), "level": [draw(st.integers(1, 3)) for _ in sizes]}


def strips(s):
    """A building of the polygons from `strips_spec`. The triangles of each are a fan."""
    zones = []
    for i, (n, level) in enumerate(zip(s["sizes"], s["level"])):
        top = np.arange(n - 2)[::-1]
        pts = np.zeros((n, 3))
        pts[1, 0] = n - 3
        pts[2:, 0], pts[2:, 1], pts[:, 2] = top, 1.0, i
        k = np.arange(1, n - 1)
        p = Polygon(pts, name="p%d" % i, tri=np.array([0 * k, k, k + 1], dtype=np.int32).T)
        w = Wall([p], name="w%d" % i)
        if not zones or level == 1:
            zones.append([[]])
        elif level == 2:
            zones[-1].append([])
        zones[-1][-1].append(w)
    return Building([Zone([Solid(w, name="s%d" % j) for j, w in enumerate(z)], name="z%d" % i) for i, z in enumerate(zones)], name="b")
