"""Exact solids (prisms, pyramids, bipyramids) on the integer grid, and buildings made of boxes."""

from fractions import Fraction as F

from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall

from . import gen, geo
from .gen import Emb, tup


@st.composite
def solid_spec(draw, max_off=40, kinds=("prism", "prism", "pyramid", "bipyramid"), shape=None):
    poly = draw(shape if shape is not None else gen.shape())
    h = draw(st.integers(1, 6))
    sh = draw(st.tuples(st.integers(-4, 4), st.integers(-4, 4)))
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "prism" and draw(st.booleans()):
        sh = (0, 0)
    return {
        "kind": kind, "poly": poly, "h": h, "sh": sh, "h2": draw(st.integers(1, 5)),
        "emb": draw(gen.embedding(max_off=max_off)),
        "group": draw(st.integers(0, 3)), "start": draw(st.integers(0, 9)),
        "order": draw(st.integers(0, 5)),
    }


class Exact:
    """A solid with exactly known faces, volume and point location (in grid coordinates)."""

    def __init__(self, s):
        self.kind = s["kind"]
        self.poly = tup(s["poly"])
        self.h, self.h2 = s["h"], s["h2"]
        self.sh = tuple(s["sh"])
        self.e = Emb(s["emb"])

    def faces(self):
        """Outward loops of (x, y, w)."""
        p, h, (sx, sy) = self.poly, self.h, self.sh
        n = len(p)
        base = [(x, y, 0) for x, y in p]
        if self.kind == "prism":
            top = [(x + sx, y + sy, h) for x, y in p]
            out = [base[::-1], top]
            out += [[base[i], base[(i + 1) % n], top[(i + 1) % n], top[i]] for i in range(n)]
            return out
        apex = (p[0][0] + sx, p[0][1] + sy, h)
        out = [[base[i], base[(i + 1) % n], apex] for i in range(n)]
        if self.kind == "pyramid":
            return out + [base[::-1]]
        low = (p[0][0] - sy, p[0][1] + sx, -self.h2)
        return out + [[base[(i + 1) % n], base[i], low] for i in range(n)]

    def volume(self):
        a = F(abs(geo.area2(self.poly)), 2)
        if self.kind == "prism":
            v = a * self.h
        elif self.kind == "pyramid":
            v = a * self.h / 3
        else:
            v = a * (self.h + self.h2) / 3
        return float(v) * self.e.scale**3

    def section(self, w):
        """Cross-section at height w as a list of points, None if out of range; one point at an apex."""
        if self.kind == "prism":
            if w < 0 or w > self.h:
                return None
            return [(x + F(self.sh[0]) * w / self.h, y + F(self.sh[1]) * w / self.h) for x, y in self.poly]
        if w > self.h or w < (0 if self.kind == "pyramid" else -self.h2):
            return None
        if w >= 0:
            ax, ay, t = self.poly[0][0] + self.sh[0], self.poly[0][1] + self.sh[1], F(w) / self.h
        else:
            ax, ay, t = self.poly[0][0] - self.sh[1], self.poly[0][1] + self.sh[0], F(-w) / self.h2
        return [(x + (ax - x) * t, y + (ay - y) * t) for x, y in self.poly]

    def locate(self, x, y, w):
        """1 inside, 0 on the boundary, -1 outside."""
        sec = self.section(w)
        if sec is None:
            return -1
        if sec[0] == sec[1]:  # Apex
            return 0 if (x, y) == sec[0] else -1
        r = geo.locate((x, y), sec)
        if r < 0:
            return -1
        flat = (self.kind == "prism" and w in (0, self.h)) or (self.kind == "pyramid" and w == 0)
        return 0 if flat else r

    def span(self):
        """Bounds of the grid coordinates."""
        q = [c for f in self.faces() for c in f]
        return [(min(c[i] for c in q), max(c[i] for c in q)) for i in range(3)]


def shuffled(lst, k):
    """One of a few fixed reorderings."""
    lst = list(lst)
    if k & 1:
        lst = lst[::-1]
    if k & 2:
        lst = lst[1::2] + lst[0::2]
    if k & 4:
        lst = lst[len(lst) // 2:] + lst[:len(lst) // 2]
    return lst


def start_at_convex(loop, k):
    """Rotates a planar 3D loop to start in its k-th convex corner."""
    n = len(loop)
    tot = [0, 0, 0]
    for i in range(n):
        c = geo.cross3(loop[i], loop[(i + 1) % n])
        tot = [a + b for a, b in zip(tot, c)]
    ok = []
    for i in range(n):
        a, b, c = loop[i - 1], loop[i], loop[(i + 1) % n]
        u = [b[j] - a[j] for j in range(3)]
        v = [c[j] - b[j] for j in range(3)]
        if geo.dot3(geo.cross3(u, v), tot) > 0:
            ok.append(i)
    i = ok[k % len(ok)]
    return loop[i:] + loop[:i]


def build_solid(s, name=None, uid=None):
    """The library's solid; `group` polygons share a wall, faces come in a chosen order."""
    x = Exact(s)
    loops = shuffled([start_at_convex(f, s["start"]) for f in x.faces()], s["order"])
    polys = [Polygon(x.e.pts(f), name=f"p{i}") for i, f in enumerate(loops)]
    g = s["group"] + 1
    walls = [Wall(polys[i:i + g], name=f"w{i // g}") for i in range(0, len(polys), g)]
    return x, Solid(walls, name=name, uid=uid)


@st.composite
def change_spec(draw, max_off=20):
    """A solid and another one with the same number of faces, which it is turned into."""
    s = draw(solid_spec(max_off=max_off))
    return {
        "old": s,
        "new": dict(s, h=draw(st.integers(1, 6)), h2=draw(st.integers(1, 5)), sh=draw(st.tuples(st.integers(-4, 4), st.integers(-4, 4))),
                    emb=draw(gen.embedding(max_off=max_off)) if draw(st.booleans()) else s["emb"]),
        "how": draw(st.sampled_from(["walls", "polygons", "grow", "both"])), "ask": draw(st.integers(0, 3)),
    }


def change(s, ask):
    """A solid which was at first (except when growing) the old one, and is now the new one; ask(solid) is called on the way."""
    x, sld = build_solid(s["old"], name="s")
    y, other = build_solid(s["new"], name="s")
    if s["how"] == "grow":
        sld = Solid([], name="s")
        for w in list(other.walls.values()):
            wall = Wall([], name=w.name)
            for i, p in enumerate(list(w.polygons.values())):
                wall.add_polygon(p)
                if i == 0:
                    sld.add_wall(wall)
                if s["ask"] & 1:
                    ask(sld)
        return y, sld
    if s["ask"] & 2 or s["ask"] == 0:
        ask(sld)
    for k, w in enumerate(list(other.walls.values())):
        if s["how"] == "walls" or s["how"] == "both" and k % 2:
            sld.replace_wall(w.name, w)
        else:
            for p in list(w.polygons.values()):
                sld.walls[w.name].replace_polygon(p.name, p)
        if s["ask"] & 1:
            ask(sld)
    return y, sld
