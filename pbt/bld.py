"""Buildings made of boxes on the integer grid: specs, exact faces and library objects."""

from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from . import gen
from .gen import Emb

NAMES = ["a", "a1", "a-1", "1", "10", "b", "floor", "wall", "A", "a b"]


@st.composite
def box_list(draw, n_min=1, n_max=3, max_size=4, disjoint=False):
    """Boxes (x0, y0, z0, x1, y1, z1); each next one is put against one of the previous ones or anywhere."""
    n = draw(st.integers(n_min, n_max))
    size = st.integers(1, max_size)
    out = []
    for i in range(n):
        d = [draw(size) for _ in range(3)]
        if not out:
            lo = [0, 0, 0]
        elif draw(st.integers(0, 7)) == 0:
            lo = [draw(st.integers(-4, 6)) for _ in range(3)]
        else:
            b = out[draw(st.integers(0, len(out) - 1))]
            ax = draw(st.integers(0, 2))
            match = draw(st.integers(0, 2))
            if match < 2:  # Same size, so that faces may match
                d = [b[k + 3] - b[k] for k in range(3)]
                if draw(st.booleans()):
                    d[ax] = draw(size)
            lo = []
            for k in range(3):
                if k == ax:
                    lo.append(b[k + 3] if draw(st.booleans()) else b[k] - d[k])
                elif match == 0:
                    lo.append(b[k])
                else:
                    sh = draw(st.sampled_from([0, 0, 0, 1, -1, 2, b[k + 3] - b[k], -d[k]]))
                    lo.append(b[k] + sh)
        box = tuple(lo) + tuple(a + b for a, b in zip(lo, d))
        if disjoint and any(overlap3(box, o) for o in out):
            continue
        out.append(box)
    return out


def overlap3(a, b):
    """True if the interiors of two boxes overlap."""
    return all(min(a[k + 3], b[k + 3]) > max(a[k], b[k]) for k in range(3))


@st.composite
def building_spec(draw, n_min=1, n_max=3, max_size=4, disjoint=False, max_off=20):
    boxes = draw(box_list(n_min, n_max, max_size, disjoint))
    n = len(boxes)
    return {
        "boxes": boxes,
        "zone": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
        "group": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
        "start": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
        "names": draw(st.integers(0, len(NAMES) - 1)),
        "emb": draw(gen.embedding(axis_only=draw(st.integers(0, 2)) > 0, max_off=max_off)),
    }


FACE_NAMES = ["x0", "x1", "y0", "y1", "z0", "z1"]


def box_faces(b):
    """Six faces: (axis, level, outward sign, rectangle as ((u0, v0), (u1, v1)) on the other two axes)."""
    out = []
    for ax in range(3):
        o = [k for k in range(3) if k != ax]
        rect = ((b[o[0]], b[o[1]]), (b[o[0] + 3], b[o[1] + 3]))
        out.append((ax, b[ax], -1, rect))
        out.append((ax, b[ax + 3], 1, rect))
    return out


def face_loop(face):
    """Corners of a face, counter-clockwise seen from outside."""
    ax, level, sign, ((u0, v0), (u1, v1)) = face
    loop = []
    for u, v in ((u0, v0), (u1, v0), (u1, v1), (u0, v1)):
        c = [u, v]
        c.insert(ax, level)
        loop.append(tuple(c))
    # (y, z), (z, x) and (x, y) are right-handed, but the middle axis comes as (x, z)
    right = sign if ax != 1 else -sign
    return loop if right > 0 else loop[::-1]


class Town:
    """A building of boxes with exactly known faces.

    faces: {path: face}; objects get names from a small pool, so that the same names
    appear at different levels and in different parents.
    """

    def __init__(self, spec, name="bdg"):
        self.spec = spec
        self.e = Emb(spec["emb"])
        self.name = name
        self.faces = {}
        self.solid_of = {}  # Path of a polygon -> number of the box
        self.solid_path = []
        k = spec["names"]
        zones = {}
        order = []
        for i, b in enumerate(spec["boxes"]):
            zn = NAMES[(k + spec["zone"][i]) % len(NAMES)]
            if zn not in zones:
                zones[zn] = []
                order.append(zn)
            # Names have to be unique only within the zone
            sn = NAMES[(k + 3 + len(zones[zn])) % len(NAMES)]
            zones[zn].append(self.make_solid(b, spec["group"][i], spec["start"][i], sn, f"{name}/{zn}/{sn}", i))
            self.solid_path.append(f"{name}/{zn}/{sn}")
        self.bdg = Building([Zone(zones[z], name=z) for z in order], name=name)

    def make_solid(self, b, group, start, sn, path, number):
        """Walls have one, two or all six polygons."""
        per = (1, 2, 6)[group]
        fs = box_faces(b)
        walls = []
        for w in range(0, 6, per):
            wn = NAMES[w % len(NAMES)]
            polys = []
            for j in range(w, w + per):
                loop = face_loop(fs[j])
                r = (start + j) % 4
                loop = loop[r:] + loop[:r]
                pn = FACE_NAMES[j]
                polys.append(Polygon(self.e.pts(loop), name=pn))
                self.faces[f"{path}/{wn}/{pn}"] = fs[j]
                self.solid_of[f"{path}/{wn}/{pn}"] = number
            walls.append(Wall(polys, name=wn))
        return Solid(walls, name=sn)


def relation(f, g):
    """Exact relation of two faces: facing, crossing, same, inside, touching, apart, mixed.

    "mixed" are perpendicular faces which meet also elsewhere than along both boundaries,
    or in a single point which is not a corner.
    """
    if f[0] == g[0]:
        if f[1] != g[1]:
            return "apart"
        (a, b), (c, d) = f[3], g[3]
        if f[3] == g[3]:
            return "facing" if f[2] != g[2] else "same"
        lo = [max(a[k], c[k]) for k in range(2)]
        hi = [min(b[k], d[k]) for k in range(2)]
        if any(hi[k] < lo[k] for k in range(2)):
            return "apart"
        if any(hi[k] == lo[k] for k in range(2)):
            return "touching"
        for (p, q), (r, s) in ((f[3], g[3]), (g[3], f[3])):
            if all(p[k] < r[k] and s[k] < q[k] for k in range(2)):
                return "inside"
        return "crossing"
    # Perpendicular: the intersection is a segment, a point or nothing
    bf, bg = bounds(f), bounds(g)
    lo = [max(bf[0][k], bg[0][k]) for k in range(3)]
    hi = [min(bf[1][k], bg[1][k]) for k in range(3)]
    if any(hi[k] < lo[k] for k in range(3)):
        return "apart"
    for x, bx in ((f, bf), (g, bg)):
        # Does the intersection lie on the boundary of the face?
        on = any(
            lo[k] == hi[k] and (lo[k] == bx[0][k] or lo[k] == bx[1][k])
            for k in range(3) if k != x[0]
        )
        if not on:
            return "mixed"
    if lo == hi and not any(
        all(lo[k] in (bx[0][k], bx[1][k]) for k in range(3)) for bx in (bf, bg)
    ):
        return "mixed"  # Edges cross in a point which is not a corner of any of them
    return "touching"


def bounds(f):
    lo, hi = list(f[3][0]), list(f[3][1])
    lo.insert(f[0], f[1])
    hi.insert(f[0], f[1])
    return lo, hi
