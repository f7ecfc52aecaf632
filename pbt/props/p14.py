"""Meshes and bounding boxes of walls, solids, zones and buildings."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.bboxes import (
    are_bboxes_overlapping,
    bounding_box,
    cube_edges,
    cube_polygons,
    is_point_inside_bbox,
)
from building3d.geom.mesh import vstack_mesh
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall

from .. import hier
from ..core import Sub, check


@st.composite
def spec(draw):
    s = draw(hier.tree(n_min=0, with_uid=False))
    s["then"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 99), st.integers(0, 99), st.booleans()), max_size=4))
    return s


def levels(bdg):
    """Every object with its polygons."""
    yield bdg, [p for _, p in hier.leaves(bdg)]
    for z in bdg.zones.values():
        yield z, [p for s in z.solids.values() for w in s.walls.values() for p in w.polygons.values()]
        for s in z.solids.values():
            yield s, [p for w in s.walls.values() for p in w.polygons.values()]
            for w in s.walls.values():
                yield w, list(w.polygons.values())
                for p in w.polygons.values():
                    yield p, [p]


def triangles(pts, tri):
    """Sorted triangles as coordinates, starting corner removed."""
    out = []
    for t in tri:
        c = [tuple(pts[i].tolist()) for i in t]
        k = c.index(min(c))
        out.append(tuple(c[k:] + c[:k]))
    return sorted(out)


def alter(bdg, s, how, i, k, same):
    """Replaces a polygon or a wall with something else (of the same name, or of another one), or adds a polygon, wall or solid."""
    walls = [w for z in bdg.zones.values() for x in z.solids.values() for w in x.walls.values()]
    if not walls:
        return
    w = walls[i % len(walls)]
    new = hier.polygon(s["polys"][k % len(s["polys"])], name="new")
    new = new if k % 3 else Polygon(new.pts + 0.5, name="new", tri=new.tri)
    if how == 0 and w.polygons:
        old = list(w.polygons)[k % len(w.polygons)]
        if same or "new" in w.polygons:
            new = Polygon(new.pts, name=old, tri=new.tri)
        w.replace_polygon(old, new)
    elif how == 1:
        w.parent.replace_wall(w.name, Wall([new], name=w.name))
    elif how == 2 and "new" not in w.polygons:
        w.add_polygon(new)
    elif how == 3 and "new" not in w.parent.parent.solids:
        w.parent.parent.add_solid(Solid([Wall([new], name="w")], name="new"))


def mesh(s, ctx):
    bdg = hier.build(s)
    n = verify(bdg)
    before = hier.build(s)
    for (_, a), (_, b) in zip(hier.leaves(bdg), hier.leaves(before)):
        check(np.array_equal(a.pts, b.pts) and np.array_equal(a.tri, b.tri), "getting the mesh changed a polygon")
    ctx.label("empty parts" if 0 in hier.count(s) or any(not ps for _, ps in levels(bdg)) else "no empty parts")
    ctx.mark(n > 2)
    for op in s["then"]:  # Always the mesh of the current polygons
        alter(bdg, s, *op)
        verify(bdg)
        ctx.label("changed")


def verify(bdg):
    n = 0
    for obj, polys in levels(bdg):
        pts, tri = obj.get_mesh()
        num = sum(len(p.pts) for p in polys)
        what = f"mesh of {type(obj).__name__}"
        check(pts.shape == (num, 3), "%s: points have the shape %s, expected %s", what, pts.shape, (num, 3))
        check(tri.ndim == 2 and tri.shape[1] == 3, "%s: triangles have the shape %s", what, tri.shape)
        check(np.issubdtype(tri.dtype, np.integer), "%s: triangles are not integers", what)
        check(len(tri) == 0 or (tri.min() >= 0 and tri.max() < num), "%s: index of a triangle out of range", what)
        want = sorted(t for p in polys for t in triangles(p.pts, p.tri))
        check(triangles(pts, tri) == want, "%s: triangles differ from those of its polygons", what)
        allp = sorted(tuple(c) for p in polys for c in p.pts.tolist())
        check(sorted(tuple(c) for c in pts.tolist()) == allp, "%s: points differ from those of its polygons", what)
        if polys:
            lo, hi = obj.bbox()
            want_lo = [min(c[k] for c in allp) for k in range(3)]
            want_hi = [max(c[k] for c in allp) for k in range(3)]
            check(lo.tolist() == want_lo and hi.tolist() == want_hi, "bounding box of %s is %s, expected %s",
                  type(obj).__name__, (lo, hi), (want_lo, want_hi))
        n = max(n, len(polys))
    return n


def large(s, ctx):
    """Many thousands of points."""
    verify(hier.strips(s))
    ctx.mark(sum(s["sizes"]) > 32767)


@st.composite
def stack_spec(draw):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        n = draw(st.integers(0, 4))
        m = draw(st.integers(0, 4)) if n else 0
        out.append({"pts": [[draw(st.integers(-9, 9)) for _ in range(3)] for _ in range(n)],
                    "tri": [[draw(st.integers(0, n - 1)) for _ in range(3)] for _ in range(m)]})
    return {"parts": out}


def stack(s, ctx):
    parts = [(np.array(p["pts"], dtype=float).reshape(-1, 3), np.array(p["tri"], dtype=np.int32).reshape(-1, 3)) for p in s["parts"]]
    pts, tri = vstack_mesh(tuple(p for p, _ in parts), tuple(t for _, t in parts))
    want_p = [c for p, _ in parts for c in p.tolist()]
    want_t = []
    off = 0
    for p, t in parts:
        want_t += [[i + off for i in r] for r in t.tolist()]
        off += len(p)
    check(pts.tolist() == want_p and pts.shape == (len(want_p), 3), "stacked points differ")
    check(tri.tolist() == want_t and tri.shape == (len(want_t), 3), "stacked triangles are %s, expected %s", tri.tolist(), want_t)
    ctx.mark(sum(len(t) > 0 for _, t in parts) > 1)


@st.composite
def box_spec(draw):
    pt = st.tuples(*[st.integers(-6, 6)] * 3)
    return {"a": draw(st.lists(pt, min_size=1, max_size=6)), "b": draw(st.lists(pt, min_size=1, max_size=4)),
            "p": draw(pt), "e": draw(st.integers(-3, 6)), "gap": draw(st.sampled_from([0, 0.25, 0.5, 1.5]))}


def boxes(s, ctx):
    u = 2.0 ** s["e"]
    a, b = np.array(s["a"], dtype=float) * u, np.array(s["b"], dtype=float) * u
    p = np.array(s["p"], dtype=float) * u
    ba, bb = bounding_box(a), bounding_box(b)
    A = [[f(c[k] for c in s["a"]) for k in range(3)] for f in (min, max)]
    B = [[f(c[k] for c in s["b"]) for k in range(3)] for f in (min, max)]
    check([x.tolist() for x in ba] == [[c * u for c in x] for x in A], "bounding box is %s", ba)
    g = s["gap"]
    for x, y, X, Y in ((ba, bb, A, B), (bb, ba, B, A)):
        want = all(X[0][k] <= Y[1][k] and Y[0][k] <= X[1][k] for k in range(3))
        check(bool(are_bboxes_overlapping(x, y)) == want, "boxes %s %s: overlapping is %s", X, Y, not want)
        # A tolerance bigger than the gap closes it
        if g:
            want = all(X[0][k] <= Y[1][k] + g and Y[0][k] <= X[1][k] + g for k in range(3))
            check(bool(are_bboxes_overlapping(x, y, atol=g * u)) == want, "boxes with the tolerance %s: %s", g, not want)
    want = all(A[0][k] - g <= s["p"][k] <= A[1][k] + g for k in range(3))
    got = is_point_inside_bbox(p, a, atol=g * u) if g else is_point_inside_bbox(p, a)
    check(bool(got) == want, "point %s in the box %s: %s", s["p"], A, got)
    # Edges and faces of a cube
    if all(A[0][k] < A[1][k] for k in range(3)):
        lo, hi = tuple(c * u for c in A[0]), tuple(c * u for c in A[1])
        corner = lambda m: tuple(hi[k] if m >> k & 1 else lo[k] for k in range(3))  # noqa: E731
        edges = {frozenset((corner(m), corner(m | 1 << k))) for m in range(8) for k in range(3) if not m >> k & 1}
        got = [frozenset(map(tuple, e)) for e in cube_edges(lo, hi).tolist()]
        check(len(got) == 12 and set(got) == edges, "edges of the cube are wrong: %s", got)
        polys = cube_polygons(lo, hi).tolist()
        faces = {frozenset(corner(m) for m in range(8) if (m >> k & 1) == v) for k in range(3) for v in (0, 1)}
        check(len(polys) == 6 and {frozenset(map(tuple, f)) for f in polys} == faces, "faces of the cube are wrong")
        for f in polys:
            f = [tuple(c) for c in f]
            check(all(frozenset((f[i - 1], f[i])) in edges for i in range(4)), "face %s does not go along edges", f)
        ctx.label("cube")
    ctx.mark(want)


SUBS = [
    Sub("mesh", spec, mesh, 1000, 10000, "an object with at least three polygons"),
    Sub("large", hier.strips_spec, large, 2, 60, "more than 32767 points"),
    Sub("stack", stack_spec, stack, 800, 20000, "at least two parts with triangles"),
    Sub("boxes", box_spec, boxes, 1200, 40000, "the point is inside the (widened) box"),
]
