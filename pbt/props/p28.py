"""Vectors, angles, normals, rotations and tetrahedrons."""

import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.points import new_point
from building3d.geom.rotation import (
    rotate_points,
    rotate_points_around_vector,
    rotate_points_to_plane,
    rotation_matrix,
)
from building3d.geom.tetrahedrons import tetrahedron_centroid, tetrahedron_volume
from building3d.geom.triangles import triangle_area, triangle_centroid
from building3d.geom.vectors import angle, new_vector, normal

from .. import gen
from ..core import Sub, check, fail
from ..gen import Emb, tup

INT3 = st.tuples(*[st.integers(-9, 9)] * 3)
ANGLE = st.one_of(st.integers(-16, 16).map(lambda k: k * math.pi / 8), st.floats(-7, 7), st.sampled_from([1e-3, -1e-3, 1e-6, 1e-9]))


def fl(v):
    return np.array([float(c) for c in v])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


# --------------------------------------------------------------------------
@st.composite
def vector_spec(draw):
    a, b = draw(INT3), draw(INT3)
    how = draw(st.integers(0, 5))
    if how == 0:  # Parallel
        b = tuple(draw(st.sampled_from([-3, -1, 1, 2])) * c for c in a)
    return {"a": a, "b": b, "c": draw(INT3), "d": draw(INT3), "ka": draw(st.sampled_from([1, 0.25, 1e-3, 1e4])), "kb": draw(st.sampled_from([1, 4, 1e-2, 1e3]))}


def vectors(s, ctx):
    a, b, c, d = s["a"], s["b"], s["c"], s["d"]
    check(new_vector(*map(float, a)).tolist() == list(a) and new_point(*map(float, b)).tolist() == list(b), "coordinates of a new vector are wrong")
    if any(a) and any(b):
        x, y = fl(a) * s["ka"], fl(b) * s["kb"]
        cr = cross(a, b)
        want = math.atan2(math.sqrt(dot(cr, cr)), dot(a, b))
        for u, v in ((x, y), (y, x), (-x, -y)):
            got = float(angle(u, v))
            check(abs(got - want) < 1e-6, "angle is %s, expected %s", got, want)
        check(abs(float(angle(x, -y)) - (math.pi - want)) < 1e-6, "angle with the opposite vector is wrong")
        check(0 <= float(angle(x, y)) <= math.pi + 1e-15, "angle out of range")
    # Normal of three points
    n = cross(sub(b, a), sub(c, a))
    got = normal(fl(a), fl(b), fl(c))
    if not any(n):
        check(np.all(np.isnan(got)), "normal of collinear points is %s", got)
        ctx.label("collinear")
    else:
        want = fl(n) / math.sqrt(dot(n, n))
        check(np.abs(got - want).max() < 1e-9, "normal is %s, expected %s", got, want)
        check(np.abs(normal(fl(b), fl(c), fl(a)) - want).max() < 1e-9 and np.abs(normal(fl(b), fl(a), fl(c)) + want).max() < 1e-9,
              "normal depends on the first point or does not follow the order")
    # Three points of a line with inexact coordinates
    if a != b:
        t = [fl(a) / 7 + (fl(b) - fl(a)) * k for k in (0.1, 0.2, s["ka"] % 3 / 3 + 0.3)]
        for x, y, z in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
            check(np.all(np.isnan(normal(t[x], t[y], t[z]))), "normal of nearly collinear points is %s", normal(t[x], t[y], t[z]))
    area = math.sqrt(dot(n, n)) / 2
    k = 0.5
    check(abs(float(triangle_area(fl(a) * k, fl(b) * k, fl(c) * k)) - area * k * k) < 2e-5 * max(1, area), "triangle area is wrong")
    check(np.abs(triangle_centroid(fl(a), fl(b), fl(c)) - (fl(a) + fl(b) + fl(c)) / 3).max() < 1e-12, "triangle centroid is wrong")
    # Tetrahedron
    vol = F(abs(dot(sub(d, a), n)), 6)
    pts = [fl(p) for p in (a, b, c, d)]
    for order in ((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)):
        got = float(tetrahedron_volume(*[pts[i] for i in order]))
        check(abs(got - float(vol)) < 1e-9 * max(1, vol), "volume of a tetrahedron is %s, expected %s", got, float(vol))
        check(np.abs(tetrahedron_centroid(*[pts[i] for i in order]) - sum(pts) / 4).max() < 1e-12, "centroid of a tetrahedron is wrong")
    ctx.mark(any(n) and any(cross(a, b)))


# --------------------------------------------------------------------------
@st.composite
def rotation_spec(draw):
    return {"u": draw(INT3), "p": draw(ANGLE), "q": draw(ANGLE), "pts": draw(st.lists(INT3, min_size=1, max_size=draw(st.sampled_from([5, 5, 5, 40])))),
            "len": draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 2.0, 0.0]))}


def turn(v, u, phi):
    """Rotation of a vector around a unit vector."""
    par = np.dot(v, u) * u
    per = v - par
    return par + math.cos(phi) * per + math.sin(phi) * np.cross(u, per)


def rotation(s, ctx):
    if not any(s["u"]):
        return
    u = fl(s["u"]) / math.sqrt(dot(s["u"], s["u"]))
    pts = np.array([fl(p) for p in s["pts"]])
    phi, psi = s["p"], s["q"]
    want = np.array([turn(v, u, phi) for v in pts])
    if s["len"] not in (0.0, 1.0):
        try:
            rotation_matrix(u * s["len"], phi)
        except AssertionError:
            ctx.label("not a unit vector")
            return
        fail("rotation around a vector of the length %s", s["len"])
    if s["len"] == 0.0:
        got, R = rotate_points_around_vector(pts, u * 0.0, phi)
        check(np.array_equal(got, pts) and np.array_equal(R, np.eye(3)), "rotation around a zero vector moved points")
        return
    R = rotation_matrix(u, phi)
    keep = pts.copy()
    check(np.abs(R @ R.T - np.eye(3)).max() < 1e-12 and abs(np.linalg.det(R) - 1) < 1e-12, "not a rotation: %s", R.tolist())
    check(np.abs(R @ u - u).max() < 1e-12, "the axis is rotated")
    check(np.abs(rotate_points(pts, R) - want).max() < 1e-10, "rotated points are wrong")
    got, R2 = rotate_points_around_vector(pts, u, phi)
    check(np.abs(R2 - R).max() < 1e-12, "matrices differ")
    check(np.abs(got - want).max() < 1e-10, "points rotated around a vector are wrong: %s, expected %s", got.tolist(), want.tolist())
    check(np.array_equal(pts, keep), "points were changed")
    # Composition and inverse
    check(np.abs(rotation_matrix(u, psi) @ R - rotation_matrix(u, phi + psi)).max() < 1e-10, "rotations do not add up")
    check(np.abs(rotation_matrix(u, -phi) - R.T).max() < 1e-12 and np.abs(rotation_matrix(-u, phi) - R.T).max() < 1e-12, "inverse rotation is wrong")
    back, _ = rotate_points_around_vector(got, u, -phi)
    check(np.abs(back - pts).max() < 1e-10, "rotation there and back moved points")
    ctx.mark(abs(math.sin(phi)) > 1e-3)


# --------------------------------------------------------------------------
@st.composite
def plane_spec(draw):
    how = draw(st.integers(0, 4))
    return {"p": gen.convex_start(draw(gen.shape())), "emb": draw(gen.embedding(max_off=40)), "u": draw(INT3), "how": how,
            "anchor": draw(st.one_of(st.just("first"), st.just([0, 0, 0]), INT3)), "d": draw(st.sampled_from([0.0, 0.0, 1.0, -2.5, 0.125])),
            "z": draw(st.sampled_from([0, 0, 3]))}


def plane(s, ctx):
    """Points are moved rigidly, so that their plane is perpendicular to u."""
    e = Emb(s["emb"])
    pts = e.pts(tup(s["p"]), w=s["z"])
    n = e.n if np.dot(e.n, normal(pts[-1], pts[0], pts[1])) > 0 else -e.n
    if s["how"] == 0:
        u = n.copy()
    elif s["how"] == 1:
        u = -n
    elif any(s["u"]):
        u = fl(s["u"]) / math.sqrt(dot(s["u"], s["u"]))
    else:
        u = np.array([0.0, 0.0, 1.0])
    anchor = pts[0].copy() if s["anchor"] == "first" else fl(s["anchor"])
    keep = pts.copy(), anchor.copy(), u.copy()
    got, axis, phi = rotate_points_to_plane(pts, anchor, u, s["d"]) if s["d"] else rotate_points_to_plane(pts, anchor, u)
    check(all(np.array_equal(a, b) for a, b in zip(keep, (pts, anchor, u))), "arguments were changed")
    scale = max(1.0, np.abs(pts).max(), np.abs(anchor).max())
    tol = 1e-7 * scale
    m = normal(got[-1], got[0], got[1])
    check(abs(abs(np.dot(m, u)) - 1) < 1e-9, "points are not perpendicular to the vector, normal is %s", m)
    h = got @ u
    check(np.ptp(h) < tol, "points are not on one plane perpendicular to the vector")
    # Rigid motion: rotation around the anchor, then translation along u
    if abs(phi) > 1e-12:
        check(abs(np.linalg.norm(axis) - 1) < 1e-9, "rotation axis is not a unit vector")
        check(np.dot(m, u) > 0, "normal is opposite to the vector although points were rotated")
    want = np.array([(turn(p - anchor, axis, phi) if abs(phi) > 1e-12 else p - anchor) for p in pts]) + anchor + u * s["d"]
    check(np.abs(got - want).max() < tol, "points are not rotated around the anchor with the returned axis and angle")
    for i in range(len(pts)):
        check(abs(np.linalg.norm(got[i] - got[0]) - np.linalg.norm(pts[i] - pts[0])) < tol, "distances have changed")
    if s["anchor"] == "first":
        check(np.abs(got[0] - (pts[0] + u * s["d"])).max() < tol, "the anchor has moved")
    # Signed distance of the plane from the origin
    check(abs(h[0] - s["d"] - np.dot(anchor, u) - np.dot(got[0] - anchor - u * s["d"], u)) < tol, "distance of the plane is wrong")
    par = abs(abs(np.dot(n, u)) - 1) < 1e-12
    if par:
        check(np.abs(got - pts - u * s["d"]).max() < tol, "points already parallel to the plane were rotated")
    ctx.label("parallel" if par else "rotated")
    ctx.mark(not par)


SUBS = [
    Sub("vectors", vector_spec, vectors, 1500, 30000, "points not collinear, vectors not parallel"),
    Sub("rotation", rotation_spec, rotation, 1500, 30000, "a real rotation"),
    Sub("plane", plane_spec, plane, 1200, 30000, "points had to be rotated"),
]
