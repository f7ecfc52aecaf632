"""Points: equality, collinear and coplanar points, interpolation, arrays."""

from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.points import (
    are_points_collinear,
    are_points_coplanar,
    is_point_in_array,
    is_point_on_segment,
    is_valid_pt,
    list_pts_to_array,
    many_new_points_between_2_points,
    new_point,
    new_point_between_2_points,
    point_to_hash,
    point_to_str,
    point_to_tuple,
    points_equal,
    roll_forward,
)
from building3d.geom.polygon import Polygon
from building3d.geom.types import INVALID_PT
from building3d.util.roll_back import roll_back

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup

INT3 = st.tuples(*[st.integers(-6, 6)] * 3)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def rank(pts):
    """Dimension of the smallest flat with all points (exact)."""
    rows = [[F(c) for c in sub(p, pts[0])] for p in pts[1:]]
    r = 0
    for c in range(3):
        k = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                m = rows[i][c] / rows[r][c]
                rows[i] = [x - m * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


@st.composite
def flat_spec(draw):
    """Points on a line or a plane, perhaps with repeated ones, and perhaps one somewhere else."""
    kind = draw(st.sampled_from(["point", "line", "line", "plane", "plane", "plane", "any"]))
    a, b, c = draw(INT3), draw(INT3), draw(INT3)
    n = draw(st.integers(3, 7))
    k = st.integers(-3, 3)
    pts = []
    for _ in range(n):
        s, t = draw(k), draw(k)
        if kind == "point":
            s = t = 0
        elif kind == "line":
            t = 0
        pts.append(draw(INT3) if kind == "any" else tuple(a[i] + s * b[i] + t * c[i] for i in range(3)))
    if draw(st.integers(0, 3)) == 0:
        pts[draw(st.integers(0, n - 1))] = draw(INT3)
    if draw(st.booleans()):
        pts[draw(st.integers(0, n - 1))] = pts[draw(st.integers(0, n - 1))]
    if draw(st.integers(0, 4)) == 0:  # Each point several times, or with the first one in between
        k = draw(st.integers(1, 3))
        pts = [p for p in pts for _ in range(k)] if k > 1 else [q for p in pts for q in (pts[0], p)]
    return {"pts": pts, "unit": draw(st.sampled_from([1.0, 0.5, 4.0])), "o": draw(st.tuples(*[st.integers(-40, 40)] * 3))}


def flat(s, ctx):
    pts = np.array([[s["o"][i] / 4 + s["unit"] * p[i] for i in range(3)] for p in tup(s["pts"])])
    r = rank(tup(s["pts"]))
    # Two different points are collinear, three are coplanar
    check(bool(are_points_collinear(pts)) == (r <= 1), "collinear: %s, the dimension is %s", not r <= 1, r)
    check(bool(are_points_coplanar(pts)) == (r <= 2), "coplanar: %s, the dimension is %s", not r <= 2, r)
    ctx.label(f"dimension {r}")
    ctx.mark(r < 3 and len({tuple(p) for p in tup(s["pts"])}) > r + 1)


# --------------------------------------------------------------------------
@st.composite
def equal_spec(draw):
    c = st.one_of(st.integers(-100, 100).map(float), st.floats(-1e4, 1e4), st.sampled_from([0.0, -0.0, 0.1, 1 / 3]))
    return {"p": draw(st.tuples(c, c, c)), "ax": draw(st.integers(0, 2)), "d": draw(st.sampled_from([1.0, -1.0])),
            "dec": draw(st.integers(0, 10)), "others": draw(st.lists(INT3, max_size=4)), "n": draw(st.integers(1, 6)), "in": draw(st.booleans()),
            "nan": draw(st.integers(0, 3))}


def equal(s, ctx):
    p = np.array(s["p"])
    q = p.copy()
    scale = abs(q[s["ax"]])
    # Much less and much more than the tolerance (absolute 1e-13, relative 1e-5)
    near = q.copy()
    near[s["ax"]] += s["d"] * (1e-7 * scale)
    far = q.copy()
    far[s["ax"]] += s["d"] * (1e-3 * scale + 1e-9)
    check(points_equal(p, q) and points_equal(p, near) and points_equal(near, p), "equal points are different")
    check(not points_equal(p, far) and not points_equal(far, p), "points %s and %s are equal", p, far)
    big = q.copy()
    big[s["ax"]] += s["d"] * 0.25
    check(points_equal(p, big, atol=0.5) and points_equal(big, p, atol=0.5), "absolute tolerance is ignored")
    # Tuples and hashes
    t = point_to_tuple(p, s["dec"])
    check(isinstance(t, tuple) and len(t) == 3, "tuple of a point is %s", t)
    check(all(abs(a - b) <= 0.5000001 * 10.0 ** -s["dec"] + 1e-12 * abs(b) for a, b in zip(t, p)), "rounded point is %s", t)
    check(point_to_hash(p, s["dec"]) == point_to_hash(q + 0.0, s["dec"]) == point_to_hash(np.array(t), s["dec"]), "hashes of equal points differ")
    check(hash(point_to_tuple(p)) == point_to_hash(p), "hash is not the one of the tuple")
    moved = p.copy()
    moved[s["ax"]] += s["d"] * 2 * 10.0 ** -s["dec"] * (1 if s["dec"] < 8 else 1e4)
    check(point_to_tuple(moved, s["dec"]) != t, "different points have the same tuple")
    text = point_to_str(p)
    check("%.2f" % p[0] in text and "%.2f" % p[1] in text and "%.2f" % p[2] in text, "text of a point is %s", text)
    # Validity
    bad = p.copy()
    if s["nan"] < 3:
        bad[s["nan"]] = np.nan
        check(not is_valid_pt(bad), "a point with nan is valid")
    check(is_valid_pt(p) and not is_valid_pt(INVALID_PT), "validity of points is wrong")
    # Arrays
    others = [np.array([a + 0.5 for a in o]) * 1000 for o in s["others"]]
    arr = list_pts_to_array(others + [near if s["in"] else far] + others)
    check(arr.shape == (2 * len(others) + 1, 3), "shape of an array is %s", arr.shape)
    check(all(np.array_equal(a, b) for a, b in zip(arr, others)), "points in the array differ")
    expect = s["in"] or any(points_equal(p, o) for o in others)
    check(bool(is_point_in_array(p, arr)) == expect, "point in an array: %s, expected %s", not expect, expect)
    keep = arr.copy()
    r = roll_forward(arr)
    check(np.array_equal(r, np.roll(keep, 1, axis=0)) and np.array_equal(arr, keep) and r is not arr, "points rolled forward are wrong")
    lst = arr.tolist()
    check(roll_back(lst) == lst[1:] + lst[:1] and np.array_equal(np.array(roll_back(roll_forward(arr).tolist())), keep), "list rolled back is wrong")
    ctx.mark(scale > 0)


# --------------------------------------------------------------------------
@st.composite
def between_spec(draw):
    return {"a": draw(INT3), "b": draw(INT3), "num": draw(st.integers(0, 9)), "k": draw(st.integers(-4, 12)), "o": draw(st.tuples(*[st.integers(-40, 40)] * 3))}


def between(s, ctx):
    a, b = [np.array(p) + np.array(s["o"]) / 4 for p in (s["a"], s["b"])]
    t = s["k"] / 8
    got = new_point_between_2_points(a, b, t)
    check(np.abs(got - (a + (b - a) * t)).max() < 1e-12, "point at %s is %s", t, got)
    n = s["num"]
    many = many_new_points_between_2_points(a, b, n)
    check(many.shape == (n + 2, 3), "shape is %s", many.shape)
    check(np.array_equal(many[0], a) and np.array_equal(many[-1], b), "the ends have changed")
    for i in range(n + 2):
        check(np.abs(many[i] - (a + (b - a) * (i / (n + 1)))).max() < 1e-12, "point %s of %s is %s", i, n, many[i])
    if np.abs(b - a).max() > 0:
        check(bool(is_point_on_segment(got, a, b)) == (0 <= t <= 1), "point at %s is on the segment: %s", t, not 0 <= t <= 1)
    ctx.mark(n > 0 and s["a"] != s["b"])


# --------------------------------------------------------------------------
@st.composite
def same_spec(draw):
    return {"p": gen.convex_start(draw(gen.shape())), "q": gen.convex_start(draw(gen.shape())), "emb": draw(gen.embedding(max_off=40)), "k": draw(st.integers(0, 9)),
            "how": draw(st.sampled_from(["same", "rolled", "reversed", "moved", "corner", "other"])), "d": draw(st.sampled_from([1.0, 0.01]))}


def same(s, ctx):
    """Equality of polygons: the same corners in the same order, whatever the names."""
    e = Emb(s["emb"])
    p = tup(s["p"])
    a = Polygon(e.pts(p), name="a")
    pts = e.pts(p)
    how = s["how"]
    if how == "same":
        b = pts
    elif how == "rolled":
        b = e.pts(gen.convex_start(p, s["k"]))
    elif how == "reversed":
        b = e.pts(gen.convex_start(p[::-1], s["k"]))
    elif how == "moved":
        b = pts + np.array([s["d"] * (1 + abs(pts).max()), 0.0, 0.0])
    elif how == "corner":  # One more corner in the middle of a side
        i = s["k"] % len(p)
        b = np.insert(pts, i + 1, (pts[i] + pts[(i + 1) % len(p)]) / 2, axis=0)
    else:
        b = e.pts(tup(s["q"]))
        if geo.normalize_loop(tup(s["q"])) == geo.normalize_loop(p):
            how = "rolled"
    b = Polygon(b, name="b")
    check((a == b) == (b == a), "comparison depends on the order")
    want = how == "same" or np.array_equal(a.pts, b.pts)
    check(how == "rolled" or (a == b) == want, "polygons (%s) are %s", how, "different" if want else "equal")
    check(a == a and a != "x", "comparison with itself or a text is wrong")
    ctx.label(how)
    ctx.mark()


SUBS = [
    Sub("flat", flat_spec, flat, 2500, 50000, "more points than needed to define the line or plane"),
    Sub("equal", equal_spec, equal, 1500, 30000, "coordinate is not zero"),
    Sub("between", between_spec, between, 800, 20000, "new points between two different ones"),
    Sub("same", same_spec, same, 800, 20000, "always"),
]
