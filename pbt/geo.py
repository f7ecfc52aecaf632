"""Exact reference geometry used by the oracles.

Everything here works on integers or Fractions, is written independently of
building3d, and prefers obvious algorithms over fast ones.
"""

from fractions import Fraction
from math import gcd


# --------------------------------------------------------------------------
# 2D primitives
# --------------------------------------------------------------------------
def orient(a, b, c):
    """Twice the signed area of the triangle a, b, c."""
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sgn(x):
    return (x > 0) - (x < 0)


def dot2(a, b):
    return a[0] * b[0] + a[1] * b[1]


def sub2(a, b):
    return (a[0] - b[0], a[1] - b[1])


def on_segment(p, a, b):
    """True if p lies on the closed segment a-b."""
    return (
        orient(a, b, p) == 0
        and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def segments_intersect(a, b, c, d):
    """True if the closed segments a-b and c-d share at least one point."""
    o1, o2 = sgn(orient(a, b, c)), sgn(orient(a, b, d))
    o3, o4 = sgn(orient(c, d, a)), sgn(orient(c, d, b))
    if o1 != o2 and o3 != o4:
        return True
    return (
        on_segment(c, a, b)
        or on_segment(d, a, b)
        or on_segment(a, c, d)
        or on_segment(b, c, d)
    )


def proper_cross(a, b, c, d):
    """True if the open segments cross at one point interior to both."""
    return (
        sgn(orient(a, b, c)) * sgn(orient(a, b, d)) < 0
        and sgn(orient(c, d, a)) * sgn(orient(c, d, b)) < 0
    )


def seg_point(a, b, c, d):
    """Exact intersection of the lines a-b and c-d, None if they are parallel."""
    r = sub2(b, a)
    s = sub2(d, c)
    den = r[0] * s[1] - r[1] * s[0]
    if den == 0:
        return None
    q = sub2(c, a)
    t = Fraction(q[0] * s[1] - q[1] * s[0], den)
    return (a[0] + t * r[0], a[1] + t * r[1])


def area2(poly):
    """Twice the signed area (positive when counter-clockwise)."""
    n = len(poly)
    return sum(
        poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1]
        for i in range(n)
    )


def is_simple(poly):
    """True if the polygon has no repeated vertices, no self contact, no spikes."""
    n = len(poly)
    if n < 3 or len(set(poly)) != n:
        return False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = poly[j], poly[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                # Neighbouring edges share exactly one vertex
                p, q, r = (a, b, d) if j == i + 1 else (c, d, b)
                if orient(p, q, r) == 0 and dot2(sub2(p, q), sub2(r, q)) > 0:
                    return False  # Spike
                continue
            if segments_intersect(a, b, c, d):
                return False
    return area2(poly) != 0


def corner_sign(poly, i):
    """1 convex, -1 reflex, 0 straight (for a counter-clockwise polygon)."""
    n = len(poly)
    return sgn(orient(poly[i - 1], poly[i], poly[(i + 1) % n]))


def locate(p, poly):
    """1 strictly inside, 0 on the boundary, -1 outside. Exact crossing number."""
    n = len(poly)
    inside = False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                inside = not inside
    return 1 if inside else -1


def in_triangle(p, a, b, c):
    """True if p is in the closed triangle a, b, c."""
    s = [sgn(orient(a, b, p)), sgn(orient(b, c, p)), sgn(orient(c, a, p))]
    return not (min(s) < 0 and max(s) > 0)


def ears(poly):
    """Independent ear clipping of a counter-clockwise simple polygon."""
    idx = list(range(len(poly)))
    out = []
    while len(idx) > 3:
        for k in range(len(idx)):
            i, j, m = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = poly[i], poly[j], poly[m]
            o = orient(a, b, c)
            if o < 0:
                continue
            if o == 0:
                idx.pop(k)  # Straight corner contributes nothing
                break
            if any(
                in_triangle(poly[q], a, b, c) and poly[q] not in (a, b, c)
                for q in idx
                if q not in (i, j, m)
            ):
                continue
            out.append((a, b, c))
            idx.pop(k)
            break
        else:
            raise ValueError("no ear found")
    a, b, c = (poly[q] for q in idx)
    if orient(a, b, c) != 0:
        out.append((a, b, c))
    return out


def clip_convex(subject, clipper):
    """Intersection of two counter-clockwise convex polygons (Fractions)."""
    out = [(Fraction(x), Fraction(y)) for x, y in subject]
    n = len(clipper)
    for i in range(n):
        a, b = clipper[i], clipper[(i + 1) % n]
        inp, out = out, []
        for k in range(len(inp)):
            p, q = inp[k - 1], inp[k]
            op, oq = orient(a, b, p), orient(a, b, q)
            if oq >= 0:
                if op < 0:
                    out.append(seg_point(a, b, p, q))
                out.append(q)
            elif op >= 0:
                if op > 0:
                    out.append(seg_point(a, b, p, q))
        if not out:
            return []
    return out


def overlap_area2(p1, p2):
    """Twice the area of the intersection of two simple polygons."""
    if area2(p1) < 0:
        p1 = p1[::-1]
    if area2(p2) < 0:
        p2 = p2[::-1]
    tot = Fraction(0)
    e2 = ears(p2)
    for t1 in ears(p1):
        for t2 in e2:
            c = clip_convex(t1, t2)
            if len(c) >= 3:
                tot += area2(c)
    return tot


def centroid(poly):
    """Exact centre of mass of a simple polygon."""
    n = len(poly)
    a = area2(poly)
    cx = cy = 0
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        w = p[0] * q[1] - q[0] * p[1]
        cx += (p[0] + q[0]) * w
        cy += (p[1] + q[1]) * w
    return (Fraction(cx, 3 * a), Fraction(cy, 3 * a))


def dist2_point_segment(p, a, b):
    """Exact squared distance from p to the closed segment a-b (any dimension)."""
    ab = [y - x for x, y in zip(a, b)]
    ap = [y - x for x, y in zip(a, p)]
    den = sum(x * x for x in ab)
    t = Fraction(sum(x * y for x, y in zip(ab, ap)), den)
    t = max(Fraction(0), min(Fraction(1), t))
    return sum((y - t * x) ** 2 for x, y in zip(ab, ap))


def normalize_loop(pts):
    """Rotation-invariant canonical form of a vertex loop (orientation kept)."""
    n = len(pts)
    k = min(range(n), key=lambda i: tuple(pts[i:]) + tuple(pts[:i]))
    return tuple(pts[k:]) + tuple(pts[:k])


def drop_straight(poly):
    """Removes straight corners."""
    out = list(poly)
    i = 0
    while i < len(out) and len(out) > 3:
        if orient(out[i - 1], out[i], out[(i + 1) % len(out)]) == 0:
            out.pop(i)
            i = 0
        else:
            i += 1
    return out


def convex_hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    lo = []
    for p in pts:
        while len(lo) >= 2 and orient(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    up = []
    for p in reversed(pts):
        while len(up) >= 2 and orient(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


# --------------------------------------------------------------------------
# Integer orthogonal frames: u, v, w mutually orthogonal, equal length, w = u x v / len
# --------------------------------------------------------------------------
def cross3(a, b):
    return (
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    )


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


_BASES = [
    (1, (1, 0, 0), (0, 1, 0)),
    (5, (3, 4, 0), (-4, 3, 0)),
    (3, (1, 2, 2), (2, 1, -2)),
    (7, (2, 3, 6), (3, -6, 2)),
    (9, (1, 4, 8), (4, 7, -4)),
]


def _signed_perms():
    out = []
    for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
        for s in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1),
                  (-1, -1, 1), (-1, 1, -1), (1, -1, -1), (-1, -1, -1)):
            out.append((p, s))
    return out


def _frames():
    frames = []
    seen = set()
    for s, u, v in _BASES:
        for p, sg in _signed_perms():
            uu = tuple(sg[i] * u[p[i]] for i in range(3))
            vv = tuple(sg[i] * v[p[i]] for i in range(3))
            ww = cross3(uu, vv)
            ww = tuple(c // s for c in ww)
            key = (uu, vv)
            if key in seen:
                continue
            seen.add(key)
            frames.append((s, uu, vv, ww))
    return frames


FRAMES = _frames()
AXIS_FRAMES = [f for f in FRAMES if f[0] == 1]
for _s, _u, _v, _w in FRAMES:
    assert dot3(_u, _v) == 0 and dot3(_u, _u) == dot3(_v, _v) == dot3(_w, _w) == _s * _s
    assert dot3(_u, _w) == 0 and dot3(_v, _w) == 0
