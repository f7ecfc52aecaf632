"""Hypothesis strategies producing JSON-serialisable specs, and their embedding."""

import math

import numpy as np
from hypothesis import strategies as st

from . import geo

DIRS = [
    (3, 0), (3, 1), (2, 1), (3, 2), (1, 1), (2, 3), (1, 2), (1, 3), (0, 3),
    (-1, 3), (-1, 2), (-2, 3), (-1, 1), (-3, 2), (-2, 1), (-3, 1), (-3, 0),
    (-3, -1), (-2, -1), (-3, -2), (-1, -1), (-2, -3), (-1, -2), (-1, -3),
    (0, -3), (1, -3), (1, -2), (2, -3), (1, -1), (3, -2), (2, -1), (3, -1),
]


# --------------------------------------------------------------------------
# Simple polygons on the integer grid, always counter-clockwise
# --------------------------------------------------------------------------
@st.composite
def histogram(draw, max_cols=5):
    k = draw(st.integers(1, max_cols))
    cols = draw(
        st.lists(
            st.tuples(st.integers(1, 4), st.integers(-3, 0), st.integers(1, 6)),
            min_size=k, max_size=k,
        )
    )
    lower, upper = [], []
    x = 0
    for w, lo, hi in cols:
        lower += [(x, lo), (x + w, lo)]
        upper += [(x, hi), (x + w, hi)]
        x += w
    return lower + upper[::-1]


@st.composite
def monotone(draw, max_pts=5):
    n = draw(st.integers(2, max_pts))
    xs = [0]
    for dx in draw(st.lists(st.integers(1, 4), min_size=n - 1, max_size=n - 1)):
        xs.append(xs[-1] + dx)
    lo = draw(st.lists(st.integers(-6, 0), min_size=n, max_size=n))
    hi = draw(st.lists(st.integers(1, 7), min_size=n, max_size=n))
    keep = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    lower = [(xs[i], lo[i]) for i in range(n) if i in (0, n - 1) or keep[i] & 1 or keep[i] == 0]
    upper = [(xs[i], hi[i]) for i in range(n) if i in (0, n - 1) or keep[i] & 2 or keep[i] == 0]
    return lower + upper[::-1]


@st.composite
def star(draw, max_pts=9):
    n = draw(st.integers(3, max_pts))
    idx = sorted(draw(st.sets(st.integers(0, len(DIRS) - 1), min_size=n, max_size=n)))
    half = len(DIRS) // 2
    # Make sure that consecutive directions are less than 180 degrees apart
    full = []
    for i, a in enumerate(idx):
        b = idx[(i + 1) % len(idx)]
        gap = (b - a) % len(DIRS) or len(DIRS)
        full.append(a)
        while gap >= half:
            a = (a + 10) % len(DIRS)
            gap -= 10
            full.append(a)
    r = draw(st.lists(st.integers(1, 4), min_size=len(full), max_size=len(full)))
    return [(DIRS[i][0] * k, DIRS[i][1] * k) for i, k in zip(full, r)]


@st.composite
def convex(draw, max_pts=9):
    pts = draw(
        st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=3, max_size=max_pts)
    )
    hull = geo.convex_hull(pts)
    if len(hull) < 3:
        return [(0, 0), (4, 0), (1, 3)]
    return hull


@st.composite
def spiral(draw):
    """C, G and S like corridors of width 1 or more."""
    a = draw(st.integers(1, 3))
    b = draw(st.integers(1, 3))
    c = draw(st.integers(1, 3))
    d = draw(st.integers(1, 3))
    kind = draw(st.integers(0, 2))
    if kind == 0:  # C
        return [(0, 0), (a + b + 2, 0), (a + b + 2, c), (a, c), (a, c + d),
                (a + b + 1, c + d), (a + b + 1, c + d + 2), (0, c + d + 2)]
    if kind == 1:  # S
        w = a + b + 2
        return [(0, 0), (w, 0), (w, c + d + 2), (b, c + d + 2), (b, c + d + 1),
                (w - 1, c + d + 1), (w - 1, c + 1), (0, c + 1)]
    # G, the corridor turns inside
    w, h = 4 + a + b, 4 + c + d
    return [(0, 0), (w, 0), (w, h - 2), (2, h - 2), (2, h - 3), (w - 1, h - 3),
            (w - 1, 1), (1, 1), (1, h), (0, h)]


@st.composite
def scoop(draw, max_edges=6):
    """A long concave side (all its corners reflex), seen from one or two corners below."""
    k = draw(st.integers(2, max_edges))
    slopes = sorted(draw(st.sets(st.integers(-4, 4), min_size=k, max_size=k)))
    x, y = 0, 0
    chain = [(0, 0)]
    for sl in slopes:
        x, y = x + 1, y + sl
        chain.append((x, y))
    lines = [(chain[i], slopes[i]) for i in range(k)]
    if draw(st.booleans()):
        ax = draw(st.integers(0, x))
        ay = min(py + sl * (ax - px) for (px, py), sl in lines) - draw(st.integers(1, 3))
        return [(ax, ay)] + chain[::-1]
    ay = min(min(py + sl * (a - px) for (px, py), sl in lines) for a in (0, x)) - draw(st.integers(1, 3))
    return [(0, ay), (x, ay)] + chain[::-1]


def rect2d():
    return st.tuples(st.integers(1, 8), st.integers(1, 8)).map(
        lambda t: [(0, 0), (t[0], 0), (t[0], t[1]), (0, t[1])]
    )


def triangle2d():
    return st.tuples(st.integers(1, 8), st.integers(-5, 9), st.integers(1, 8)).map(
        lambda t: [(0, 0), (t[0], 0), (t[1], t[2])]
    )


@st.composite
def shape(draw, straight=False, skew=True, kinds=None):
    """A counter-clockwise simple polygon as a list of (x, y) integer tuples.

    Outlines with long concave sides ("scoop") have very sharp corners and are used only if asked for.
    """
    table = {
        "rect": rect2d(),
        "tri": triangle2d(),
        "convex": convex(),
        "hist": histogram(),
        "mono": monotone(),
        "star": star(),
        "spiral": spiral(),
        "scoop": scoop(),
    }
    pool = [table[k] for k in (kinds or [k for k in table if k != "scoop"])]
    poly = draw(st.one_of(pool))
    if skew and draw(st.integers(0, 3)) == 3:
        k = draw(st.integers(-2, 2))
        poly = [(x + k * y, y) for x, y in poly]
    t = draw(st.integers(0, 7))
    if t & 1:
        poly = [(-x, y) for x, y in poly][::-1]
    if t & 2:
        poly = [(y, -x) for x, y in poly]
    if t & 4:
        poly = [(-x, -y) for x, y in poly]
    poly = geo.drop_straight(poly)
    if straight:
        # Insert straight corners on a few edges
        poly = [(2 * x, 2 * y) for x, y in poly]
        m = draw(st.integers(1, (1 << len(poly)) - 1))
        out = []
        for i, p in enumerate(poly):
            out.append(p)
            if m >> i & 1:
                q = poly[(i + 1) % len(poly)]
                out.append(((p[0] + q[0]) // 2, (p[1] + q[1]) // 2))
        poly = out
    r = draw(st.integers(0, len(poly) - 1))
    poly = poly[r:] + poly[:r]
    return poly


def convex_start(poly, k=0):
    """Rotates the vertex list, so that it starts with the k-th convex corner."""
    n = len(poly)
    s = 1 if geo.area2(poly) > 0 else -1
    conv = [i for i in range(n) if geo.corner_sign(poly, i) * s > 0]
    i = conv[k % len(conv)]
    return poly[i:] + poly[:i]


# --------------------------------------------------------------------------
# Embedding in 3D
# --------------------------------------------------------------------------
@st.composite
def embedding(draw, axis_only=False, max_off=40, decimals=True):
    """Exact placement in space: an integer frame, a dyadic unit, a dyadic origin."""
    if axis_only or draw(st.booleans()):
        f = geo.FRAMES.index(draw(st.sampled_from(geo.AXIS_FRAMES)))
    else:
        f = draw(st.integers(0, len(geo.FRAMES) - 1))
    e = draw(st.integers(0, 3))
    off = st.integers(-max_off, max_off)
    o = draw(st.tuples(off, off, off))
    return {"f": f, "e": e, "o": list(o)}


class Emb:
    """Maps integer (x, y, w) coordinates to exactly representable 3D points."""

    def __init__(self, spec):
        self.s, self.u, self.v, self.w = geo.FRAMES[spec["f"]]
        self.unit = 2.0 ** -(spec["e"] + (0 if self.s == 1 else 2))
        self.o = [c / 4 for c in spec["o"]]
        self.scale = self.s * self.unit
        self.n = np.array(self.w, dtype=float) / self.s
        self.un = np.array(self.u, dtype=float) / self.s
        self.vn = np.array(self.v, dtype=float) / self.s

    def pt(self, x, y, w=0):
        return np.array(
            [
                self.o[i] + float(self.unit * (x * self.u[i] + y * self.v[i] + w * self.w[i]))
                for i in range(3)
            ]
        )

    def pts(self, poly, w=0):
        return np.array([self.pt(p[0], p[1], p[2] if len(p) > 2 else w) for p in poly])


def tup(lst):
    return [tuple(p) for p in lst]


def unit_vec(a, b):
    """Direction from two angles (used for free directions)."""
    return np.array([math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)])


ALL_KINDS = ["rect", "tri", "convex", "hist", "mono", "star", "spiral", "scoop"]
