"""Helpers shared by the property modules (imports the library under test)."""

import logging
import warnings

import numpy as np

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
np.seterr(all="ignore")

from building3d.geom.polygon import Polygon  # noqa: E402

from . import geo  # noqa: E402
from .core import check  # noqa: E402
from .gen import Emb, tup  # noqa: E402


def close(a, b, rtol=1e-9, atol=1e-9):
    """Component-wise closeness, False for NaN and for different shapes."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def rows(a):
    """Array of points as a list of tuples rounded well below any distance in use."""
    return [tuple(round(float(c), 7) + 0.0 for c in p) for p in np.asarray(a)]


def row(p):
    return rows([p])[0]


def same_loop(a, b):
    """True if two vertex loops are equal up to the starting corner."""
    a, b = rows(a), rows(b)
    return len(a) == len(b) and geo.normalize_loop(a) == geo.normalize_loop(b)


def loop_normal(pts):
    """Unit normal of a planar loop by the right-hand rule (Newell), and its area."""
    pts = np.asarray(pts, dtype=float)
    p = pts - pts[0]
    tot = np.zeros(3)
    for i in range(len(p)):
        tot += np.cross(p[i], p[(i + 1) % len(p)])
    a = float(np.linalg.norm(tot))
    return tot / a if a > 0 else tot, a / 2


def tri_area(a, b, c):
    return float(np.linalg.norm(np.cross(np.asarray(b) - a, np.asarray(c) - a))) / 2


def build_polygon(poly, emb, **kw):
    """Polygon of the library from 2D integer corners."""
    e = emb if isinstance(emb, Emb) else Emb(emb)
    return Polygon(e.pts(tup(poly)), **kw)


def poly_state_ok(p, what="polygon"):
    """Internal consistency of a polygon object as seen from its public attributes."""
    n, a = loop_normal(p.pts)
    check(close(p.vn, n, atol=1e-6), f"{what}: normal is not right-handed with its corners")
    check(close(p.area, a, rtol=1e-6), f"{what}: area {p.area} differs from its corners' area {a}")
    t = sum(tri_area(*[p.pts[i] for i in tr]) for tr in p.tri)
    check(close(t, a, rtol=1e-6), f"{what}: triangles cover {t} instead of {a}")
