"""The surface a ray is going to hit."""

from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from building3d.geom.polygon import Polygon
from building3d.sim.rays.find_target import find_target_surface

from .. import gen, geo
from ..core import Sub, check
from ..gen import Emb, tup


@st.composite
def layers_spec(draw):
    """Parallel polygons at different levels."""
    n = draw(st.integers(1, 5))
    levels = draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n, unique=True))
    polys = [{"p": gen.convex_start([(8 * x + dx, 8 * y + dy) for x, y in draw(gen.shape())]), "w": 8 * w, "rev": draw(st.booleans())}
             for w, dx, dy in [(w, draw(st.integers(-20, 20)), draw(st.integers(-20, 20))) for w in levels]]
    for k in draw(st.sets(st.integers(0, n - 1), max_size=2)):  # The other side of the same wall
        polys.append({**polys[k], "rev": not polys[k]["rev"]})
    n = len(polys)
    polys = draw(st.permutations(polys))
    nums = st.sets(st.integers(0, n - 1))
    return {
        "polys": polys, "emb": draw(gen.embedding(max_off=40)),
        "pos": draw(st.tuples(st.integers(-60, 60), st.integers(-60, 60), st.integers(-70, 70))),
        "dir": draw(st.tuples(st.integers(-2, 2), st.integers(-2, 2), st.sampled_from([-3, -2, -1, -1, 1, 1, 2, 3]))),
        "len": draw(st.sampled_from([0.5, 1.0, 343.0])),
        "skip": draw(st.one_of(st.just([]), nums.map(sorted))), "only": draw(st.one_of(st.none(), st.none(), nums.map(sorted))),
        "aim": draw(st.integers(0, 6)), "away": draw(st.integers(0, 3)) > 0,
    }


def layers(s, ctx):
    e = Emb(s["emb"])
    polys = []
    for q in s["polys"]:
        p = tup(q["p"])
        polys.append(Polygon(e.pts(gen.convex_start(p[::-1]) if q["rev"] else p, w=q["w"])))
    x, y, w = s["pos"]
    d = list(s["dir"])
    if s["away"]:  # All levels ahead
        d[2] = 1 if d[2] > 0 else -1
        w = -68 * d[2]
    k = s["aim"]
    if k < len(polys):  # Through a polygon
        q = s["polys"][k]
        t = F(q["w"] - w, d[2])
        p = tup(q["p"])
        tr = geo.ears(p if geo.area2(p) > 0 else p[::-1])[0]
        c = [sum(v[i] for v in tr) // 3 for i in range(2)]
        if t.denominator == 1:
            x, y = c[0] - int(t) * d[0], c[1] - int(t) * d[1]
    hits = {}
    for n, q in enumerate(s["polys"]):
        t = F(q["w"] - w, d[2])
        if t == 0:
            ctx.label("on a surface")
            return
        pt = (x + t * d[0], y + t * d[1])
        p = tup(q["p"])
        if min(geo.dist2_point_segment(pt, p[i - 1], p[i]) for i in range(len(p))) < F(1, 16):
            ctx.label("boundary")
            return
        if t > 0 and geo.locate(pt, p) > 0:
            hits[n] = t
    check_set = set(range(len(polys))) if s["only"] is None else set(s["only"])
    skip = set(s["skip"])
    pos = e.pt(x, y, w)
    vec = (e.pt(*d) - e.pt(0, 0, 0))
    vec = vec / np.linalg.norm(vec) * s["len"]
    pts, tri = [p.pts for p in polys], [p.tri for p in polys]
    cand = {n: t for n, t in hits.items() if n in check_set and n not in skip}
    got = int(find_target_surface(pos, vec, pts, tri, skip or {-1}, check_set or {-1}, atol=1e-6))
    if not cand:
        check(got == -1, "surface %s reported, although none is ahead (hits %s)", got, sorted(hits))
    else:
        check(got in cand, "surface %s reported, candidates are %s", got, sorted(cand))
        # Out of two sides of a wall, the one of the room in which the ray is
        first = min(cand, key=lambda n: (cand[n], float(np.dot(polys[n].vn, vec)) < 0))
        check(got == first, "surface %s reported, but %s is hit first", got, first)
        ctx.label("several" if len(cand) > 1 else "one")
        if sum(t == cand[first] for t in cand.values()) > 1:
            ctx.label("both sides of a wall")
    ctx.mark(len(cand) > 1 or (bool(cand) and len(hits) > len(cand)))


@st.composite
def room_spec(draw):
    p = draw(gen.shape())
    if geo.area2(p) < 0:
        p = p[::-1]
    tr = draw(st.sampled_from(geo.ears(p)))
    a = draw(st.integers(1, 6))
    b = draw(st.integers(1, 7 - a))
    return {"p": p, "h": draw(st.integers(1, 4)), "emb": draw(gen.embedding(max_off=40)),
            "q": [(a * tr[0][i] + b * tr[1][i] + (8 - a - b) * tr[2][i]) for i in range(2)], "z": draw(st.integers(1, 7)),
            "dir": draw(st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.one_of(st.integers(-1, 1), st.integers(-9, 9))))}


def room(s, ctx):
    """Each ray inside of a prism with any outline hits the first surface on its way."""
    p = [(8 * x, 8 * y) for x, y in tup(s["p"])]
    n = len(p)
    h = 8 * s["h"]
    e = Emb(s["emb"])
    q, z, d = s["q"], s["h"] * s["z"], s["dir"]
    if not any(d) or geo.locate(tuple(q), p) <= 0:
        return
    start = gen.convex_start(p)
    faces = [[(*c, 0) for c in gen.convex_start(p[::-1])], [(*c, h) for c in start]]
    hits = []
    for level in (0, h):
        t = F(level - z, d[2]) if d[2] else F(-1)
        pt = (q[0] + t * d[0], q[1] + t * d[1])
        near = min(geo.dist2_point_segment(pt, p[i - 1], p[i]) for i in range(n)) < F(1, 16)
        hits.append((t, 0 if t <= 0 else None if near else geo.locate(pt, p) > 0))
    for i in range(n):
        a, b = p[i - 1], p[i]
        faces.append([(*a, 0), (*b, 0), (*b, h), (*a, h)])
        nx, ny = b[1] - a[1], a[0] - b[0]  # Outward
        den = nx * d[0] + ny * d[1]
        t = F(nx * (a[0] - q[0]) + ny * (a[1] - q[1]), den) if den else F(-1)
        x, y = q[0] + t * d[0], q[1] + t * d[1]
        ll = nx * nx + ny * ny
        k = F((x - a[0]) * -ny + (y - a[1]) * nx, ll)  # Position along the side
        up = z + t * d[2]
        inside = 0 <= k <= 1 and 0 <= up <= h
        m = min(abs(up), abs(h - up), *[abs(v) * max(abs(nx), abs(ny)) for v in (k, 1 - k)])
        out = not inside and (k < -1 or k > 2 or up < -h or up > 2 * h)
        hits.append((t, 0 if t <= 0 or out else None if m < F(1, 4) else inside))
    ahead = sorted((t, k) for k, (t, w) in enumerate(hits) if w)
    if not ahead or any(w is None and t <= ahead[0][0] for t, w in hits):
        ctx.label("close to an edge")
        return
    k = ahead[0][1]
    polys = [Polygon(e.pts(f)) for f in faces]
    vec = e.pt(*d) - e.pt(0, 0, 0)
    nrm = vec / np.linalg.norm(vec)
    if any(0 < abs(float(np.dot(nrm, x.vn))) < 2e-3 for x in polys):
        return
    got = int(find_target_surface(e.pt(*q, z), nrm * 2.0, [x.pts for x in polys], [x.tri for x in polys], {-1},
                                  set(range(len(polys))), atol=1e-6))
    check(got == k, "surface %s reported, the ray hits %s", got, k)
    ctx.label("floor or ceiling" if k < 2 else "side")
    if len(ahead) > 1:
        ctx.label("others behind")
    ctx.mark()


SUBS = [
    Sub("layers", layers_spec, layers, 2500, 60000, "several surfaces ahead, or some of those ahead are transparent or not to be checked"),
    Sub("room", room_spec, room, 2000, 20000, "a ray from inside of a prism, not towards an edge"),
]
