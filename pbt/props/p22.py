"""Rays in buildings: movement, reflections, energy and absorbers, compared step by step with a reference."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from .. import bld, gen, geo, simu
from ..core import Sub, check
from ..gen import tup
from ..simu import EPS, MARGIN, Doubt, Face

# Some leave very little of the energy after one or a few reflections
ABSORB = [0.0, 0.0625, 0.1, 0.2, 0.25, 0.3, 0.5, 1.0, 0.9999, 0.499995, 0.24999, 0.0999999]


def judge(ctx, states, cfg, faces, scale, in_room):
    """Compares each step of each ray with the reference."""
    pos, enr, hit = states
    dt, speed = cfg.engine["time_step"], cfg.rays["ray_speed"]
    step = speed * dt
    reflection = step * MARGIN
    voxel = cfg.engine["voxel_size"]
    source = np.array(cfg.rays["source"])
    absorbers = [np.array(a) for a in cfg.rays["absorbers"]]
    r = cfg.rays["absorber_radius"]
    n, rays = cfg.engine["num_steps"], cfg.rays["num_rays"]
    check(pos.shape == (n + 1, rays, 3) and enr.shape == (n + 1, rays) and hit.shape == (n + 1, len(absorbers)),
          "shapes of states %s %s %s", pos.shape, enr.shape, hit.shape)
    check(np.all(pos[0] == source) and np.all(enr[0] == 1.0) and np.all(hit[0] == 0.0), "wrong initial state")
    margin = 0.004 * max(1.0, scale)
    tol = 1e-9 * max(1.0, float(np.abs(pos).max()))
    seen = {"reflected": 0, "absorbed": 0, "doubt": 0, "died": 0, "moved": 0}

    for i in range(n):
        want = np.zeros(len(absorbers))
        either = 0.0  # Energy of rays which are in more than one absorber
        loose = False
        for k in range(rays):
            p, q, e0, e1 = pos[i, k], pos[i + 1, k], enr[i, k], enr[i + 1, k]
            check(np.all(np.isfinite(q)) and in_room(q), "step %s, ray %s is out of the room: %s", i + 1, k, q)
            check(0.0 <= e1 <= e0, "step %s, energy of the ray %s changed from %s to %s", i + 1, k, e0, e1)
            if e0 <= EPS:
                check(np.all(p == q) and e1 == e0, "step %s, ray %s without energy has changed", i + 1, k)
                continue
            dist = [np.linalg.norm(p - a) for a in absorbers]
            if any(abs(d - r) < 1e-9 for d in dist):
                loose = True
                seen["doubt"] += 1
                continue
            inside = [m for m, d in enumerate(dist) if d < r]
            if inside:
                check(np.all(p == q) and e1 == 0.0, "step %s, ray %s is in an absorber, but was not absorbed", i + 1, k)
                if len(inside) == 1:
                    want[inside[0]] += e0
                else:
                    either += e0
                seen["absorbed"] += 1
                continue
            if i == 0:
                # Direction is not known before the first step. All surfaces are far away.
                check(abs(np.linalg.norm(q - p) - step) < tol and e1 == e0, "first step of the ray %s is wrong", k)
                continue
            v = (p - pos[i - 1, k]) / dt
            check(abs(np.linalg.norm(v) - speed) < tol / dt, "step %s, velocity of the ray %s is %s", i, k, v)
            try:
                f = simu.target(faces, p, v, margin)
                if f.distance(p) > voxel and any(g is not f and any(g.hit(p, v, margin)[1:]) and g.distance(p) < reflection * 1.001 for g in faces):
                    raise Doubt  # The surface is too far to be noticed
                want_p, _, want_e, refl = simu.advance(faces, p, v, e0, dt, reflection, margin)
            except Doubt:
                seen["doubt"] += 1
                moved = np.linalg.norm(q - p)
                check(abs(moved - step) < tol if e1 > EPS else moved == 0.0, "step %s, ray %s moved by %s", i + 1, k, moved)
                continue
            check(np.abs(q - want_p).max() < tol and abs(e1 - want_e) < 1e-9,
                  "step %s, ray %s: position %s and energy %s, expected %s and %s", i + 1, k, q, e1, want_p, want_e)
            seen["reflected"] += refl
            seen["died"] += want_e == 0.0
            seen["moved"] += 1
        if not loose:
            got = hit[i + 1]
            check(np.all(got >= want - 1e-9) and abs(got.sum() - want.sum() - either) < 1e-9,
                  "step %s, absorbers got %s, expected %s (and %s shared)", i + 1, got, want, either)
            check(either > 0 or np.abs(got - want).max(initial=0.0) < 1e-9, "step %s, absorbers got %s, expected %s", i + 1, got, want)
    return seen


@st.composite
def common(draw):
    batch = draw(st.sampled_from([1, 3, 8, 12]))
    long = draw(st.integers(0, 19)) == 19
    return {
        "step": draw(st.sampled_from([0.24, 0.2, 0.13])), "batch": batch, "batches": 110 // batch if long else max(1, 24 // batch),
        "rays": 1 if long else draw(st.integers(1, 5)), "speed": draw(st.sampled_from([1.0, 343.0])), "seed": draw(st.integers(0, 2**31)),
        "voxel": draw(st.sampled_from([0.26, 0.4, 1.0, 3.0])), "radius": draw(st.sampled_from([0.2, 0.5, 0.9])),
        "default": draw(st.sampled_from([None, *ABSORB])),
    }


@st.composite
def boxes_spec(draw):
    if draw(st.booleans()):  # A box divided with parallel planes, and perhaps another one
        d = [draw(st.integers(1, 3)) for _ in range(3)]
        ax = draw(st.integers(0, 2))
        lo, boxes = [0, 0, 0], []
        for _ in range(draw(st.integers(1, 3))):
            d[ax] = draw(st.integers(1, 2))
            boxes.append(tuple(lo) + tuple(a + b for a, b in zip(lo, d)))
            lo[ax] += d[ax]
        zone = [0] * len(boxes)
        if draw(st.booleans()):
            boxes.append(tuple(lo) + tuple(a + b for a, b in zip(lo, d)))
            zone.append(1)
    else:
        boxes = draw(bld.box_list(1, 3, 3, disjoint=True))
        zone = [draw(st.sampled_from([0, 0, 0, 1])) for _ in boxes]
    n = len(boxes)
    coord = st.integers(0, 30)
    return {
        "bdg": {
            "boxes": boxes, "zone": zone,
            "group": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "start": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "names": draw(st.integers(0, len(bld.NAMES) - 1)),
            "emb": {**draw(gen.embedding(axis_only=draw(st.booleans()), max_off=20)), "e": draw(st.integers(-1, 0))},
        },
        "sim": draw(common()), "box": draw(st.integers(0, n - 1)), "source": draw(st.tuples(coord, coord, coord)),
        "absorbers": draw(st.lists(st.tuples(st.integers(0, n - 1), coord, coord, coord), max_size=3)),
        "set": draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 4), st.sampled_from(ABSORB)), max_size=4)),
        "transparent": draw(st.integers(0, 3)) > 0,
    }


def place(b, c, e, lo=0.26):
    """A point in a box, not closer than `lo` to its faces."""
    return [b[k] + lo + (b[k + 3] - b[k] - 2 * lo) * (x / 30) for k, x in enumerate(c)]


def world(e, q):
    return np.array(e.o) + e.unit * sum(x * np.array(a, dtype=float) for x, a in zip(q, (e.u, e.v, e.w)))


def boxes(s, ctx):
    town = bld.Town(s["bdg"])
    e, bdg, sim = town.e, town.bdg, s["sim"]
    scale = e.scale
    # Surfaces and what they absorb
    values = {p: 0.2 if sim["default"] is None else sim["default"] for p in town.faces}
    absorption = []
    for k, level, value in s["set"]:
        path = "/".join(list(town.faces)[k % len(town.faces)].split("/")[: level + 1])
        absorption.append((path, value))
        for p in values:
            if p == path or p.startswith(path + "/"):
                values[p] = value
    clear = set()
    paths = list(town.faces)
    joined = []
    for i, p in enumerate(paths):
        for q in paths[i + 1:]:
            if town.solid_of[p] != town.solid_of[q] and p.split("/")[1] == q.split("/")[1] and bld.relation(town.faces[p], town.faces[q]) == "facing":
                joined.append((town.solid_of[p], town.solid_of[q]))
                clear |= {p, q}
    if not s["transparent"]:
        clear, joined = set(), []
    faces = [Face(e.pts(bld.face_loop(town.faces[p])), values[p], p) for p in paths if p not in clear]
    # Boxes which may be reached
    room = {s["box"]}
    for _ in joined:
        for a, b in joined:
            if a in room or b in room:
                room |= {a, b}
    boxes_ = [s["bdg"]["boxes"][k] for k in room]
    axes = np.array([e.u, e.v, e.w], dtype=float) / (e.unit * e.s**2)

    def in_room(p):
        q = axes @ (p - np.array(e.o))
        return any(all(b[k] - 1e-6 <= q[k] <= b[k + 3] + 1e-6 for k in range(3)) for b in boxes_)

    all_boxes = s["bdg"]["boxes"]
    cfg = simu.configure(
        bdg, ctx.tmp(), source=world(e, place(all_boxes[s["box"]], s["source"], e)), step=sim["step"] * scale,
        steps=sim["batch"] * sim["batches"], batch=sim["batch"], voxel=sim["voxel"] * scale * (1.8 if sim["voxel"] < 0.5 else 1), rays=sim["rays"],
        speed=sim["speed"], absorbers=[world(e, place(all_boxes[b], c, e, 0.0)) for b, *c in s["absorbers"]], radius=sim["radius"] * scale,
        absorption=absorption, default=sim["default"], transparent=s["transparent"],
    )
    states, _ = simu.run(bdg, cfg, sim["seed"])
    seen = judge(ctx, states, cfg, faces, scale, in_room)
    finish(ctx, seen)
    if len(room) > 1:
        ctx.label("joined boxes")


def finish(ctx, seen):
    for k, v in seen.items():
        if v:
            ctx.label(k)
    if seen["doubt"] > seen["moved"] / 4 and seen["doubt"] > 3:
        ctx.label("many doubts")
    ctx.mark(seen["reflected"] > 0)


# --------------------------------------------------------------------------
@st.composite
def prism_spec(draw):
    coord = st.integers(0, 30)
    return {
        "p": gen.convex_start(draw(gen.shape(kinds=["rect", "tri", "convex", "hist", "mono", "star"]))), "h": draw(st.integers(1, 4)),
        "angle": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0, -2.5])), "move": draw(st.tuples(*[st.integers(-20, 20)] * 3)),
        "sim": draw(common()), "k": draw(st.integers(0, 30)),
        "absorbers": draw(st.lists(st.tuples(st.integers(0, 30), coord), max_size=2)),
        "set": draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(ABSORB[1:])), max_size=5)),
        "whole": draw(st.booleans()),
    }


def prism(s, ctx):
    p = tup(s["p"])
    h = float(s["h"])
    sim = s["sim"]
    move = tuple(c / 4 for c in s["move"])
    solid = floor_plan(p, h, translate=move, rot_angle=s["angle"], name="s")
    bdg = Building([Zone([solid], name="z")], name="b")
    ca, sa = math.cos(s["angle"]), math.sin(s["angle"])

    def out(x, y, z):
        return np.array([ca * x - sa * y + move[0], sa * x + ca * y + move[1], z + move[2]])

    def local(q):
        x, y = q[0] - move[0], q[1] - move[1]
        return ca * x + sa * y, -sa * x + ca * y, q[2] - move[2]

    base = Face([(x, y, 0.0) for x, y in p], 0.0)
    base.loop, base.sides = [(float(x), float(y)) for x, y in p], [((float(p[i - 1][0]), float(p[i - 1][1])), (float(p[i][0]), float(p[i][1]))) for i in range(len(p))]

    # The source is in the middle of the largest triangle, or of another one
    ears = sorted(geo.ears(p), key=lambda t: -geo.area2(t))
    c = [sum(v[i] for v in ears[s["k"] % len(ears)]) / 3 for i in range(2)]
    room = min(base.edge_distance(*c), h / 2)
    step = min(sim["step"], room / 1.05)
    if step < 0.03:
        ctx.label("too narrow")
        return
    default = sim["default"] or 0.1
    paths = bdg.get_polygon_paths()
    values = {q: default for q in paths}
    absorption = []
    for k, v in s["set"]:
        absorption.append((paths[k % len(paths)], v))
        values[paths[k % len(paths)]] = v
    faces = [Face(bdg.get(q).pts, values[q], q) for q in paths]
    size = max(np.ptp(np.array(p), axis=0).max(), h)
    voxel = 1.5 * size + 1 if s["whole"] else max(1.02 * step, sim["voxel"], size / 6)

    def in_room(q):
        x, y, z = local(q)
        return -1e-6 <= z <= h + 1e-6 and (base.inside(x, y) or base.edge_distance(x, y) < 1e-6)

    absorbers = []
    for k, z in s["absorbers"]:
        t = ears[k % len(ears)]
        absorbers.append(out(*[sum(v[i] for v in t) / 3 for i in range(2)], h * z / 30))
    cfg = simu.configure(
        bdg, ctx.tmp(), source=out(*c, h / 2), step=step, steps=sim["batch"] * sim["batches"], batch=sim["batch"], voxel=voxel,
        rays=sim["rays"], speed=sim["speed"], absorbers=absorbers, radius=sim["radius"] / 2, absorption=absorption, default=default,
    )
    states, _ = simu.run(bdg, cfg, sim["seed"])
    finish(ctx, judge(ctx, states, cfg, faces, 1.0, in_room))


# --------------------------------------------------------------------------
ROOMS = [(5, 5, 4), (6, 6, 3), (8, 8, 1), (12, 5, 1), (20, 3, 1), (9, 9, 2)]  # More than 127 tiles, the last one more than 233


@st.composite
def tiles_spec(draw):
    d = draw(st.permutations(draw(st.sampled_from(ROOMS))))
    return {
        "d": list(d), "off": [draw(st.integers(-20, 20)) for _ in range(3)], "sim": {**draw(common()), "rays": draw(st.integers(1, 3))},
        "order": draw(st.integers(0, 2**31)), "walls": draw(st.sampled_from([1, 2, 7, 40])),
        "source": [draw(st.integers(0, 30)) for _ in range(3)], "values": draw(st.lists(st.sampled_from(ABSORB), min_size=1, max_size=5)),
    }


def tiles(s, ctx):
    """A room with all surfaces divided into many polygons."""
    d, off, sim = s["d"], np.array(s["off"], dtype=float), s["sim"]
    loops = []
    for k in range(3):
        a, b = (k + 1) % 3, (k + 2) % 3
        for side, i, j in itertools.product((0, d[k]), range(d[a]), range(d[b])):
            c = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            loop = np.zeros((4, 3))
            loop[:, k] = side
            loop[:, [a, b]] = c if side else c[::-1]
            loops.append(loop + off)
    order = np.random.default_rng(s["order"]).permutation(len(loops))
    loops = [loops[i] for i in order]
    polys = [Polygon(p, name="p%d" % i) for i, p in enumerate(loops)]
    walls = [Wall(polys[k :: s["walls"]], name="w%d" % k) for k in range(s["walls"])]
    bdg = Building([Zone([Solid(walls, name="s")], name="z")], name="b")
    default = 0.2 if sim["default"] is None else sim["default"]
    values = {w.name: v for w, v in zip(walls, s["values"])}
    faces = [Face(p, values.get("w%d" % (i % s["walls"]), default)) for i, p in enumerate(loops)]

    def in_room(q):
        return np.all(q >= off - 1e-6) and np.all(q <= off + d + 1e-6)

    cfg = simu.configure(
        bdg, ctx.tmp(), source=off + place([0, 0, 0, *d], s["source"], None), step=sim["step"], steps=sim["batch"] * sim["batches"],
        batch=sim["batch"], voxel=max(0.5, sim["voxel"]), rays=sim["rays"], speed=sim["speed"],
        absorption=[("b/z/s/" + n, v) for n, v in values.items()], default=sim["default"], transparent=False,
    )
    states, _ = simu.run(bdg, cfg, sim["seed"])
    finish(ctx, judge(ctx, states, cfg, faces, 1.0, in_room))


# --------------------------------------------------------------------------
@st.composite
def direction_spec(draw):
    return {"seed": draw(st.integers(0, 2**31))}


def directions(s, ctx):
    """Rays start in all directions, different in each simulation."""
    town = bld.Town({"boxes": [(0, 0, 0, 2, 2, 2)], "zone": [0], "group": [0], "start": [0], "names": 0, "emb": {"f": 0, "e": 0, "o": [0, 0, 0]}})
    cfg = simu.configure(town.bdg, ctx.tmp(), source=(1, 1, 1), step=0.125, steps=1, batch=1, voxel=2.0, rays=400)
    (pos, _, _), _ = simu.run(town.bdg, cfg, s["seed"])
    d = (pos[1] - pos[0]) / 0.125
    check(np.abs(np.linalg.norm(d, axis=1) - 1).max() < 1e-9, "wrong speed")
    octants = {tuple(int(c > 0) for c in v) for v in d}
    check(len(octants) == 8, "no rays towards some octants, only %s", sorted(octants))
    for c in itertools.product((-1, 0, 1), repeat=3):
        if any(c):
            near = (d @ np.array(c) / np.linalg.norm(c)).max()
            check(near > math.cos(math.radians(30)), "no rays close to the direction %s", c)
    check(len({tuple(np.round(v, 9)) for v in d}) == 400, "directions are repeated")
    ctx.mark()


SUBS = [
    Sub("boxes", boxes_spec, boxes, 220, 3000, "some ray was reflected"),
    Sub("prism", prism_spec, prism, 120, 2000, "some ray was reflected"),
    Sub("tiles", tiles_spec, tiles, 40, 400, "some ray was reflected"),
    Sub("directions", direction_spec, directions, 8, 30, "always"),
]
