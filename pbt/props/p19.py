"""Transparent surfaces: those separating solids within one zone."""

from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.wall import Wall
from building3d.sim.rays.find_transparent import find_transparent
from building3d.sim.rays.simulation import Simulation
from building3d.io.arrayformat import to_array_format

from .. import bld
from ..core import Sub, check


@st.composite
def spec(draw):
    b = draw(bld.building_spec(n_min=2, n_max=4, disjoint=True))
    b["zone"] = [draw(st.integers(0, draw(st.sampled_from([0, 1, 2])))) for _ in b["boxes"]]
    return {"bdg": b, "regroup": [draw(st.integers(0, 1)) for _ in b["boxes"]],
            "fins": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 2), st.booleans(), st.integers(0, 9)), max_size=5)),
            "spoil": draw(st.booleans()), "stitch": draw(st.integers(0, 3)) == 0}


def facing(town):
    """Pairs of polygons of different boxes facing each other."""
    paths = list(town.faces)
    return [(p, q) for i, p in enumerate(paths) for q in paths[i + 1:]
            if town.solid_of[p] != town.solid_of[q] and bld.relation(town.faces[p], town.faces[q]) == "facing"]


def zone(path):
    return path.split("/")[1]


def add_fins(town, fins):
    """Thin walls inside of boxes: pairs of facing polygons of one solid or two; returns the transparent ones."""
    through, used = set(), set()
    for k, (i, ax, flip, other) in enumerate(fins):
        i %= len(town.solid_path)
        if (i, ax) in used:
            continue  # They would overlap
        used.add((i, ax))
        b = town.spec["boxes"][i]
        level = (b[ax] + b[ax + 3]) / 2
        loop = bld.face_loop((ax, level, 1, bld.box_faces(b)[2 * ax][3]))
        mid = [(b[j] + b[j + 3]) / 2 for j in range(3)]
        loop = [tuple((p[j] + 2 * mid[j] + j * k / 8 if j != ax else p[j]) / (3 if j != ax else 1) for j in range(3)) for p in loop]
        one = Polygon(town.e.pts(loop), name="a")
        sld = town.bdg.get(town.solid_path[i])
        back = town.bdg.get(town.solid_path[other % len(town.solid_path)])
        if flip and back is sld:
            sld.add_wall(Wall([one, one.flip("b")], name=f"fin{k}"))
            continue
        sld.add_wall(Wall([one], name=f"fin{k}"))
        back.add_wall(Wall([one.flip("b")], name=f"fin{k}-back"))
        if back is not sld and back.parent is sld.parent:
            through |= {f"{sld.path}/fin{k}/a", f"{back.path}/fin{k}-back/b"}
    return through


def transparent(s, ctx):
    town = bld.Town(s["bdg"])
    through = add_fins(town, s["fins"])
    if s["fins"]:
        ctx.label("doors" if through else "fins")
    bdg = town.bdg
    pairs = facing(town)
    want = {x for pq in pairs for x in pq if zone(pq[0]) == zone(pq[1])}
    plain, want = want, want | through
    got = find_transparent(bdg)
    check(set(got) == want and len(got) == len(want), "transparent surfaces are %s, expected %s", sorted(got), sorted(want))

    # Whatever is done with the answer, the next one is right
    if s["spoil"]:
        got.clear()
        got.add("x")
    check(set(find_transparent(bdg)) == want, "second answer differs")

    # Numbers of polygons in the simulation
    to_array_format(bdg)
    nums = set(Simulation.get_transparent_polygon_numbers(bdg)) - {-1}
    check(nums == {bdg.get(p).num for p in want}, "numbers of transparent polygons are %s", sorted(nums))

    # The same paths in a building made in another way
    other = dict(s["bdg"], zone=s["regroup"])
    town2 = bld.Town(other)
    want2 = {x for pq in facing(town2) for x in pq if zone(pq[0]) == zone(pq[1])}
    got2 = set(find_transparent(town2.bdg))
    check(got2 == want2, "transparent surfaces after regrouping are %s, expected %s", sorted(got2), sorted(want2))

    # A building which grows
    zones = list(bld.Town(s["bdg"]).bdg.zones.values())
    small = Building(zones[:1], name=town.name)
    inside = {p for p in plain if zone(p) == zones[0].name}
    check(set(find_transparent(small)) == inside, "transparent surfaces of the first zone are wrong")
    for z in zones[1:]:
        small.add_zone(z)
    check(set(find_transparent(small)) == plain, "transparent surfaces after adding zones are wrong")

    # Stitching makes the shared parts transparent
    if s["stitch"]:
        bdg.stitch_solids()
        now = set(find_transparent(bdg))
        polys = {p: bdg.get(p) for p in bdg.get_polygon_paths()}
        exp = set()
        for p, a in polys.items():
            for q, b in polys.items():
                if p != q and zone(p) == zone(q) and p.split("/")[:3] != q.split("/")[:3] and a.is_facing_polygon(b):
                    exp |= {p, q}
        check(now == exp, "transparent surfaces after stitching are %s, expected %s", sorted(now), sorted(exp))
        ctx.label("stitched")
    ctx.label("some" if want else "none")
    if len(plain) < 2 * len(pairs):
        ctx.label("opaque pairs")
    ctx.mark(bool(want))


SUBS = [Sub("transparent", spec, transparent, 600, 6000, "some surface is transparent")]
