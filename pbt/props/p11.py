"""Connections between polygons, walls, solids and zones of a building."""

from hypothesis import strategies as st

from building3d.geom.building import graph as gr
from building3d.geom.building import Building
from building3d.geom.zone import Zone

from .. import bld
from ..core import Sub, check, fail

LEVELS = ["polygon", "wall", "solid", "zone"]


@st.composite
def spec(draw):
    req = st.fixed_dictionaries({
        "new": st.booleans(), "level": st.sampled_from(LEVELS),
        "flags": st.sampled_from([
            [1, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]]),
        "default": st.booleans(),
    })
    return {
        "bdg": draw(bld.building_spec(n_min=2, n_max=3)),
        "requests": draw(st.lists(req, min_size=1, max_size=4)),
        "later": draw(st.integers(0, 1)),
    }


def expected(town, bdg, flags):
    """Connected pairs at the polygon level."""
    paths = [p for p in town.faces if exists(bdg, p)]
    g = {p: set() for p in paths}
    if len(paths) < 2:
        return {}
    kinds = set()
    for i, p in enumerate(paths):
        for q in paths[i + 1:]:
            r = bld.relation(town.faces[p], town.faces[q])
            kinds.add(r)
            if r == "mixed":
                # Not classified here: the relation is judged by another property
                hit = flags[2] and bdg.get(p).is_touching_polygon(bdg.get(q))
            else:
                hit = (r == "facing" and flags[0]) or (r == "crossing" and flags[1]) or (r == "touching" and flags[2])
            if hit:
                g[p].add(q)
                g[q].add(p)
    return g, kinds


def exists(bdg, path):
    try:
        bdg.get(path)
    except ValueError:
        return False
    return True


def strip(g, n):
    if n == 0:
        return g
    out = {}
    for p, qs in g.items():
        k = "/".join(p.split("/")[:-n])
        vals = {"/".join(q.split("/")[:-n]) for q in qs}
        out.setdefault(k, set()).update(vals - {k})
    return out


def same_graph(got, want, what):
    check(set(got) == set(want), "%s: nodes are %s, expected %s", what, sorted(got), sorted(want))
    for k in want:
        check(sorted(got[k]) == sorted(want[k]), "%s: connections of %s are %s, expected %s",
              what, k, sorted(got[k]), sorted(want[k]))


def ask(bdg, req, new):
    f = req["flags"]
    if req["default"] and f == [1, 0, 0]:
        return bdg.get_graph(new=new, level=req["level"])
    return bdg.get_graph(new=new, level=req["level"], facing=bool(f[0]), overlapping=bool(f[1]), touching=bool(f[2]))


def requests(s, ctx):
    """Any sequence of requests; then the building grows and the graph is made anew."""
    town = bld.Town(s["bdg"])
    bdg = town.bdg
    late = None
    if s["later"] and len(bdg.zones) > 1:
        # The last zone joins the building later
        zones = list(bdg.zones.values())
        late = zones[-1]
        bdg = Building(zones[:-1], name=town.name)
    kinds = set()
    want = {}

    def model(flags):
        key = (tuple(flags), late is None)
        if key not in want:
            want[key], k = expected(town, bdg, flags)
            kinds.update(k)
        return want[key]

    r = s["requests"][0]
    f = [bool(x) for x in r["flags"]]
    n = LEVELS.index(r["level"])
    fn = (gr.graph_polygon, gr.graph_wall, gr.graph_solid, gr.graph_zone)[n]
    same_graph(fn(bdg, facing=f[0], overlapping=f[1], touching=f[2]), strip(model(r["flags"]), n), "first function")
    for r in s["requests"]:
        got = ask(bdg, r, r["new"])
        same_graph(got, strip(model(r["flags"]), LEVELS.index(r["level"])), f"{r['level']} graph")
    if late is not None:
        bdg.add_zone(late)
        late = None
        for r in s["requests"]:
            for new in (True, False):
                got = ask(bdg, r, new)
                same_graph(got, strip(model(r["flags"]), LEVELS.index(r["level"])), f"{r['level']} graph of the larger building")
        ctx.label("building changed")
    # The functions behind the method; some of them given the polygon graph
    r = s["requests"][0]
    same_graph(fn(bdg, facing=f[0], overlapping=f[1], touching=f[2]), strip(model(r["flags"]), n), "function")
    same_graph(fn(bdg), strip(model([1, 1, 0]), n), "function with no options")
    if n:
        g = {k: list(v) for k, v in model(r["flags"]).items()}
        same_graph(fn(bdg, g=g), strip(model(r["flags"]), n), "function with a polygon graph")
    ctx.label(*kinds)
    ctx.mark(bool(kinds & {"facing", "crossing"}))


@st.composite
def pair_spec(draw):
    return {"bdg": draw(bld.building_spec(n_min=2, n_max=2))}


def solids(s, ctx):
    """Adjacency of two solids follows from the relations of their faces."""
    town = bld.Town(s["bdg"])
    if len(town.solid_path) < 2:
        return
    a, b = (town.bdg.get(p) for p in town.solid_path[:2])
    rel = {bld.relation(town.faces[p], town.faces[q]) for p in town.faces for q in town.faces
           if town.solid_of[p] == 0 and town.solid_of[q] == 1}
    adj = bool(rel & {"facing", "crossing"})
    check(a.is_adjacent_to_solid(b) == adj, "adjacent is %s, relations of faces: %s", not adj, sorted(rel))
    check(b.is_adjacent_to_solid(a) == adj, "adjacent (other way) is %s, relations of faces: %s", not adj, sorted(rel))
    fac = "facing" in rel
    check(a.has_correct_interface(b) == fac, "correct interface is %s, relations: %s", not fac, sorted(rel))
    check(b.has_correct_interface(a) == fac, "correct interface (other way) is %s, relations: %s", not fac, sorted(rel))
    ctx.label("facing" if fac else "crossing" if adj else "touching" if "touching" in rel else "other")
    ctx.mark(adj)


@st.composite
def iter_spec(draw):
    return {"bdg": draw(bld.building_spec(n_min=0, n_max=4))}


def walk(s, ctx):
    """Everything is visited once; bad levels are refused."""
    town = bld.Town(s["bdg"])
    bdg = town.bdg
    for fn, n in ((gr.iter_polygons, 0), (gr.iter_walls, 1), (gr.iter_solids, 2), (gr.iter_zones, 3)):
        want = sorted({p.rsplit("/", n)[0] if n else p for p in town.faces})
        got = [x.path for x in fn(bdg)]
        check(sorted(got) == want, "%s visits %s, expected %s", fn.__name__, sorted(got), want)
    try:
        bdg.get_graph(level="room")
        fail("unknown level accepted")
    except ValueError:
        pass
    one = Building([Zone([], name="empty")], name="b")
    check(one.get_graph() == {}, "graph of an empty building is not empty")
    ctx.mark(len(town.solid_path) > 1)


SUBS = [
    Sub("requests", spec, requests, 160, 4000, "some polygons face or overlap each other"),
    Sub("solids", pair_spec, solids, 320, 8000, "the solids are adjacent"),
    Sub("walk", iter_spec, walk, 60, 2000, "at least two solids"),
]
