"""dotbim files."""

import json
import os

import numpy as np
from hypothesis import strategies as st

from building3d.io.dotbim import read_dotbim, write_dotbim

from .. import hier
from ..core import Sub, check, fail
from .p16 import same_polygons


TOOLS = [None, "Something else", "", "building3d", "Building3D 2", "MyBuilding3D", "Building3", "Building3D\n", " Building3D"]


@st.composite
def spec(draw):
    return {"bdg": draw(hier.tree(empties=draw(st.integers(0, 3)) == 0)), "dirs": draw(st.integers(0, 2)), "again": draw(st.booleans()),
            "f": draw(st.sampled_from(["b.bim", "a b.bim", "ä.bim"])),
            "dec": draw(st.sampled_from([None, 0.1, 1 / 3, 0.0173, 12345.678])),
            "spoil": draw(st.sampled_from(TOOLS)), "order": draw(st.randoms(use_true_random=False)).random()}


def prune(skel):
    """Without the parts which have no polygons: they are not in the format."""
    name, zones = skel
    out = []
    for z, solids in zones:
        s2 = [(s, [w for w in walls if w[1]]) for s, walls in solids]
        s2 = [x for x in s2 if x[1]]
        if s2:
            out.append((z, s2))
    return name, out


def full(bdg):
    """Names and identifiers of everything with polygons."""
    out = [(bdg.name, bdg.uid)]
    for (z, s, w, p), poly in hier.leaves(bdg):
        zz = bdg.zones[z]
        ss = zz.solids[s]
        ww = ss.walls[w]
        out.append([(x.name, x.uid) for x in (zz, ss, ww, poly)])
    return out


def round_trip(s, ctx):
    bdg = hier.build(s["bdg"], s["dec"])
    path = os.path.join(ctx.tmp(), *["d"] * s["dirs"], s["f"])
    if s["dirs"]:
        try:
            write_dotbim(path, bdg, parent_dirs=False)
            fail("file written to a missing directory")
        except OSError:
            pass
    want = full(bdg)
    write_dotbim(path, bdg)
    check(full(bdg) == want, "writing changed the building")
    back = read_dotbim(path)
    check(hier.skeleton(back) == prune(hier.skeleton(bdg)), "structure or names changed: %s instead of %s",
          hier.skeleton(back), prune(hier.skeleton(bdg)))
    check(full(back) == want, "identifiers changed: %s instead of %s", full(back), want)
    same_polygons(list(hier.leaves(bdg)), list(hier.leaves(back)), "dotbim")

    # The same file written and read again after the building was changed
    if s["again"]:
        hier.grow(bdg)
        want = full(bdg)
        write_dotbim(path, bdg)
        back = read_dotbim(path)
        check(full(back) == want, "names or identifiers of the changed building are wrong")
        same_polygons(list(hier.leaves(bdg)), list(hier.leaves(back)), "dotbim after a change")
        ctx.label("written again")

    # One mesh and element for each polygon, each with its own number
    with open(path) as f:
        d = json.load(f)
    n = len(want) - 1
    ids = [m["mesh_id"] for m in d["meshes"]]
    check(len(ids) == n and len(set(ids)) == n and sorted(e["mesh_id"] for e in d["elements"]) == sorted(ids),
          "meshes and elements do not correspond to polygons")

    for el in d["elements"]:
        check(el["vector"] == {"x": 0, "y": 0, "z": 0} and el["rotation"] == {"qx": 0, "qy": 0, "qz": 0, "qw": 1},
              "element is moved: %s %s", el["vector"], el["rotation"])

    # Elements in another order are still attached to their meshes
    d["elements"] = sorted(d["elements"], key=lambda e: (e["mesh_id"] * 7 + int(s["order"] * 10)) % max(1, n))
    other = os.path.join(ctx.tmp(), "other.bim")
    with open(other, "w") as f:
        json.dump(d, f)
    moved = read_dotbim(other)
    a = {k: p.pts.tolist() for k, p in hier.leaves(bdg)}
    check({k: p.pts.tolist() for k, p in hier.leaves(moved)} == a, "polygons depend on the order of elements")

    # Files of other programs are refused
    check(d["info"]["generated_by"] == "Building3D", "file is generated by %r", d["info"]["generated_by"])
    if s["spoil"] is not None:
        d["info"]["generated_by"] = s["spoil"]
    else:
        del d["info"]["generated_by"]
    with open(other, "w") as f:
        json.dump(d, f)
    try:
        read_dotbim(other)
        fail("a file of another program was read")
    except (KeyError, ValueError):
        pass
    ctx.label("many digits" if s["dec"] else "few digits")
    ctx.mark(n > 1)


SUBS = [Sub("round_trip", spec, round_trip, 1500, 16000, "at least two polygons")]
