"""STL files."""

import os
import re

import numpy as np
from hypothesis import strategies as st

from building3d.io.stl import read_stl, write_stl

from .. import hier
from ..core import Sub, check, fail
from ..lib import close
from .p14 import triangles


@st.composite
def spec(draw):
    return {"bdg": draw(hier.tree(empties=draw(st.integers(0, 3)) == 0)), "dirs": draw(st.integers(0, 2)), "again": draw(st.booleans()),
            "f": draw(st.sampled_from(["b.stl", "a b.stl", "name.x.stl", "ä.stl"])),
            "dec": draw(st.sampled_from([None, 0.1, 1 / 3, 0.0173, 12345.678])),
            "loose": draw(st.booleans())}


def by_solid(bdg):
    return [sorted(t for w in s.walls.values() for p in w.polygons.values() for t in triangles(p.pts, p.tri))
            for z in bdg.zones.values() for s in z.solids.values()]


def round_trip(s, ctx):
    bdg = hier.build(s["bdg"], s["dec"])
    path = os.path.join(ctx.tmp(), *["d"] * s["dirs"], s["f"])
    if s["dirs"]:
        try:
            write_stl(path, bdg, parent_dirs=False)
            fail("file written to a missing directory")
        except OSError:
            pass
    want = by_solid(bdg)
    uids = [x.uid for z in bdg.zones.values() for x in z.solids.values()]
    write_stl(path, bdg)
    check(by_solid(bdg) == want, "writing changed the building")
    if s["loose"]:  # Indentation does not matter
        with open(path) as f:
            lines = f.read().split("\n")
        with open(path, "w") as f:
            f.write("\n".join(x.strip() for x in lines))
    back = read_stl(path)
    stem = s["f"][:-4]
    check(back.name == stem, "building is named %r, expected %r", back.name, stem)
    check(len(back.zones) == 1, "there are %s zones instead of one", len(back.zones))
    solids = [x for z in back.zones.values() for x in z.solids.values()]
    check([x.uid for x in solids] == uids, "identifiers of solids are %s, expected %s", [x.uid for x in solids], uids)
    got = by_solid(back)
    check(got == want, "triangles of solids changed")
    for x in solids:
        for w in x.walls.values():
            for p in w.polygons.values():
                check(p.pts.shape == (3, 3), "a polygon is not a triangle")
                n = np.cross(p.pts[1] - p.pts[0], p.pts[2] - p.pts[0])
                check(close(p.vn, n / np.linalg.norm(n), atol=1e-6), "a triangle has a wrong normal")

    # The file itself: facets with the normals of the polygons
    with open(path) as f:
        text = [x.strip() for x in f if x.strip()]
    normals = [[float(c) for c in x.split()[2:]] for x in text if x.startswith("facet normal")]
    expect = [p.vn for _, p in hier.leaves(bdg) for _ in p.tri]
    check(len(normals) == len(expect) and all(close(a, b) for a, b in zip(normals, expect)), "normals in the file are wrong")
    layout = re.compile("(solid [^\\n]*\\n(facet normal [^\\n]*\\nouter loop\\n(vertex [^\\n]*\\n){3}endloop\\nendfacet\\n)*endsolid [^\\n]*\\n)*")
    check(layout.fullmatch("".join(x + "\n" for x in text)), "the file is not in the STL format")
    heads = [x for x in text if x.startswith("solid") or x.startswith("endsolid")]
    check(heads == [h for u in uids for h in (f"solid {u}", f"endsolid {u}")], "solids in the file are wrong")

    # Reading what was read gives the same triangles
    path2 = os.path.join(ctx.tmp(), "again.stl")
    write_stl(path2, back)
    check(by_solid(read_stl(path2)) == want, "triangles changed after the second write")
    # The same file written and read again after the building was changed
    if s["again"]:
        hier.grow(bdg)
        write_stl(path, bdg)
        check(by_solid(read_stl(path)) == by_solid(bdg), "triangles of the changed building are wrong")
        ctx.label("written again")
    ctx.label("many digits" if s["dec"] else "few digits", f"{min(len(bdg.zones), 2)} zones")
    ctx.mark(sum(map(len, want)) > 2)


SUBS = [Sub("round_trip", spec, round_trip, 1000, 12000, "at least three triangles")]
