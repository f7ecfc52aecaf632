"""B3D files."""

import json
import os

import numpy as np
from hypothesis import strategies as st

from building3d.io.b3d import read_b3d, write_b3d

from .. import hier
from ..core import Sub, check, fail
from ..lib import close


@st.composite
def spec(draw):
    return {"bdg": draw(hier.tree(n_min=0)), "dirs": draw(st.integers(0, 2)), "over": draw(st.booleans()), "again": draw(st.booleans()),
            "f": draw(st.sampled_from(["b.b3d", "a b.json", "ä.b3d", "x"])),
            "dec": draw(st.sampled_from([None, 0.1, 1 / 3, 0.0173, 12345.678]))}


def same_polygons(a, b, what):
    for (na, p), (nb, q) in zip(a, b, strict=True):
        check(na == nb, "%s: polygon %s instead of %s", what, nb, na)
        check(p.uid == q.uid, "%s: identifier of %s is %r instead of %r", what, na, q.uid, p.uid)
        check(p.pts.shape == q.pts.shape and np.array_equal(p.pts, q.pts), "%s: corners of %s changed", what, na)
        check(p.tri.shape == q.tri.shape and np.array_equal(p.tri, q.tri), "%s: triangles of %s changed", what, na)
        check(q.pts.dtype == np.float64 and np.issubdtype(q.tri.dtype, np.integer), "%s: wrong types in %s", what, na)
        check(close(p.vn, q.vn, atol=1e-7), "%s: normal of %s changed", what, na)


def round_trip(s, ctx):
    bdg = hier.build(s["bdg"], s["dec"])
    path = os.path.join(ctx.tmp(), *["d"] * s["dirs"], s["f"])
    if s["dirs"]:
        try:
            write_b3d(path, bdg, parent_dirs=False)
            fail("file written to a missing directory")
        except OSError:
            pass
    if s["over"]:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("x" * 100000)
    want = hier.skeleton(bdg)
    uids = [p.uid for _, p in hier.leaves(bdg)]
    write_b3d(path, bdg)
    check(hier.skeleton(bdg) == want and [p.uid for _, p in hier.leaves(bdg)] == uids, "writing changed the building")
    back = read_b3d(path)
    check(hier.skeleton(back) == want, "structure or names changed: %s instead of %s", hier.skeleton(back), want)
    same_polygons(list(hier.leaves(bdg)), list(hier.leaves(back)), "B3D")
    for names, p in hier.leaves(back):
        check(back.get("/".join((back.name, *names))) is p, "polygon %s is not found in the building read", names)

    # The documented layout of the file
    with open(path) as f:
        d = json.load(f)
    check(d["name"] == bdg.name and list(d["zones"]) == list(bdg.zones), "names in the file are wrong")
    for (z, sl, w, n), p in hier.leaves(bdg):
        x = d["zones"][z][sl][w][n]
        check(x["pts"] == p.pts.tolist() and x["tri"] == p.tri.tolist() and x["uid"] == p.uid, "polygon in the file is wrong")

    # Second generation
    path2 = path + "2"
    write_b3d(path2, back)
    with open(path) as f, open(path2) as g:
        check(f.read() == g.read(), "file written after reading differs")
    # The same file written and read again after the building was changed
    if s["again"]:
        hier.grow(bdg)
        write_b3d(path, bdg)
        back = read_b3d(path)
        check(hier.skeleton(back) == hier.skeleton(bdg), "structure or names of the changed building are wrong")
        same_polygons(list(hier.leaves(bdg)), list(hier.leaves(back)), "B3D after a change")
        ctx.label("written again")
    ctx.label("many digits" if s["dec"] else "few digits", "empty building" if not bdg.zones else "building")
    ctx.mark(len(uids) > 1)


SUBS = [Sub("round_trip", spec, round_trip, 2000, 16000, "at least two polygons")]
