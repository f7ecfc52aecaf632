"""The same checks with compiled code (all other checks run the interpreted one)."""

import importlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone

from .. import simu
from ..core import Sub, check
from . import p22

GROUPS = {
    "polygons": ["p01", "p02", "p04"],
    "points": ["p27", "p28", "p29"],
    "location": ["p03"],
    "visibility": ["p05"],
    "relations": ["p06"],
    "slicing": ["p07"],
    "rays": ["p20", "p21"],
}


def subs_of(group):
    return {f"{p}.{s.name}": s for p in GROUPS[group] for s in importlib.import_module(f"pbt.props.{p}").SUBS}


def group(name):
    subs = subs_of(name)

    def spec():
        def one(k):
            return subs[k].strategy().map(lambda v: {"sub": k, "spec": v})

        return st.sampled_from(sorted(subs)).flatmap(one)

    def fn(s, ctx):
        ctx.label(s["sub"])
        subs[s["sub"]].fn(s["spec"], ctx)

    return spec, fn


@st.composite
def simulation_spec(draw):
    """Many rays, and absorbers so big that many of them are absorbed at once."""
    if draw(st.integers(0, 2)) == 0:
        near = st.tuples(*[st.integers(-3, 3)] * 3)
        return {"crowd": {"rays": draw(st.sampled_from([3000, 8000, 20000])), "absorbers": draw(st.lists(near, min_size=1, max_size=3)),
                          "radius": draw(st.integers(2, 8)), "batch": draw(st.sampled_from([1, 2, 4])), "seed": draw(st.integers(0, 999)),
                          "absorption": draw(st.integers(0, 3))}}
    s = draw(p22.boxes_spec())
    s["sim"]["rays"] = draw(st.sampled_from([1, 7, 40, 90]))
    s["sim"]["batches"] = max(1, 8 // s["sim"]["batch"])
    s["sim"]["radius"] = draw(st.sampled_from([0.2, 0.45, 0.6]))
    n = len(s["bdg"]["boxes"])
    coord = st.integers(0, 30)
    s["absorbers"] = draw(st.lists(st.tuples(st.integers(0, n - 1), coord, coord, coord), min_size=1, max_size=3))
    return s


def compiled():
    from numba import config

    check(not config.DISABLE_JIT, "code is not compiled")


def crowd(s, ctx):
    """Energy of all rays absorbed in the same step by threads running at once."""
    bdg = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
    src = np.array([0.5, 0.5, 0.5])
    absorbers = np.array([src + np.array(a) * 0.07 for a in s["absorbers"]])
    radius = s["radius"] * 0.041
    with tempfile.TemporaryDirectory() as tmp:
        cfg = simu.configure(bdg, tmp, source=src, step=0.05, steps=8, batch=s["batch"], voxel=0.5, rays=s["rays"],
                             absorbers=absorbers, radius=radius, default=s["absorption"] / 8)
        (pos, enr, hits), _ = simu.run(bdg, cfg, s["seed"])
    check(len(pos) == len(enr) == len(hits) == 9, "%s states, expected 9", len(pos))
    total = np.zeros(len(absorbers))
    for i in range(8):
        alive = enr[i] > simu.EPS
        got = np.zeros(len(absorbers))
        loose = 0.0
        for k, a in enumerate(absorbers):
            d = np.linalg.norm(pos[i] - a, axis=1)
            loose += enr[i][alive & (np.abs(d - radius) < 1e-9)].sum()
            inside = alive & (d < radius)
            got[k] = enr[i][inside].sum()
            alive &= ~inside
            if not loose:
                check(np.all(enr[i + 1][inside] == 0), "absorbed rays have energy in the step %s", i)
        check(np.all(np.abs(hits[i + 1] - got) <= 1e-9 * s["rays"] + loose), "step %s: absorbers got %s, expected %s", i, hits[i + 1], got)
        check(np.all(enr[i + 1] <= enr[i]), "energy of rays rises in the step %s", i)
        check(np.all(enr[i + 1][~alive] == 0), "rays without energy got some in the step %s", i)
        moved = np.linalg.norm(pos[i + 1] - pos[i], axis=1)
        check(np.allclose(moved[enr[i + 1] > simu.EPS], 0.05), "living rays do not move by one step")
        total += got
    ctx.label("crowd")
    ctx.mark(total.max() > 1000)


def simulation(s, ctx):
    compiled()
    if "crowd" in s:
        crowd(s["crowd"], ctx)
        return
    p22.boxes(s, ctx)
    if s["sim"]["rays"] > 20:
        ctx.label("many rays")
    ctx.nontrivial = s["sim"]["rays"] > 20


SUBS = [Sub("simulation", simulation_spec, simulation, 40, 400, "more than twenty rays, or more than a thousand absorbed by the same absorber", cpu_limit=800.0, shards=1)]
for _name, _n in (("slicing", 300), ("location", 300), ("relations", 250), ("visibility", 300), ("polygons", 400), ("rays", 300), ("points", 400)):
    _spec, _fn = group(_name)
    SUBS.append(Sub(_name, _spec, _fn, _n, 20 * _n, "as in the property the case belongs to", cpu_limit=800.0, shards=1))
