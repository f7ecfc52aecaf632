"""Results of simulations do not depend on batches, voxels and files."""

import os

import numpy as np
from hypothesis import strategies as st

from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.simulation import Simulation

from .. import bld, gen, simu
from ..core import Sub, check
from . import p22

DIVISIONS = {12: [1, 2, 3, 4, 6, 12], 105: [1, 5, 7, 21, 105]}  # Steps and sizes of batches


@st.composite
def spec(draw):
    d = [draw(st.integers(1, 3)) for _ in range(3)]
    coord = st.integers(0, 30)
    n = draw(st.integers(1, 2))
    steps = 105 if draw(st.integers(0, 15)) == 15 else 12
    return {
        "steps": steps,
        "d": d, "n": n, "ax": draw(st.integers(0, 2)),
        "emb": {**draw(gen.embedding(axis_only=draw(st.booleans()), max_off=20)), "e": 0},
        "source": draw(st.tuples(coord, coord, coord)), "seed": draw(st.integers(0, 2**31)), "rays": draw(st.integers(1, 4)) if steps == 12 else 1,
        "step": draw(st.sampled_from([0.24, 0.2, 0.13])), "speed": draw(st.sampled_from([1.0, 343.0])),
        "runs": draw(st.lists(st.tuples(st.sampled_from(DIVISIONS[steps]), st.sampled_from([0.5, 1.0, 1.3, 10.0])), min_size=2, max_size=3)),
        "absorbers": draw(st.lists(st.tuples(coord, coord, coord), max_size=2)),
        "absorption": draw(st.sampled_from([0.0, 0.1, 0.3])),
        "dir": draw(st.sampled_from(["new", "deep", "exists"])),
        "bad": draw(st.sampled_from(["", "", "full", "other", "multiple", "small"])),
    }


def runs(s, ctx):
    lo, boxes = [0, 0, 0], []
    for _ in range(s["n"]):
        boxes.append(tuple(lo) + tuple(a + b for a, b in zip(lo, s["d"])))
        lo[s["ax"]] += s["d"][s["ax"]]
    n = len(boxes)
    town = bld.Town({"boxes": boxes, "zone": [0] * n, "group": [0] * n, "start": [0] * n, "names": 0, "emb": s["emb"]})
    e, bdg = town.e, town.bdg
    tmp = ctx.tmp()
    first = None
    for k, (batch, voxel) in enumerate(s["runs"]):
        cfg = simu.configure(
            bdg, tmp, source=p22.world(e, p22.place(boxes[0], s["source"], e)), step=s["step"] * e.scale, steps=s["steps"], batch=batch,
            voxel=voxel * e.scale, rays=s["rays"], speed=s["speed"], radius=0.4 * e.scale, default=s["absorption"],
            absorbers=[p22.world(e, p22.place(boxes[0], c, e, 0.0)) for c in s["absorbers"]], name=f"run{k}",
        )
        if s["dir"] == "deep":
            cfg.paths["project_dir"] = os.path.join(tmp, f"x{k}", "y", "z")
            cfg.paths["buffer_dir"] = os.path.join(tmp, f"x{k}", "y", "z", "a", "b")
        elif s["dir"] == "exists":
            os.makedirs(cfg.paths["buffer_dir"])
        before = (repr(sorted(cfg.engine.items())), repr(sorted(cfg.rays.items())), repr(cfg.surfaces))
        states, last = simu.run(bdg, cfg, s["seed"])
        check((repr(sorted(cfg.engine.items())), repr(sorted(cfg.rays.items())), repr(cfg.surfaces)) == before, "configuration has changed")
        files = sorted(os.listdir(cfg.paths["buffer_dir"]))
        want = sorted(f"{x}_{i}.npy" for x in ("position", "energy", "hits") for i in range(s["steps"] + 1))
        check(files == want, "files of states are %s", files)
        for a, b, what in zip(states, last, ("positions", "energy", "hits")):
            check(b.shape == (batch + 1,) + a.shape[1:], "shape of returned %s is %s", what, b.shape)
            check(np.array_equal(a[-batch - 1:], b), "returned %s differ from the files", what)
        if first is None:
            first = states
            continue
        for a, b, what in zip(first, states, ("positions", "energy", "hits")):
            check(np.allclose(a, b, rtol=0, atol=1e-7 * max(1.0, float(np.abs(a).max(initial=0.0)))),
                  "%s depend on the division into batches or the voxel size", what)
        if batch == s["runs"][0][0] and voxel == s["runs"][0][1]:
            check(all(np.array_equal(a, b) for a, b in zip(first, states)), "the same simulation gave another result")
    # Wrong settings
    if s["bad"]:
        old = cfg.paths["buffer_dir"]
        kept = read_buffers(old, cfg)
        cfg.paths["buffer_dir"] = os.path.join(tmp, "other")
        if s["bad"] == "full":
            cfg.paths["buffer_dir"] = old
            kind = RuntimeError
        elif s["bad"] == "other":  # Any other file or directory
            place = os.path.join(tmp, "other", ["notes.txt", "x.npy", ".hidden", "sub/deeper"][s["seed"] % 4])
            os.makedirs(os.path.dirname(place))
            with open(place, "w") as f:
                f.write("kept")
            kind = RuntimeError
        elif s["bad"] == "multiple":
            cfg.engine.update(num_steps=13, batch_size=3)
            kind = AssertionError
        else:
            cfg.engine.update(num_steps=3, batch_size=6)
            kind = AssertionError
        try:
            Simulation(bdg, cfg)
        except kind:
            ctx.label("refused")
        else:
            check(False, "simulation accepted wrong settings (%s)", s["bad"])
        check(s["bad"] != "other" or open(place).read() == "kept", "another file was changed")
        check(all(np.array_equal(a, b) for a, b in zip(kept, read_buffers(old, cfg))), "old states were changed")
    enr = first[1]
    ctx.label("energy lost" if enr.min() < 1 else "no reflections")
    ctx.mark(enr.min() < 1 or s["absorption"] == 0.0)


SUBS = [Sub("runs", spec, runs, 160, 2500, "some ray lost energy, or surfaces do not absorb")]
