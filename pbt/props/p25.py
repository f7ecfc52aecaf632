"""States of simulations in files, and impulse responses."""

import os

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.sim.rays.dump_buffers import dump_buffers, read_buffers
from building3d.sim.rays.impulse_response import impulse_response
from building3d.sim.rays.simulation_config import SimulationConfig

from ..core import Sub, check, fail

NAMES = [
    ("position_<step>.npy", "energy_<step>.npy", "hits_<step>.npy"),
    ("p<step>.npy", "e<step>.npy", "h<step>.npy"),
    ("<step>_p.npy", "<step>_e.npy", "<step>_h.npy"),
    ("position.<step>.npy", "position.<step>.e.npy", "pos+<step>.npy"),
    ("a_<step>_<step>.npy", "b_<step>.npy", "ab_<step>.npy"),
]


def data(seed, steps, rays, absorbers):
    rng = np.random.RandomState(seed)
    return (rng.standard_normal((steps, rays, 3)) * 10.0 ** rng.randint(-8, 8), rng.random((steps, rays)),
            np.where(rng.random((steps, absorbers)) < 0.5, 0.0, rng.random((steps, absorbers))))


@st.composite
def files_spec(draw):
    size = draw(st.integers(0, 59))
    steps = draw(st.integers(998, 1012) if size == 59 else st.integers(95, 125) if size > 55 else st.integers(1, 25))
    cuts = sorted(draw(st.sets(st.integers(1, steps - 1), max_size=4))) if steps > 1 else []
    return {"seed": draw(st.integers(0, 2**31)), "steps": steps, "rays": draw(st.integers(1, 6)), "absorbers": draw(st.integers(0, 4)),
            "cuts": cuts, "over": draw(st.booleans()), "order": draw(st.integers(0, 2**31)), "names": draw(st.integers(0, len(NAMES) - 1)),
            "dir": draw(st.sampled_from(["s", "a/b/c", "states_7", "12", "x.npy"])), "rubbish": draw(st.booleans()), "again": draw(st.integers(0, 2)) == 0,
            "loss": draw(st.sampled_from(["", "", "", "file", "last"])), "k": draw(st.integers(0, 100))}


def config():
    cfg = SimulationConfig(Building(name="b"))
    cfg.verbose = False
    return cfg


def files(s, ctx):
    cfg = config()
    for key, f in zip(("position_file", "energy_file", "hits_file"), NAMES[s["names"]]):
        cfg.paths[key] = f
    d = os.path.join(ctx.tmp(), s["dir"])
    bufs = data(s["seed"], s["steps"], s["rays"], s["absorbers"])
    keep = [b.copy() for b in bufs]
    # Written in parts, possibly sharing the state at the boundary, in any order
    cuts = [0, *s["cuts"], s["steps"]]
    parts = [(a, min(b + (1 if s["over"] else 0), s["steps"])) for a, b in zip(cuts, cuts[1:])]
    np.random.RandomState(s["order"]).shuffle(parts)
    if s["rubbish"]:
        os.makedirs(d)
        for f in ("energy.npy", "position_x.npy", "notes.txt", "hits_.npy"):
            with open(os.path.join(d, f), "w") as fh:
                fh.write("x")
    for a, b in parts:
        dump_buffers(*[x[a:b] for x in bufs], d, cfg, a)
    check(all(np.array_equal(a, b) for a, b in zip(bufs, keep)), "buffers were changed while saving")
    n = len(os.listdir(d)) - (4 if s["rubbish"] else 0)
    check(n == 3 * s["steps"], "%s files for %s states", n, s["steps"])
    got = read_buffers(d, cfg)
    for a, b, what in zip(got, bufs, ("positions", "energy", "hits")):
        check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b), "%s read are not the ones saved", what)
    # Some states written again
    if s["again"]:
        a, b = parts[0]
        new = data(s["seed"] // 2 + 1, s["steps"], s["rays"], s["absorbers"])
        dump_buffers(*[x[a:b] for x in new], d, cfg, a)
        for x, y in zip(bufs, new):
            x[a:b] = y[a:b]
        for x, y, what in zip(read_buffers(d, cfg), bufs, ("positions", "energy", "hits")):
            check(x.shape == y.shape and np.array_equal(x, y), "%s read are not the ones saved last", what)
        ctx.label("written again")
    # An incomplete directory is not read quietly
    if s["loss"]:
        step = s["k"] % s["steps"] if s["loss"] == "file" else s["steps"] - 1
        name = NAMES[s["names"]][s["k"] % 3].replace("<step>", str(step))
        os.remove(os.path.join(d, name))
        try:
            read_buffers(d, cfg)
        except (RuntimeError, AssertionError, OSError):
            ctx.label("incomplete")
        else:
            fail("states read although %s is missing", name)
    ctx.label(f"{len(parts)} parts")
    ctx.mark(s["steps"] > 10 and len(parts) > 1)


@st.composite
def response_spec(draw):
    n, m = draw(st.integers(1, 20)), draw(st.integers(1, 4))
    row = st.lists(st.sampled_from([0.0, 0.0, 0.125, 0.3, 1.0, 7.5]), min_size=m, max_size=m)
    return {"hits": draw(st.lists(row, min_size=n, max_size=n)), "dt": draw(st.sampled_from([2.5e-5, 1e-3, 0.1, 0.25]))}


def response(s, ctx):
    cfg = config()
    cfg.engine["time_step"] = s["dt"]
    hits = np.array(s["hits"])
    keep = hits.copy()
    tot = hits.sum(axis=0).max()
    if tot == 0:
        try:
            impulse_response(hits, cfg)
        except AssertionError:
            ctx.label("no hits")
            return
        fail("response without any hits")
    ir = impulse_response(hits, cfg)
    check(np.array_equal(hits, keep), "hits were changed")
    check(list(ir.columns) == list(range(hits.shape[1])) and ir.index.name == "time", "columns %s, index %s", list(ir.columns), ir.index.name)
    check(len(ir) == len(hits), "%s rows for %s steps", len(ir), len(hits))
    check(np.allclose(ir.index.to_numpy(), [i * s["dt"] for i in range(len(hits))], rtol=1e-12, atol=0), "time is %s", list(ir.index))
    check(np.allclose(ir.to_numpy(), hits / tot, rtol=1e-12, atol=1e-15), "response is not proportional to the hits")
    check(abs(ir.sum(axis=0).max() - 1) < 1e-9, "response is not normalised")
    ctx.mark(hits.shape[1] > 1 and len(hits) > 2)


SUBS = [
    Sub("files", files_spec, files, 400, 8000, "more than ten states written in parts"),
    Sub("response", response_spec, response, 400, 8000, "several absorbers and steps"),
]
