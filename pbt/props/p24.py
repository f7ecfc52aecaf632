"""Absorption of surfaces: settings with complete and partial paths, defaults, and polygon numbers."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation_config import SimulationConfig

from .. import hier
from ..core import Sub, check, fail

VALUES = [0.0, 0.05, 0.1, 0.2, 0.25, 0.5, 0.9, 1.0]


@st.composite
def spec(draw):
    t = draw(hier.tree(n_min=1, empties=draw(st.booleans())))
    op = st.one_of(
        st.tuples(st.just("set"), st.integers(0, 10**6), st.integers(0, 4), st.sampled_from(VALUES)),
        st.tuples(st.just("set"), st.integers(0, 10**6), st.integers(0, 4), st.sampled_from(VALUES)),
        st.tuples(st.just("default"), st.sampled_from(VALUES)),
        st.tuples(st.just("direct"), st.integers(0, 10**6), st.sampled_from(VALUES)),
        st.tuples(st.just("bad"), st.integers(0, 10**6), st.integers(1, 4)),
        st.tuples(st.just("array")),
        st.tuples(st.just("grow"), st.integers(0, 10**6)),
        st.tuples(st.just("other"), st.integers(0, 10**6), st.sampled_from(VALUES)),
    )
    return {"tree": t, "ops": draw(st.lists(op, min_size=1, max_size=10))}


def config(s, ctx):
    bdg = hier.build(s["tree"])
    cfg, other = SimulationConfig(bdg), SimulationConfig(bdg)
    cfg.verbose = other.verbose = False
    paths = ["/".join((bdg.name,) + k) for k, _ in hier.leaves(bdg)]
    default, explicit = 0.2, {}
    check(cfg.surfaces["absorption"] == {"default": 0.2, **{p: 0.2 for p in paths}}, "initial surfaces are wrong")
    numbered = False

    def expected(p):
        return explicit.get(p, default)

    def verify():
        arr = cfg.surface_params_to_array("absorption", bdg)
        check(len(arr) == len(paths), "%s values for %s polygons", len(arr), len(paths))
        nums = [bdg.get(p).num for p in paths]
        check(sorted(nums) == list(range(len(paths))), "polygons are numbered %s", nums)
        for p, k in zip(paths, nums):
            check(arr[k] == expected(p), "absorption of %r is %s, expected %s", p, arr[k], expected(p))

    for op in s["ops"] + [("array",)]:
        if op[0] == "default":
            default = op[1]
            cfg.surfaces["absorption"]["default"] = default
        elif op[0] in ("set", "direct", "other") and paths:
            path = paths[op[1] % len(paths)].split("/")
            if op[0] == "set":
                path = path[: op[2] + 1]
            path = "/".join(path)
            if op[0] == "set":
                cfg.set_surface_param("absorption", path, op[3], bdg)
                for p in paths:
                    if p == path or p.startswith(path + "/"):
                        explicit[p] = op[3]
            elif op[0] == "direct":
                # The value given by a user; equal to the one filled in at the beginning it cannot be told apart
                if op[2] == 0.2:
                    continue
                cfg.surfaces["absorption"][path] = op[2]
                explicit[path] = op[2]
            else:
                other.set_surface_param("absorption", path, op[2], bdg)
        elif op[0] == "bad":
            path = (paths[op[1] % len(paths)] if paths else bdg.name + "/a/b/c/d").split("/")[: op[2] + 1]
            path[-1] += "?"
            before = dict(cfg.surfaces["absorption"])
            try:
                cfg.set_surface_param("absorption", "/".join(path), 0.7, bdg)
            except (KeyError, ValueError):
                pass
            else:
                fail("path %r of nothing was accepted", path)
            check(cfg.surfaces["absorption"] == before, "surfaces changed by a wrong path")
        elif op[0] == "grow":
            extra = hier.build({**s["tree"], "name": "x"})
            zones = list(extra.zones.values())
            name = f"new{op[1]}"
            if zones and name not in bdg.zones:
                bdg.add_zone(Zone(list(zones[op[1] % len(zones)].solids.values()), name=name))
                paths = ["/".join((bdg.name,) + k) for k, _ in hier.leaves(bdg)]
                numbered = False
        elif op[0] == "array":
            if not numbered:
                if any(bdg.get(p).num is None for p in paths):
                    try:
                        cfg.surface_params_to_array("absorption", bdg)
                    except RuntimeError:
                        pass
                    else:
                        fail("polygons are not numbered, but the array was made")
                if not paths:
                    continue
                to_array_format(bdg)
                numbered = True
            verify()
    ctx.label(*sorted({o[0] for o in s["ops"]}))
    ctx.mark(bool(explicit) and len(paths) > 1)


SUBS = [Sub("config", spec, config, 900, 20000, "some surface has its own value and there are others")]
