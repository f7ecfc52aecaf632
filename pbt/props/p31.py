"""Pictures and movies."""

import os

import numpy as np
from hypothesis import strategies as st

from building3d.display.plot_objects import plot_objects
from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter
from building3d.sim.rays.simulation_config import SimulationConfig

from .. import hier, screen
from ..core import Sub, check, fail

KINDS = ["building", "zone", "solid", "wall", "polygon", "mesh", "lines", "points", "all", "rays"]


def key(p):
    return tuple(round(float(x), 4) + 0.0 for x in p)


def bag(items):
    return sorted(items)


def triangles(polys):
    return bag(tuple(sorted(key(q) for q in p.pts[t])) for p in polys for t in p.tri)


class Thing:
    """Anything with the needed methods can be drawn."""

    def __init__(self, kind, rng):
        n = rng.randint(3, 8)
        self.pts = np.round(rng.uniform(-9, 9, (n, 3)), 3)
        self.faces = np.array([rng.choice(n, 3, replace=False) for _ in range(rng.randint(1, 5))])
        self.lines = [[int(i) for i in rng.choice(n, rng.randint(2, n + 1), replace=False)] for _ in range(rng.randint(1, 4))]
        self.dots = np.round(rng.uniform(-9, 9, (rng.randint(1, 6), 3)), 3)
        if kind in ("mesh", "all"):
            self.get_mesh = lambda: (self.pts, self.faces)
        if kind in ("lines", "all"):
            self.get_lines = lambda: (self.pts, self.lines)
        if kind in ("points", "all"):
            self.get_points = lambda: self.dots

    def want(self):
        out = {}
        if hasattr(self, "get_mesh"):
            out["faces"] = bag(tuple(sorted(key(self.pts[i]) for i in f)) for f in self.faces)
        if hasattr(self, "get_lines"):
            out["lines"] = bag(tuple(key(self.pts[i]) for i in f) for f in self.lines)
        if hasattr(self, "get_points"):
            out["points"] = bag(map(key, self.dots))
        return out


def buffers(seed, steps, rays):
    """Any positions and different energies."""
    rng = np.random.RandomState(seed)
    pos = np.round(rng.uniform(-9, 9, (steps, rays, 3)), 3)
    return pos, (rng.permutation(steps * rays) / (steps * rays)).reshape(steps, rays)


def trails(pos):
    return bag(tuple(key(p) for p in pos[:, r]) for r in range(pos.shape[1]))


def shown(d):
    """What one drawn mesh shows."""
    if d.kind == "faces":
        return bag(tuple(sorted(key(d.pts[i]) for i in f)) for f in d.faces)
    if d.kind == "lines":
        return bag(tuple(key(d.pts[i]) for i in f) for f in d.lines)
    return bag(map(key, d.pts))


@st.composite
def pictures_spec(draw):
    n = draw(st.integers(1, 4))
    return {"tree": draw(hier.tree(empties=False, max_each=2, with_uid=False)),
            "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=n, max_size=n)),
            "seeds": draw(st.lists(st.integers(0, 2**20), min_size=n, max_size=n)),
            "colors": draw(st.sampled_from(["", "float", "int", "array", "more", "fewer"])),
            "file": draw(st.sampled_from([None, "a.png", "x/y/b.png", "x/c.png"])),
            "bad": draw(st.sampled_from(["", "", "", "", "none", "nothing"]))}


def pictures(s, ctx):
    bdg = hier.build(s["tree"])
    every = list(hier.leaves(bdg))
    if s["kinds"][0] == "rays":  # Rays with their building
        pos, enr = buffers(s["seeds"][0], 2 + s["seeds"][0] % 5, 1 + s["seeds"][0] % 3)
        with screen.recording() as scr:
            RayBuffPlotter(bdg, pos, enr).plot()
        got = {d.kind: d for d in scr.only.frames[0]}
        want = {"faces": triangles([p for _, p in every]), "lines": trails(pos), "points": bag(map(key, pos[-1]))}
        check(len(scr.only.frames[0]) == 3 and {k: shown(d) for k, d in got.items()} == want, "the building and its rays are not what is drawn")
        col = {k: tuple(map(float, d.options["color"])) for k, d in got.items()}
        check(col["lines"] == col["points"] != col["faces"], "rays have the color of the building")
    objects, want = [], []
    for kind, seed in zip(s["kinds"], s["seeds"]):
        names, poly = every[seed % len(every)]
        if kind in ("building", "zone", "solid", "wall", "polygon"):
            depth = ["building", "zone", "solid", "wall", "polygon"].index(kind)
            obj = bdg
            for name in names[:depth]:
                obj = obj[name]
            polys = [p for k, p in every if k[:depth] == names[:depth]]
            w = {"faces": triangles(polys)}
        elif kind == "rays":
            pos, enr = buffers(seed, 1 + seed % 5 + 1, 1 + seed % 3)
            obj = RayBuffPlotter(bdg, pos, enr)
            w = {"lines": trails(pos), "points": bag(map(key, pos[-1]))}
        else:
            obj = Thing(kind, np.random.RandomState(seed))
            w = obj.want()
        objects.append(obj)
        want.append(w)
    rng = np.random.RandomState(s["seeds"][0])
    n = len(objects)
    how = s["colors"]
    m = {"": 0, "more": n + 1, "fewer": n - 1}.get(how, n)
    colors = [[int(c) for c in rng.randint(0, 2, 3)] if how == "int" else rng.random(3) if how == "array" else tuple(rng.random(3))
              for _ in range(m)]
    if s["bad"] == "none":
        objects, colors = [], []
    elif s["bad"] == "nothing":
        objects[s["seeds"][-1] % n] = object()
    path = None if s["file"] is None else os.path.join(ctx.tmp(), s["file"])
    ready = []
    wrong = s["bad"] or (how == "more") or (how == "fewer" and m > 0)
    with screen.recording(lambda kw: ready.append(path is None or os.path.isdir(os.path.dirname(path)))) as scr:
        try:
            plot_objects(tuple(objects), path, colors)
        except (ValueError, AssertionError) as e:
            check(wrong, "drawing refused: %s", e)
            check(not ready, "picture shown before the refusal")
            ctx.label("refused")
            return
        check(not wrong, "%s objects with %s colors drawn", len(objects), len(colors))
    check(len(scr.plotters) == 1, "%s pictures", len(scr.plotters))
    rec = scr.only
    shows = [c for c in rec.calls if c[0] == "show"]
    check(len(shows) == 1, "shown %s times", len(shows))
    check(shows[0][2].get("screenshot") == path, "saved to %s, not %s", shows[0][2].get("screenshot"), path)
    if path is not None:
        check(ready == [True], "no directory for the picture")
        check(rec.options.get("off_screen") is True, "a picture to be saved is shown on the screen")
    got = [(d.kind, shown(d), d.options.get("color")) for d in rec.frames[0]]
    check(len(got) == sum(map(len, want)), "%s meshes drawn, not %s", len(got), sum(map(len, want)))
    used = []
    for i, w in enumerate(want):
        mine = []
        for kind, data in w.items():
            same = [g for g in got if g[0] == kind and g[1] == data]
            check(same, "%s of the object no. %s not drawn", kind, i)
            if colors:
                same = [g for g in same if np.allclose(g[2], [float(c) for c in colors[i]])]
                check(same, "%s of the object no. %s drawn in another color", kind, i)
                check(all(isinstance(c, float) for c in same[0][2]), "colors are not floats")
            col = [float(c) for c in same[0][2]]
            check(len(col) == 3 and all(0 <= c <= 1 for c in col), "wrong color %s", col)
            mine.append(col)
        used.append(mine)
    unique = len({repr(w) for w in want}) == len(want)
    if not colors and unique:
        check(all(c == m[0] for m in used for c in m), "parts of an object drawn in different colors")
        check(len({tuple(m[0]) for m in used}) == len(used), "objects drawn in the same color")
    ctx.label("colors" if colors else "no colors")
    for k in s["kinds"]:
        ctx.label(k)
    ctx.nontrivial = n > 1


@st.composite
def movies_spec(draw):
    return {"tree": draw(hier.tree(empties=False, max_each=2, with_uid=False)), "seed": draw(st.integers(0, 2**31)),
            "steps": draw(st.integers(1, 9)), "rays": draw(st.integers(1, 5)), "trail": draw(st.integers(1, 7)),
            "fps": draw(st.integers(1, 60)), "ext": draw(st.sampled_from([".gif", ".mp4", ".GIF", ".Mp4", ".avi", "", ".gif.txt"])),
            "look": draw(st.booleans()), "still": draw(st.booleans())}


def movies(s, ctx):
    bdg = hier.build(s["tree"])
    pos, enr = buffers(s["seed"], s["steps"], s["rays"])
    if s["still"]:
        pos[1:] = pos[0]  # As if all rays stood still
    keep = pos.copy(), enr.copy()
    cfg = SimulationConfig(bdg)
    vis = cfg.visualization
    vis["ray_trail_length"] = s["trail"]
    vis["movie_fps"] = s["fps"]
    if s["look"]:
        vis.update(ray_opacity=0.31, ray_trail_opacity=0.32, building_opacity=0.33, ray_point_size=7, building_color=[0.5, 0.25, 0.125])
    path = os.path.join(ctx.tmp(), "m.1" + s["ext"])
    ext = s["ext"].lower()
    with screen.recording() as scr:
        try:
            make_movie_from_buffer(path, bdg, pos, enr, cfg, verbose=False)
        except ValueError as e:
            check(ext not in (".gif", ".mp4"), "movie refused: %s", e)
            ctx.label("refused")
            return
        check(ext in (".gif", ".mp4"), "movie in an unknown format %s", ext)
    check(np.array_equal(pos, keep[0]) and np.array_equal(enr, keep[1]), "states changed while drawing")
    check(len(scr.plotters) == 1, "%s plotters", len(scr.plotters))
    rec = scr.only
    opened = [c for c in rec.calls if c[0].startswith("open")]
    check(len(opened) == 1 and opened[0][0] == ("open_gif" if ext == ".gif" else "open_movie"), "opened as %s", [c[0] for c in opened])
    check(str((opened[0][1] or [opened[0][2].get("filename")])[0]) == path, "saved in another file")
    check(s["fps"] in list(opened[0][2].values()) + list(opened[0][1]), "frames per second: %s", opened[0])
    check(rec.calls and rec.calls[-1][0] == "close", "movie is not closed")
    polys = [p for _, p in hier.leaves(bdg)]
    state = None
    for frame in rec.frames:
        kinds = sorted(d.kind for d in frame)
        # A trail consisting of one state has lines of single points
        check(len(frame) == 3 and kinds.count("faces") == 1, "frame with %s", kinds)
        (house,) = [d for d in frame if d.kind == "faces"]
        check(shown(house) == triangles(polys), "building drawn wrong")
        check(np.allclose(house.options.get("color"), vis["building_color"]) and house.options.get("opacity") == vis["building_opacity"],
              "building drawn in another color or opacity")
        dots, trail = rays(frame, s)
        # The state is recognised by energies, which are all different
        found = [k for k in range(s["steps"]) if np.allclose(dots.data["energy"], enr[k])]
        check(len(found) == 1, "energies in a frame are not the ones of one state")
        k = found[0]
        check(state is None or k == state + 1, "frame with state %s after %s", k, state)
        state = k
        check(np.allclose(dots.pts, pos[k], atol=1e-5), "rays in state %s drawn in other places", k)
        first = max(0, k + 1 - s["trail"])
        check(len(trail.lines) == s["rays"], "%s trails of %s rays", len(trail.lines), s["rays"])
        want = bag(tuple(key(p) + (round(float(e), 4),) for p, e in zip(pos[first : k + 1, r], enr[first : k + 1, r])) for r in range(s["rays"]))
        got = bag(tuple(key(trail.pts[i]) + (round(float(trail.data["energy"][i]), 4),) for i in ln) for ln in trail.lines)
        check([[q[:3] for q in t] for t in got] == [[q[:3] for q in t] for t in want], "trails in state %s drawn in other places", k)
        check(got == want, "energies of trails in state %s are wrong", k)
        check(dots.options.get("opacity") == vis["ray_opacity"] and dots.options.get("point_size") == vis["ray_point_size"],
              "rays drawn with other opacity or size")
        check(trail.options.get("opacity") == vis["ray_trail_opacity"], "trails drawn with other opacity")
        for d in (dots, trail):
            check(tuple(d.options.get("clim", ())) == (0, 1) and d.options.get("cmap") == vis["movie_colormap"], "other colors of energies")
    # The first and the last state may be left out
    need = s["steps"] - 2
    check(len(rec.frames) >= need, "%s frames for %s states", len(rec.frames), s["steps"])
    if rec.frames:
        check(state >= s["steps"] - 2, "movie ends in state %s", state)
    ctx.label("trail cut" if s["trail"] < s["steps"] - 1 else "whole trail")
    ctx.nontrivial = len(rec.frames) > 1 and s["rays"] > 1


def rays(frame, s):
    rest = [d for d in frame if d.kind != "faces"]
    # Trails were added after points or before; they have lines
    trail = [d for d in rest if d.lines]
    dots = [d for d in rest if not d.lines]
    if len(trail) != 1 or len(dots) != 1:
        fail("frame without rays or trails")
    return dots[0], trail[0]


SUBS = [
    Sub("pictures", pictures_spec, pictures, 500, 10000, "more than one object"),
    Sub("movies", movies_spec, movies, 400, 8000, "more than one ray and more than one frame"),
]
