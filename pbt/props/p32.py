"""Corners and sides of triangles, random numbers, identifiers, nested dictionaries and log files."""

import json
import logging
import os
from uuid import UUID

import numpy as np
from hypothesis import strategies as st

from building3d.config import LOG_FILE
from building3d.display.colors import random_rgb_color
from building3d.geom.paths.split_path import split_path
from building3d.geom.paths.validate_name import validate_name
from building3d.geom.triangles import is_corner_convex, is_point_inside, is_point_on_same_side
from building3d.logger import init_logger
from building3d.random import random_between, random_id, random_within
from building3d.types.recursive_default_dict import recursive_default_dict, recursive_default_dict_to_dict
from building3d.util.roll_back import roll_back

from .. import gen
from ..core import Sub, check
from ..gen import Emb, tup

# --------------------------------------------------------------------------
P2 = st.tuples(st.integers(-8, 8), st.integers(-8, 8))


@st.composite
def triangle_spec(draw):
    a, b, c = draw(P2), draw(P2), draw(P2)
    how = draw(st.integers(0, 6))
    if how == 0:  # Straight corner or one going back
        k = draw(st.integers(-2, 2))
        c = (b[0] + k * (b[0] - a[0]), b[1] + k * (b[1] - a[1]))
    q = [draw(P2), draw(P2)]
    # The point as a combination of corners with numbers of 1/8
    w = draw(st.tuples(st.integers(-3, 11), st.integers(-3, 11)))
    return {"t": [a, b, c], "q": q, "w": w, "comb": draw(st.booleans()), "emb": draw(gen.embedding(max_off=40))}


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def triangle(s, ctx):
    a, b, c = tup(s["t"])
    e = Emb(s["emb"])
    o = orient(a, b, c)
    if s["comb"]:
        i, j = s["w"]
        # All in 1/8
        a8, b8, c8 = [(8 * p[0], 8 * p[1]) for p in (a, b, c)]
        q8 = tuple(8 * a[k] + i * (b[k] - a[k]) + j * (c[k] - a[k]) for k in (0, 1))
    else:
        a8, b8, c8 = [(8 * p[0], 8 * p[1]) for p in (a, b, c)]
        q8 = tuple(8 * x for x in s["q"][0])
    A, B, C = e.pts([a, b, c])
    Q = e.pts([(q8[0] / 8, q8[1] / 8)])[0]
    vn = np.array(e.n, dtype=float)
    if a != b and b != c:
        check(bool(is_corner_convex(A, B, C, vn)) == (o > 0), "corner with turn %s: convex %s", o, not o > 0)
        check(bool(is_corner_convex(A, B, C, -vn)) == (o < 0), "corner with turn %s seen from the other side: convex %s", o, not o < 0)
    if a != b and o != 0:
        oq = orient(a8, b8, q8)
        got = bool(is_point_on_same_side(A, B, Q, C))
        check(got == (oq * o > 0), "point on the same side of a line: %s", got)
        check(bool(is_point_on_same_side(B, A, Q, C)) == got, "the side depends on the direction of the line")
        sides = [orient(a8, b8, q8) * o, orient(b8, c8, q8) * o, orient(c8, a8, q8) * o]
        want = all(x >= 0 for x in sides)
        for t in ((A, B, C), (C, B, A), (B, C, A)):
            check(bool(is_point_inside(Q, *t)) == want, "point %s reported %s the triangle", s["w"] if s["comb"] else s["q"][0],
                  "outside of" if want else "inside of")
        ctx.label("inside" if want else "outside")
        if 0 in sides:
            ctx.label("on a line of an edge")
        ctx.nontrivial = True


# --------------------------------------------------------------------------
@st.composite
def random_spec(draw):
    x = st.one_of(st.integers(-20, 20).map(float), st.floats(-1e6, 1e6, allow_nan=False))
    return {"seed": draw(st.integers(0, 2**31)), "lo": draw(x), "hi": draw(x), "lim": abs(draw(x)), "size": draw(st.integers(-3, 36))}


N = 400


def spread(v, lo, hi):
    """All quarters of the range are used about equally (9 sigma)."""
    k = np.clip(((np.asarray(v) - lo) / (hi - lo) * 4).astype(int), 0, 3)
    n = np.bincount(k, minlength=4)
    return np.all(np.abs(n - N / 4) < 9 * (N * 3 / 16) ** 0.5), n.tolist()


def numbers(s, ctx):
    np.random.seed(s["seed"])
    lo, hi = min(s["lo"], s["hi"]), max(s["lo"], s["hi"])
    eps = 1e-12 * max(1.0, abs(lo), abs(hi))
    v = [random_between(s["lo"], s["hi"]) for _ in range(N)]
    check(all(lo <= x <= hi + eps for x in v), "number between %s and %s: %s to %s", s["lo"], s["hi"], min(v), max(v))
    if hi - lo > 1e-6 * max(abs(lo), abs(hi), 1e-9):
        ok, n = spread(v, lo, hi)
        check(ok, "numbers in quarters of the range from %s to %s: %s", lo, hi, n)
        ctx.nontrivial = True
    v = [random_within(s["lim"]) for _ in range(N)]
    check(all(-s["lim"] <= x <= s["lim"] for x in v), "number within %s: %s to %s", s["lim"], min(v), max(v))
    if s["lim"] > 1e-9:
        ok, n = spread(v, -s["lim"], s["lim"])
        check(ok, "numbers in quarters of the range +-%s: %s", s["lim"], n)
    c = np.array([random_rgb_color() for _ in range(N)])
    check(c.shape == (N, 3) and c.min() >= 0 and c.max() <= 1, "wrong colors")
    for k in range(3):
        ok, n = spread(c[:, k], 0.0, 1.0)
        check(ok, "colors in quarters of the range: %s", n)
    # Identifiers are different even if the seed is the same
    size = s["size"]
    np.random.seed(s["seed"])
    ids = [random_id() for _ in range(20)]
    np.random.seed(s["seed"])
    ids += [random_id() for _ in range(20)]
    check(len(set(ids)) == 40 and all(str(UUID(i)) == i for i in ids), "identifiers are repeated or are not UUIDs")
    try:
        i = [random_id(size) for _ in range(6)]
    except ValueError:
        check(not 1 <= size <= 32, "identifier of length %s refused", size)
    else:
        check(1 <= size <= 32, "identifier of length %s given", size)
        check(all(len(x) == size and all(ch in "0123456789abcdef" for ch in x) for x in i), "identifiers %s of length %s", i, size)
        check(size < 8 or len(set(i)) == 6, "identifiers are repeated")


# --------------------------------------------------------------------------
KEY = st.text("ab/.é ", min_size=0, max_size=3)
VALUE = st.one_of(st.integers(-9, 9), st.booleans(), st.none(), st.floats(-9, 9), st.text(max_size=4), st.lists(st.integers(0, 3), max_size=3))


@st.composite
def dict_spec(draw):
    ops = st.tuples(st.sampled_from(["set", "set", "get", "del"]), st.lists(KEY, min_size=1, max_size=4), VALUE)
    return {"ops": draw(st.lists(ops, max_size=12)), "names": draw(st.lists(st.text("ab-_ é/", max_size=4), min_size=1, max_size=5)),
            "x": draw(st.lists(st.integers(0, 9), min_size=1, max_size=6))}


def dicts(s, ctx):
    d, model = recursive_default_dict(), {}
    for op, keys, value in s["ops"]:
        m, x, ok = model, d, True
        for k in keys[:-1]:
            if not isinstance(m, dict):
                ok = False
                break
            m = m.setdefault(k, {})
            x = x[k]
        if not ok or not isinstance(m, dict):
            continue
        if op == "set":
            m[keys[-1]] = value
            x[keys[-1]] = value
        elif op == "get":
            w = m.setdefault(keys[-1], {})
            g = x[keys[-1]]
            check(g == w, "value %s instead of %s", g, w)
        elif keys[-1] in m:
            del m[keys[-1]]
            del x[keys[-1]]
    check(d == model, "nested dictionary differs from the values set")
    other = recursive_default_dict()
    check(other == {}, "a new dictionary is not empty")
    plain = recursive_default_dict_to_dict(d)
    check(plain == model and d == model, "converted dictionary differs")

    def only_dicts(v):
        check(not isinstance(v, dict) or type(v) is dict, "converted dictionary contains %s", type(v))
        for k in v if isinstance(v, dict) else ():
            only_dicts(v[k])

    only_dicts(plain)
    check(json.dumps(plain, sort_keys=True) == json.dumps(model, sort_keys=True), "types of values differ")
    plain["new"] = 1
    check("new" not in d, "converted dictionary is not a copy")
    # Names and paths
    names = [n for n in s["names"] if "/" not in n]
    for n in s["names"]:
        try:
            check(validate_name(n) == n, "name changed")
            check("/" not in n, "name with a separator accepted")
        except ValueError:
            check("/" in n, "name %s refused", n)
    if names:
        check(list(split_path("/".join(names))) == names, "names in a path: %s", split_path("/".join(names)))
    x = list(s["x"])
    y = roll_back(x)
    check(list(y) == x[1:] + x[:1] and x == s["x"], "rolled list %s of %s", y, x)
    ctx.nontrivial = any(isinstance(v, dict) and v for v in model.values())


# --------------------------------------------------------------------------
@st.composite
def log_spec(draw):
    msg = st.text("abc é\"'%{}漢", min_size=1, max_size=8)
    item = st.tuples(st.sampled_from(["debug", "info", "warning", "error"]), st.sampled_from(["building3d.x", "y"]), msg)
    return {"runs": draw(st.lists(st.tuples(st.sampled_from([None, "a.log", "p/q/b.log", "p/c.txt"]), st.lists(item, max_size=5)), min_size=1, max_size=4)),
            "old": draw(st.booleans())}


def logs(s, ctx):
    root = logging.getLogger()
    before, level, off, cwd = list(root.handlers), root.level, logging.root.manager.disable, os.getcwd()
    tmp = ctx.tmp()
    try:
        for h in before:
            root.removeHandler(h)
        logging.disable(logging.NOTSET)
        os.chdir(tmp)
        if s["old"]:
            with open(os.path.join(tmp, "a.log"), "w") as f:
                f.write("OLD\n")
        content = {}
        for path, items in s["runs"]:
            init_logger(path)
            where = LOG_FILE if path is None else path
            content[where] = items
            for how, name, msg in items:
                getattr(logging.getLogger(name), how)("%s", msg)
            for h in root.handlers:
                h.flush()
            for p, want in content.items():
                with open(os.path.join(tmp, p), encoding="utf-8") as f:
                    lines = f.read().splitlines()
                check(len(lines) == len(want), "%s lines of log for %s messages", len(lines), len(want))
                for ln, (how, name, msg) in zip(lines, want):
                    check(ln.startswith(f"[{how.upper()}|{name}|") and ln.endswith("] " + msg), "line of log %r", ln)
        ctx.nontrivial = len(s["runs"]) > 1
    finally:
        os.chdir(cwd)
        for h in list(root.handlers):
            root.removeHandler(h)
            h.close()
        for h in before:
            root.addHandler(h)
        root.setLevel(level)
        logging.disable(off)


SUBS = [
    Sub("triangle", triangle_spec, triangle, 3000, 60000, "the triangle is not degenerate"),
    Sub("random", random_spec, numbers, 400, 8000, "the range is not a single number"),
    Sub("dict", dict_spec, dicts, 1500, 30000, "there are nested values"),
    Sub("log", log_spec, logs, 300, 6000, "the log was changed to another file"),
]
