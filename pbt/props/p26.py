"""Paths with wildcards: filling, matching and creating."""

import os
import re

from hypothesis import strategies as st

from building3d.paths.wildcardpath import WildcardPath

from ..core import Sub, check, fail

WORDS = ["a", "a_0", "a_1", "a_00", "n", "step", "step_1", "job", "_x"[1:], "B"]
TEXT = ["", "f", "a_", "_", ".", "x-1", "+", "(b)", "file.", "[1]", " ", "^", "$", "\\d", "?", "*", ".csv", "é"]


@st.composite
def pattern(draw):
    """Components of a path: alternating literals and wildcards (two wildcards never touch each other)."""
    pool = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4, unique=True))
    comps = []
    for _ in range(draw(st.integers(1, 3))):
        comp = []
        for _ in range(draw(st.integers(0, 3))):
            comp.append(["t", draw(st.sampled_from(TEXT[1:])) if comp else draw(st.sampled_from(TEXT))])
            comp.append(["w", draw(st.sampled_from(pool))])
        comp.append(["t", draw(st.sampled_from(TEXT[1:]))])
        if "".join(v for t, v in comp if t == "t").strip(".") == "" and not any(t == "w" for t, _ in comp):
            comp.append(["t", "z"])
        comps.append(comp)
    return comps


@st.composite
def spec(draw):
    comps = draw(pattern())
    number = st.one_of(st.integers(0, 12), st.sampled_from([100, 10**6, 10**20]))
    wild = sorted({v for c in comps for t, v in c if t == "w"})
    return {
        "comps": comps, "cases": draw(st.lists(st.fixed_dictionaries({w: number for w in wild}), min_size=1, max_size=5)),
        "noise": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9), st.sampled_from(["x", "0", ".bak", "_1", "/5", "-"])), max_size=4)),
        "dirs": draw(st.booleans()), "parent": draw(st.sampled_from(["p", "p/q", "a_1", "f0"])),
    }


def text(comps, values=None):
    return "/".join("".join(v if t == "t" else "<%s>" % v if values is None else str(values[v]) for t, v in c) for c in comps)


def regex(comps):
    """Pattern of paths, each wildcard is the same number everywhere."""
    out, seen = "", set()
    for k, c in enumerate(comps):
        out += "/" if k else ""
        for t, v in c:
            if t == "t":
                out += re.escape(v)
            else:
                out += "(?P=%s)" % v if v in seen else "(?P<%s>[0-9]+)" % v
                seen.add(v)
    return re.compile(out)


def paths(s, ctx):
    comps = s["comps"]
    wild = sorted({v for c in comps for t, v in c if t == "w"})
    wp = WildcardPath(text(comps))
    check(wp.path == text(comps), "path is %r", wp.path)
    check(sorted(wp.Case._fields) == wild, "fields of a case are %s", wp.Case._fields)
    root = os.path.join(ctx.tmp(), s["parent"])
    os.makedirs(root)

    want = {}
    for case in s["cases"]:
        rel = text(comps, case)
        check(wp.fill(**case) == rel, "filled path is %r, expected %r", wp.fill(**case), rel)
        full = os.path.join(root, rel)
        check(wp.fill(parent=root, **case) == full, "filled path with a parent is %r", wp.fill(parent=root, **case))
        if s["dirs"]:
            for _ in range(2):  # It may be there already, with something in it
                got = wp.mkdir(root, **case)
                check(os.path.isdir(full) and os.path.abspath(got) == os.path.abspath(full), "created %r, expected %r", got, full)
                check(full not in want or os.path.isfile(os.path.join(full, "-kept-")), "creating %r again removed its files", full)
                with open(os.path.join(full, "-kept-"), "w"):
                    pass
                want[full] = case
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w"):
                pass
        want[full] = case
    # Something else with similar names
    for k, pos, extra in s["noise"]:
        rel = text(comps, s["cases"][k % len(s["cases"])])
        pos = min(pos, len(rel))
        rel = rel[:pos] + extra + rel[pos:]
        if "/." in "/" + rel or "//" in rel or rel.startswith("/"):
            continue
        try:
            os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
            with open(os.path.join(root, rel), "a"):
                pass
        except OSError:
            continue
    rx = regex(comps)
    expected, never, clash = {}, set(), False
    loose = re.compile("(?:.*/)?" + "/".join("".join(re.escape(v) if t == "t" else "[0-9]+" for t, v in c) for c in comps))
    for d, dirs, fs in os.walk(root):
        for f in dirs + fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            m = rx.fullmatch(rel)
            if m:
                expected[p] = {k: int(v) for k, v in m.groupdict().items()}
            elif not loose.fullmatch(p):
                never.add(p)
            else:
                clash = True  # Somewhere deeper, or different values of one wildcard
    try:
        got = wp.get_matching_paths_dict_values(root)
    except AssertionError:
        check(clash, "different values of a wildcard reported, but there are none")
        ctx.label("different values")
        return
    for p, case in expected.items():
        check(p in got, "%r does not match", p)
        check(got[p] == case, "values in %r are %s, expected %s", p, got[p], case)
    for p in got:
        check(p not in never, "%r matches", p)
        check(clash or p in expected, "%r matches", p)
    check(set(wp.get_matching_paths(root)) == set(got) and len(wp.get_matching_paths(root)) == len(got), "lists of matching paths differ")
    named = wp.get_matching_paths_namedtuple_keys(root)
    if not clash:
        check({k: v for k, v in named.items()} == {wp.Case(**c): p for p, c in expected.items()} or len({tuple(sorted(c.items())) for c in expected.values()}) < len(expected),
              "cases are %s", named)
    # Filtering
    case = s["cases"][0]
    for w in wild:
        sel = set(wp.get_matching_paths(root, **{w: case[w]}))
        check(sel == {p for p, c in got.items() if c[w] == case[w]}, "filtering by %s=%s gave %s", w, case[w], sel)
    if wild:
        sel = set(wp.get_matching_paths(root, **case))
        check(sel == {p for p, c in got.items() if c == case}, "filtering by %s gave %s", case, sel)
        # Wrong arguments
        for bad, kind in (({w: 1 for w in wild[1:]}, ValueError), ({**case, "other": 1}, ValueError), ({**{w: 1 for w in wild[1:]}, "other": 1}, KeyError)):
            try:
                wp.fill(**bad)
            except kind:
                pass
            else:
                fail("%s accepted for %r", bad, wp.path)
    else:
        check(not wild and wp.fill() == wp.path, "path without wildcards changed")
    # Another path in the same object
    wp2 = WildcardPath("other_<q>")
    wp2.path = text(comps)
    check(wp2.get_matching_paths_dict_values(root) == got, "changed path matches other files")
    ctx.label(f"{len(wild)} wildcards", "repeated" if sum(t == "w" for c in comps for t, _ in c) > len(wild) else "single")
    ctx.mark(len(wild) > 0 and len(got) > 1)


SUBS = [Sub("paths", spec, paths, 2000, 30000, "there are wildcards and several matching paths")]
