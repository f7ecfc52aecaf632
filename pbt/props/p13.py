"""Histories of putting objects together: paths, parents, lookups, refused operations."""

import numpy as np
from hypothesis import strategies as st

from building3d.geom.building import Building
from building3d.geom.exceptions import GeometryError
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from .. import hier
from ..core import Sub, check, fail

KINDS = ["building", "zone", "solid", "wall", "polygon"]
TRI = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]])
NAME = st.one_of(st.sampled_from(["a", "b", "c", "d", "0", "1"]), st.sampled_from(["a", "b"]),
                 st.text(hier.ALPHABET, min_size=1, max_size=3))


@st.composite
def spec(draw):
    op = st.one_of(
        st.tuples(st.just("new"), st.integers(0, 4), NAME, st.lists(st.integers(0, 30), max_size=3), st.booleans()),
        st.tuples(st.just("add"), st.integers(0, 30), st.integers(0, 30)),
        st.tuples(st.just("add"), st.integers(0, 30), st.integers(0, 30)),
        st.tuples(st.just("replace"), st.integers(0, 30), NAME, st.lists(st.integers(0, 30), min_size=0, max_size=3)),
        st.tuples(st.just("look"), st.integers(0, 30), st.integers(0, 30)),
    )
    first = [("new", 4, draw(NAME), [], draw(st.booleans())) for _ in range(draw(st.integers(1, 4)))]
    up = [("new", k, draw(NAME), draw(st.lists(st.integers(0, 30), max_size=3)), draw(st.booleans())) for k in (3, 3, 2, 2, 1, 1, 0)]
    return {"ops": first + up + draw(st.lists(op, min_size=3, max_size=14)),
            "bad": draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 30), NAME), max_size=6))}


class Node:
    def __init__(self, kind, name, obj):
        self.kind, self.name, self.obj = kind, name, obj
        self.kids = {}
        self.parent = None
        self.gone = False
        self.old = None

    def path(self):
        if self.parent is None:
            return self.name if self.old is None else "old/" + self.name
        return self.parent.path() + "/" + self.name

    def root(self):
        return self if self.parent is None else self.parent.root()

    def below(self):
        for k in self.kids.values():
            yield k
            yield from k.below()


def make(kind, name, kids):
    objs = [k.obj for k in kids]
    if kind == 4:
        return Polygon(TRI.copy(), name=name)
    cls = (Building, Zone, Solid, Wall)[kind]
    return cls(objs, name=name)


ADD = ["add_zone", "add_solid", "add_wall", "add_polygon"]


def refused(fn, errors, what):
    try:
        fn()
    except errors:
        return
    fail("%s was not refused", what)


def verify(nodes):
    """Everything reachable agrees with the model."""
    for n in nodes:
        if n.gone:
            continue
        o = n.obj
        check(o.path == n.path(), "path is %r, expected %r", o.path, n.path())
        check(o.parent is (n.parent.obj if n.parent else n.old), "%s has a wrong parent", n.path())
        if n.kind < 4:
            check(sorted(o.children) == sorted(n.kids), "%s has children %s, expected %s",
                  n.path(), sorted(o.children), sorted(n.kids))
            for k, c in n.kids.items():
                check(o[k] is c.obj and o.children[k] is c.obj, "%s[%r] is another object", n.path(), k)
    for n in nodes:
        if n.gone or n.root().kind != 0:
            continue
        if n.kind < 4:
            want = sorted(x.path() for x in n.below() if x.kind == 4)
            check(sorted(n.obj.get_polygon_paths()) == want, "polygon paths of %s are %s, expected %s",
                  n.path(), sorted(n.obj.get_polygon_paths()), want)
            kids = [x.path() for k in n.obj.children for x in [n.kids[k], *n.kids[k].below()] if x.kind == 4]
            if n.kind == 3:
                check(n.obj.get_polygon_paths() == kids, "polygon paths of %s are not in the order of polygons", n.path())


def history(s, ctx):
    nodes = []
    done = set()

    def free(kind):
        return [n for n in nodes if n.kind == kind and n.parent is None and not n.gone]

    def pick(lst, i):
        return lst[i % len(lst)] if lst else None

    for op in s["ops"]:
        if op[0] == "new":
            kind, name = op[1], op[2]
            kids = []
            for i in op[3] if kind < 4 else []:
                c = pick(free(kind + 1), i)
                if c is not None and c not in kids:
                    kids.append(c)
            if len({c.name for c in kids}) < len(kids):
                refused(lambda: make(kind, name, kids), GeometryError, "a repeated name")
                for c in kids:  # Some of them belong to the abandoned object
                    for x in [c, *c.below()]:
                        x.gone = True
                done.add("refused")
                continue
            n = Node(kind, name, make(kind, name, kids))
            if kind and op[4]:  # First put into something else, which is then abandoned
                n.old = (Building, Zone, Solid, Wall)[kind - 1]([n.obj], name="old")
            for c in kids:
                n.kids[c.name] = c
                c.parent = n
            nodes.append(n)
        elif op[0] == "add":
            n = pick([x for x in nodes if x.kind < 4 and not x.gone], op[1])
            c = pick(free(n.kind + 1), op[2]) if n else None
            if c is None:
                continue
            fn = getattr(n.obj, ADD[n.kind])
            if c.name in n.kids:
                refused(lambda: fn(c.obj), GeometryError, f"adding a second {c.name!r}")
                done.add("refused")
            else:
                fn(c.obj)
                n.kids[c.name] = c
                c.parent = n
                done.add("added")
        elif op[0] == "replace":
            n = pick([x for x in nodes if x.kind in (2, 3) and not x.gone], op[1])
            if n is None:
                continue
            old = op[2] if op[2] in n.kids or not n.kids or op[1] % 5 == 0 else sorted(n.kids)[op[1] % len(n.kids)]
            new = []
            for i in op[3]:
                c = pick(free(n.kind + 1), i)
                if c is not None and c not in new:
                    new.append(c)
            if n.kind == 2:
                if not new:
                    continue
                new = new[:1]
                call = lambda: n.obj.replace_wall(old, new[0].obj)  # noqa: E731
            else:
                call = lambda: n.obj.replace_polygon(old, *[c.obj for c in new])  # noqa: E731
            left = [k for k in n.kids if k != old] + [c.name for c in new]
            if old not in n.kids or len(set(left)) < len(left):
                refused(call, (GeometryError, KeyError), f"replacing {old!r} with {[c.name for c in new]}")
                done.add("refused")
            else:
                call()
                gone = n.kids.pop(old)
                gone.gone = True
                gone.parent = None
                for x in gone.below():
                    x.gone = True
                for c in new:
                    n.kids[c.name] = c
                    c.parent = n
                done.add("replaced")
        else:
            n = pick([x for x in nodes if not x.gone and x.root().kind == 0], op[1])
            if n is None:
                continue
            top = n.root()
            all_ = [top, *top.below()]
            t = all_[op[2] % len(all_)]
            check(n.obj.get(t.path()) is t.obj, "get(%r) from %s gives another object", t.path(), n.path())
            if t.kind == 4:
                for i in range(3):
                    check(np.array_equal(n.obj.get(f"{t.path()}/{i}"), TRI[i]), "get() of a corner is wrong")
        verify(nodes)

    tops = [n for n in nodes if n.kind == 0 and not n.gone]
    for top in tops:
        all_ = [top, *top.below()]
        for t in all_:
            check(top.obj.get(t.path()) is t.obj, "get(%r) gives another object", t.path())
        paths = {x.path() for x in all_}
        for how, i, name in s["bad"]:
            t = all_[i % len(all_)]
            parts = t.path().split("/")
            if how == 0:
                bad = t.path() + "/" + name
            elif how == 1:
                bad = "/".join(parts[:-1] + [name])
            elif how == 2:
                bad = t.path() + "/"
            elif how == 3:
                bad = "/".join(parts[1:])
            elif how == 4:
                bad = "/" + t.path()
            elif how == 5:
                bad = t.path() + "/0/0" if t.kind == 4 else name + "/" + t.path()
            else:
                bad = t.path() + "/3" if t.kind == 4 else t.path() + name
            if bad in paths:
                continue
            if bad.rsplit("/", 1)[0] in {x.path() for x in all_ if x.kind == 4}:
                try:
                    if -3 <= int(bad.rsplit("/", 1)[1]) < 3:
                        continue  # A corner
                except ValueError:
                    pass
            x = all_[(i + 1) % len(all_)]
            refused(lambda: x.obj.get(bad), ValueError, f"path {bad!r}")
    ctx.label(*done)
    ctx.mark(bool(tops) and bool(done & {"refused", "replaced"}))


@st.composite
def name_spec(draw):
    return {"kind": draw(st.integers(0, 4)), "name": draw(st.text(hier.ALPHABET + "/", max_size=6)),
            "uid": draw(st.one_of(st.none(), st.text(hier.ALPHABET, min_size=1, max_size=8))), "n": draw(st.integers(2, 12))}


def naming(s, ctx):
    cls = (Building, Zone, Solid, Wall, Polygon)[s["kind"]]
    args = (TRI.copy(),) if s["kind"] == 4 else ()
    if "/" in s["name"]:
        refused(lambda: cls(*args, name=s["name"]), ValueError, f"name {s['name']!r}")
    else:
        o = cls(*args, name=s["name"], uid=s["uid"])
        check(o.name == s["name"] and o.path == s["name"], "name %r became %r", s["name"], o.name)
        if s["uid"] is not None:
            check(o.uid == s["uid"], "uid %r became %r", s["uid"], o.uid)
    many = [cls(*args) for _ in range(s["n"])]
    check(len({o.name for o in many}) == s["n"], "default names are repeated")
    check(len({o.uid for o in many}) == s["n"], "default identifiers are repeated")
    check(all(o.name and "/" not in o.name for o in many), "default name is not usable in a path")
    ctx.mark("/" in s["name"] or s["uid"] is not None)


SUBS = [
    Sub("history", spec, history, 4000, 60000, "some operation was refused or a child was replaced, and there is a building"),
    Sub("naming", name_spec, naming, 600, 10000, "a name with the separator or an own identifier"),
]
