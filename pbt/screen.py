"""Records what is drawn with PyVista instead of drawing it."""

from contextlib import contextmanager

import numpy as np
import pyvista as pv


def cells(flat):
    """Lists of indices out of [n, i1, ..., in, m, j1, ...]."""
    flat = [int(i) for i in flat]
    out, i = [], 0
    while i < len(flat):
        out.append(flat[i + 1 : i + 1 + flat[i]])
        i += flat[i] + 1
    return out


class Drawn:
    """Copy of a mesh as it was at some moment."""

    def __init__(self, mesh, options):
        self.pts = np.array(mesh.points, dtype=float)
        self.options = options
        self.faces = cells(mesh.faces)
        self.lines = cells(mesh.lines)
        self.data = {k: np.array(mesh.point_data[k]) for k in mesh.point_data}
        self.kind = "faces" if self.faces else "lines" if self.lines else "points"


class Screen:
    def __init__(self):
        self.plotters = []

    @property
    def only(self):
        return self.plotters[0]


class Record:
    """All that happened to one plotter."""

    def __init__(self, options):
        self.options = options
        self.meshes = []
        self.calls = []
        self.frames = []

    def now(self):
        return [Drawn(m, o) for m, o in self.meshes]


@contextmanager
def recording(on_show=None):
    """Replaces the methods of the plotter, so it does not matter how it is imported."""
    screen = Screen()
    rec = {}
    cls = pv.Plotter

    def init(self, *args, **kw):
        rec[id(self)] = r = Record(kw)
        r.me = self
        screen.plotters.append(r)

    def add_mesh(self, mesh, *args, **kw):
        rec[id(self)].meshes.append((mesh, kw))

    def show(self, *args, **kw):
        r = rec[id(self)]
        r.calls.append(("show", args, kw))
        r.frames.append(r.now())
        if on_show is not None:
            on_show(kw)

    def write_frame(self, *args, **kw):
        r = rec[id(self)]
        r.calls.append(("write_frame", args, kw))
        r.frames.append(r.now())

    def note(name):
        def fn(self, *args, **kw):
            rec[id(self)].calls.append((name, args, kw))

        return fn

    new = {"__init__": init, "__del__": lambda self: None, "add_mesh": add_mesh, "add_points": add_mesh, "show": show,
           "write_frame": write_frame, "open_gif": note("open_gif"), "open_movie": note("open_movie"), "close": note("close"),
           "screenshot": note("screenshot")}
    missing = object()
    old = {k: cls.__dict__.get(k, missing) for k in new}
    for k, f in new.items():
        setattr(cls, k, f)
    try:
        yield screen
    finally:
        for r in screen.plotters:
            r.me.__class__ = Nothing  # The real destructor must not see it
            r.me = None
        for k, f in old.items():
            if f is missing:
                delattr(cls, k)
            else:
                setattr(cls, k, f)


class Nothing(pv.Plotter):
    def __init__(self):
        pass

    def __del__(self):
        pass
