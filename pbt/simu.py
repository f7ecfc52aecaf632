"""Ray simulations: running them and an independent reference."""

import math
import os

import numpy as np

from building3d.sim.rays.dump_buffers import read_buffers
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

EPS = 1e-6
MARGIN = 1.01  # Rays are reflected if they are closer than the length of a step times this


def configure(bdg, tmp, *, source, step, steps, batch, voxel, rays, speed=1.0, absorbers=(), radius=0.1,
              absorption=(), default=None, transparent=True, name="out"):
    cfg = SimulationConfig(bdg)
    cfg.verbose = False
    cfg.engine.update(time_step=step / speed, num_steps=steps, batch_size=batch, voxel_size=voxel, search_transparent=transparent)
    cfg.rays.update(num_rays=rays, ray_speed=speed, source=tuple(map(float, source)), absorbers=[tuple(map(float, a)) for a in absorbers],
                    absorber_radius=radius)
    if default is not None:
        cfg.surfaces["absorption"]["default"] = default
    for path, value in absorption:
        cfg.set_surface_param("absorption", path, value, bdg)
    cfg.paths["project_dir"] = os.path.join(tmp, name)
    cfg.paths["buffer_dir"] = os.path.join(tmp, name, "states")
    return cfg


def run(bdg, cfg, seed):
    """Returns all states (from files) and whatever was returned by the simulation."""
    np.random.seed(seed)
    last = Simulation(bdg, cfg).run()
    return read_buffers(cfg.paths["buffer_dir"], cfg), last


class Face:
    """A flat polygon: distance to it and the place where a ray hits it."""

    def __init__(self, loop, absorption, name=""):
        p = np.array(loop, dtype=float)
        self.o = p[0]
        n = np.zeros(3)
        for i in range(len(p)):
            n += np.cross(p[i - 1] - p[0], p[i] - p[0])
        self.n = n / np.linalg.norm(n)
        far = max(p[1:], key=lambda q: np.linalg.norm(q - p[0]))
        self.u = (far - p[0]) / np.linalg.norm(far - p[0])
        self.v = np.cross(self.n, self.u)
        self.loop = [(float(np.dot(q - self.o, self.u)), float(np.dot(q - self.o, self.v))) for q in p]
        self.sides = [(self.loop[i - 1], self.loop[i]) for i in range(len(p))]
        self.absorption = absorption
        self.name = name

    def inside(self, x, y):
        ins = False
        for (x1, y1), (x2, y2) in self.sides:
            if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
                ins = not ins
        return ins

    def edge_distance(self, x, y):
        best = math.inf
        for (x1, y1), (x2, y2) in self.sides:
            dx, dy = x2 - x1, y2 - y1
            t = min(1.0, max(0.0, ((x - x1) * dx + (y - y1) * dy) / (dx * dx + dy * dy)))
            best = min(best, math.hypot(x - x1 - t * dx, y - y1 - t * dy))
        return best

    def flat(self, p):
        d = p - self.o
        return float(np.dot(d, self.u)), float(np.dot(d, self.v)), float(np.dot(d, self.n))

    def distance(self, p):
        x, y, h = self.flat(p)
        return abs(h) if self.inside(x, y) else math.hypot(h, self.edge_distance(x, y))

    def hit(self, p, v, margin):
        """(time, hit, ambiguous) for a ray from p with velocity v."""
        x, y, h = self.flat(p)
        vx, vy, vh = float(np.dot(v, self.u)), float(np.dot(v, self.v)), float(np.dot(v, self.n))
        if abs(vh) < 5e-3 * max(1.0, math.hypot(vx, vy)):
            # Almost parallel: cannot be hit soon, unless very close
            return math.inf, False, abs(h) < margin
        t = -h / vh
        if t < 0:
            return t, False, abs(h) < 1e-9
        x, y = x + t * vx, y + t * vy
        return t, self.inside(x, y), self.edge_distance(x, y) < margin


class Doubt(Exception):
    """The next state depends on rounding."""


def target(faces, p, v, margin):
    hits = [(f, *f.hit(p, v, margin)) for f in faces]
    first = min((h[1] for h in hits if h[2]), default=math.inf)
    if any(h[3] and h[1] <= first for h in hits):
        raise Doubt
    best = [h[0] for h in hits if h[2] and h[1] <= first * (1 + 1e-9)]
    if not best:
        raise Doubt
    if len(best) > 1:  # Surfaces of adjacent rooms: the one of the room with the ray
        best = [f for f in best if np.dot(f.n, v) > 0] or best
    if len({f.absorption for f in best}) > 1:
        raise Doubt
    return best[0]


def advance(faces, p, v, energy, dt, reflection, margin):
    """One step of a living ray which is not absorbed by an absorber: (position, velocity, energy, reflections)."""
    n = 0
    while True:
        f = target(faces, p, v, margin)
        d = f.distance(p)
        if abs(d - reflection) < 1e-7 * reflection:
            raise Doubt
        if d > reflection:
            return p + v * dt, v, energy, n
        n += 1
        energy -= f.absorption
        if abs(energy - EPS) < 1e-9:
            raise Doubt
        if energy <= EPS:
            return p, v, 0.0, n
        v = v - 2 * np.dot(v, f.n) * f.n
        if n > 200:
            raise Doubt
