PRE = """
import sys
import logging
import numpy as np
logging.disable(logging.CRITICAL)
"""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))



BOXES = """
from building3d.geom.solid.box import box
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.polygon import Polygon
from building3d.geom.zone import Zone
from building3d.geom.building import Building
def poly(*pts, **kw):
    return Polygon(np.array(pts, dtype=float), **kw)
"""

bug("P11-same-wall-skipped", "P11",
    [("geom/building/graph.py", "            if pl1 is pl2:\n                continue\n",
      "            if pl1 is pl2 or pl1.parent is pl2.parent:\n                continue\n")],
    "a graph of touching polygons, two of them in the same wall",
    "touching polygons of one wall are not joined in the graph", BOXES + """
w = Wall([poly((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), name="a"), poly((1, 0, 0), (2, 0, 0), (2, 1, 0), (1, 1, 0), name="b")], name="w")
b = Building([Zone([Solid([w], name="s")], name="z")], name="b")
g = b.get_graph(touching=True)
if "b/z/s/w/b" not in g.get("b/z/s/w/a", []):
    sys.exit(f"touching polygons not joined: {g}")
""")

bug("P12-limited-cuts", "P12",
    [("geom/solid/stitch.py", """    # Find next tuple of adjacent polygons
    adj = next_adjacent_polygons(s1, s2)

    if adj is not None:
        # Process next pair of adjacent polygons
        p1, p2 = adj
        slice_both_and_replace(s1, p1, s2, p2)
        return stitch_solids(s1, s2)

    else:
        return None
""", """    # Every polygon is sliced at most once
    for _ in get_walls_and_polygons(s1):
        # Find next tuple of adjacent polygons
        adj = next_adjacent_polygons(s1, s2)
        if adj is None:
            break

        # Process next pair of adjacent polygons
        p1, p2 = adj
        slice_both_and_replace(s1, p1, s2, p2)
""")],
    "two solids with outlines which cross each other many times",
    "stitching stops before all polygons match", BOXES + """
def prism(pts, z0, z1, name):
    n = len(pts)
    lo, hi = [(x, y, z0) for x, y in pts], [(x, y, z1) for x, y in pts]
    walls = [Wall([poly(*lo[::-1], name="p")], name="lo"), Wall([poly(*hi, name="p")], name="hi")]
    for i in range(n):
        j = (i + 1) % n
        walls.append(Wall([poly(lo[i], lo[j], hi[j], hi[i], name="p")], name=f"w{i}"))
    return Solid(walls, name=name)
top = [(5.0, 0.0)] + [(5 - 0.5 * k, 3.0 if k % 2 else 1.0) for k in range(10)] + [(0.0, 0.0)]
top = [(0.0, 0.0), (5.0, 0.0)] + [(5 - 0.5 * k, 3.0 if k % 2 == 0 else 1.0) for k in range(11)]
for order in (0, 1):
    s = [box(7.0, 2.0, 1.0, (-1.0, 0.0, 0.0), name="a"), prism(top, 1.0, 2.0, "c")]
    if order:
        s.reverse()
    b = Building([Zone(s, name="z")], name="b")
    b.stitch_solids()
    tiles = [[p for w in r.children.values() for p in w.children.values() if np.allclose(p.pts[:, 2], 1)] for r in s]
    for p in tiles[0]:
        for q in tiles[1]:
            if (p.is_crossing_polygon(q) or p.contains_polygon(q) or q.contains_polygon(p)) and not p.is_facing_polygon(q):
                sys.exit("overlapping polygons do not match after stitching")
""")


bug("P13-remembered-path", "P13",
    [("geom/polygon/__init__.py", """        if self.parent is not None:
            p = PATH_SEP.join([self.parent.path, self.name])
            return p
        else:
            return self.name
""", """        if self.parent is None:
            return self.name
        key = id(self.parent)
        if getattr(self, "_path", (None, ""))[0] != key:
            self._path = key, PATH_SEP.join([self.parent.path, self.name])
        return self._path[1]
""")],
    "the path of a polygon asked for before its wall is added to a solid",
    "the path of a polygon is remembered and lacks the objects added above it later", BOXES + """
p = poly((0, 0, 0), (1, 0, 0), (1, 1, 0), name="p")
w = Wall([p], name="w")
p.path
b = Building([Zone([Solid([w], name="s")], name="z")], name="b")
if p.path != "b/z/s/w/p" or b.get(p.path) is not p:
    sys.exit(f"path is {p.path}")
""")

bug("P14-crossed-face", "P14",
    [("geom/bboxes.py", """                (p1[0], p1[1], p0[2]),
                (p1[0], p1[1], p1[2]),
                (p1[0], p0[1], p1[2]),
            ],
            [  # Bottom polygon
""", """                (p1[0], p1[1], p0[2]),
                (p1[0], p0[1], p1[2]),
                (p1[0], p1[1], p1[2]),
            ],
            [  # Bottom polygon
""")],
    "something which depends on the right face of a box",
    "corners of one face of a box are given in a wrong order, so that its sides cross", """
from building3d.geom.bboxes import cube_polygons
for k, p in enumerate(cube_polygons((0.0, 0.0, 0.0), (1.0, 2.0, 3.0))):
    for i in range(4):
        if (p[i] != p[i - 1]).sum() != 1:
            sys.exit(f"side of the face {k} goes from {p[i - 1]} to {p[i]}")
""")


bug("P15-numbers-kept", "P15",
    [("io/arrayformat.py", "                    p.num = pn  # Assign same number to the polygon instance\n",
      "                    if p.num is None:\n                        p.num = pn  # Assign same number to the polygon instance\n")],
    "a building converted twice, changed in between (or polygons reused in another building)",
    "polygons keep the numbers of an earlier conversion", BOXES + """
from building3d.io.arrayformat import to_array_format
w = Wall([poly((0, 0, 0), (1, 0, 0), (1, 1, 0), name="a"), poly((1, 0, 0), (2, 0, 0), (2, 1, 0), name="b")], name="w")
b = Building([Zone([Solid([w], name="s")], name="z")], name="b")
to_array_format(b)
w.replace_polygon("a", poly((0, 0, 0), (1, 0, 0), (1, 1, 0), name="c"))
to_array_format(b)
nums = [p.num for p in w.children.values()]
if nums != [0, 1]:
    sys.exit(f"polygons have numbers {nums}")
""")

bug("P16-names-stripped", "P16",
    [("io/b3d.py", "                wall = Wall(name=wname)\n", "                wall = Wall(name=wname.strip())\n")],
    "a wall with a name starting or ending with a space",
    "names of walls change when a file is read", BOXES + """
import os, tempfile
from building3d.io.b3d import write_b3d, read_b3d
b = Building([Zone([Solid([Wall([poly((0, 0, 0), (1, 0, 0), (1, 1, 0), name="a")], name=" w")], name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.b3d")
    write_b3d(f, b)
    c = read_b3d(f)
if c.get_polygon_paths() != b.get_polygon_paths():
    sys.exit(f"paths changed: {c.get_polygon_paths()}")
""")

bug("P17-shared-meshes", "P17",
    [("io/dotbim.py", "    mesh_id = 0\n    meshes = []\n", "    mesh_id = 0\n    saved = {}  # Equal meshes are saved once\n    meshes = []\n"),
     ("io/dotbim.py", """                    # Instantiate Element object
                    element = dotbimpy.Element(
                        mesh_id=mesh_id,
""", """                    # Instantiate Element object
                    key = (tuple(coordinates), tuple(indices))
                    element = dotbimpy.Element(
                        mesh_id=saved.setdefault(key, mesh_id),
"""),
     ("io/dotbim.py", """                    # Add to lists
                    meshes.append(mesh)
                    elements.append(element)

                    mesh_id += 1
""", """                    # Add to lists
                    elements.append(element)
                    if saved[key] == mesh_id:
                        meshes.append(mesh)
                        mesh_id += 1
""")],
    "two polygons of a building with the same points",
    "one of two equal polygons is lost in a dotbim file", BOXES + """
import os, tempfile
from building3d.io.dotbim import write_dotbim, read_dotbim
t = ((0, 0, 0), (1, 0, 0), (1, 1, 0))
b = Building([Zone([Solid([Wall([poly(*t, name="a")], name="w")], name="s"), Solid([Wall([poly(*t, name="a")], name="w")], name="t")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.bim")
    write_dotbim(f, b)
    c = read_dotbim(f)
if c.get_polygon_paths() != b.get_polygon_paths():
    sys.exit(f"paths changed: {c.get_polygon_paths()}")
""")

bug("P18-fewer-digits", "P18",
    [("io/stl.py", '                        lines.append(f"{l3}vertex {v3x} {v3y} {v3z}\\n")\n',
      '                        lines.append(f"{l3}vertex {v3x:.12g} {v3y:.12g} {v3z:.12g}\\n")\n')],
    "coordinates with more than twelve significant digits in the third corner of a triangle",
    "coordinates are rounded in STL files", BOXES + """
import os, tempfile
from building3d.io.stl import write_stl, read_stl
x = 1 / 3
b = Building([Zone([Solid([Wall([poly((0, 0, 0), (x, 0, 0), (x, x, 0), name="a")], name="w")], name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.stl")
    write_stl(f, b)
    c = read_stl(f)
got = {tuple(q) for q in c.get_mesh()[0].tolist()}
want = {tuple(q) for q in b.get_mesh()[0].tolist()}
if got != want:
    sys.exit(f"coordinates changed: {got}")
""")

bug("P20-stretched-steps", "P20",
    [("sim/rays/voxel_grid.py", "    z_range = np.arange(min_z, max_z + step + eps, step)\n",
      "    z_range = np.linspace(min_z, max_z + step, int(round((max_z - min_z) / step)) + 2)\n")],
    "a height which is not a multiple of the cell size, larger by less than a half of it",
    "layers of cells may be missing in the grid", """
from building3d.sim.rays.voxel_grid import make_voxel_grid
p = np.array([[0.0, 0, 0.9], [2, 0, 0.9], [2, 0, 4.3], [0, 0, 4.3]])
g = make_voxel_grid((0.0, 0.0, 0.9), (2.0, 0.0, 4.3), [p], 1.0, verbose=False)
for k in range(5):
    if 0 not in g.get((0, 0, k), ()):
        sys.exit(f"polygon is not in the cell (0, 0, {k}), cells: {list(g)}")
""")


bug("P21-second-corner-normal", "P21",
    [("sim/rays/find_target.py", "            polygon_normal = normal(poly_pts[pn][-1], poly_pts[pn][0], poly_pts[pn][1])\n",
      "            polygon_normal = normal(poly_pts[pn][0], poly_pts[pn][1], poly_pts[pn][2])\n")],
    "a polygon whose second corner is straight",
    "a surface with a straight second corner hides surfaces in front of it", """
from building3d.geom.polygon import Polygon
from building3d.sim.rays.find_target import find_target_surface
far = Polygon(np.array([[0.0, 0, 5], [1, 0, 5], [2, 0, 5], [2, 2, 5], [0, 2, 5]]))
near = Polygon(np.array([[0.0, 0, 3], [2, 0, 3], [2, 2, 3], [0, 2, 3]]))
for polys, want in (([far, near], 1), ([near, far], 0)):
    got = find_target_surface(np.array([1.0, 1, 0]), np.array([0.0, 0, 1]), [p.pts for p in polys], [p.tri for p in polys], {-1}, {0, 1})
    if got != want:
        sys.exit(f"target is {got}, expected {want}")
""")

SIM = BOXES + """
import os, tempfile
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
from building3d.sim.rays.dump_buffers import read_buffers
def run(b, d, seed=1, absorption=0.0, **kw):
    cfg = SimulationConfig(b)
    cfg.verbose = False
    for k, v in kw.items():
        for part in (cfg.engine, cfg.rays):
            if k in part:
                part[k] = v
    cfg.rays["ray_speed"] = 1.0
    cfg.surfaces["absorption"]["default"] = absorption
    cfg.paths["project_dir"] = d
    cfg.paths["buffer_dir"] = os.path.join(d, "states")
    np.random.seed(seed)
    Simulation(b, cfg).run()
    return read_buffers(cfg.paths["buffer_dir"], cfg)
"""

bug("P22-old-normal-in-corners", "P22",
    [("sim/rays/simulation_loop.py", """                    tri = poly_tri[target_surfs[rn]]
                    vn = normal(pts[-1], pts[0], pts[1])
                    dist = distance_point_to_polygon(position[rn], pts, tri, vn)
                else:
                    vn = np.zeros(3, dtype=FLOAT)
                    dist = np.inf

            if energy""", """                    tri = poly_tri[target_surfs[rn]]
                    dist = distance_point_to_polygon(position[rn], pts, tri, normal(pts[-1], pts[0], pts[1]))
                else:
                    vn = np.zeros(3, dtype=FLOAT)
                    dist = np.inf

            if energy""")],
    "a ray close to an edge of the room, which is reflected from two surfaces in one step",
    "the second reflection in a step uses the normal of the first surface", SIM + """
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    pos, enr, _ = run(b, d, time_step=0.1, num_steps=60, batch_size=60, voxel_size=0.5, num_rays=20, source=(0.5, 0.5, 0.5), absorbers=[], absorption=0.01)
if pos.min() < 0 or pos.max() > 1:
    sys.exit("rays left the room")
if not np.allclose(np.linalg.norm(np.diff(pos, axis=0), axis=2), 0.1):
    sys.exit("rays do not move by one step")
v = np.abs(np.diff(pos, axis=0))
if not np.allclose(v, v[0]):
    sys.exit("reflections are not specular")
""")

bug("P23-mean-velocity", "P23",
    [("sim/rays/simulation.py", "            velocity = (pos_buf[-1] - pos_buf[-2]) / self.time_step\n",
      "            velocity = (pos_buf[-1] - pos_buf[0]) / (self.time_step * self.batch_size)\n")],
    "several batches and a reflection inside of a batch",
    "the velocity at the start of a batch is the mean one of the previous batch", SIM + """
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
res = []
for batch in (24, 6, 1):
    with tempfile.TemporaryDirectory() as d:
        res.append(run(b, d, time_step=0.1, num_steps=24, batch_size=batch, voxel_size=0.5, num_rays=5, source=(0.5, 0.5, 0.5), absorbers=[])[0])
for r in res[1:]:
    if not np.allclose(r, res[0]):
        sys.exit("positions depend on the size of a batch")
""")

bug("P24-building-sets-default", "P24",
    [("sim/rays/simulation_config.py", "        elif isinstance(obj, (Building, Zone, Solid, Wall)):\n",
      """        elif isinstance(obj, Building):
            # All polygons
            self.surfaces[param_name]["default"] = value
        elif isinstance(obj, (Zone, Solid, Wall)):
""")],
    "a value set for a part of the building, then for the whole building",
    "a value set for the building does not replace the ones set for its parts earlier", BOXES + """
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
cfg = SimulationConfig(b)
cfg.set_surface_param("absorption", b.get_polygon_paths()[0], 0.5, b)
cfg.set_surface_param("absorption", "b", 0.3, b)
to_array_format(b)
v = cfg.surface_params_to_array("absorption", b)
if not np.allclose(v, 0.3):
    sys.exit(f"absorption is {v}, expected 0.3")
""")

bug("P25-hits-normalized-in-place", "P25",
    [("sim/rays/impulse_response.py", "    hit_inst = hit_buf.copy()\n", "    hit_inst = hit_buf.view()\n")],
    "hits used after the impulse response was calculated",
    "calculating an impulse response changes the hits", BOXES + """
from building3d.sim.rays.impulse_response import impulse_response
from building3d.sim.rays.simulation_config import SimulationConfig
hits = np.array([[0.0, 1.0], [2.0, 0.0], [2.0, 1.0]])
impulse_response(hits, SimulationConfig(Building(name="b")))
if hits.max() != 2.0:
    sys.exit(f"hits changed: {hits}")
""")

bug("P26-name-with-underscore", "P26",
    [("paths/wildcardpath.py", """                    wname = re.sub(r"_\\d+$", "", gr)\n""",
      """                    wname = gr.split("_")[0]\n""")],
    "a wildcard with an underscore in its name",
    "names of wildcards are cut at the first underscore", """
import os, tempfile
from building3d.paths.wildcardpath import WildcardPath
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f_1_2.x")
    open(f, "w").close()
    try:
        got = WildcardPath("f_<num_a>_<num_b>.x").get_matching_paths_dict_values(d)
    except AssertionError as e:
        sys.exit(f"assertion: {e}")
    if got != {f: {"num_a": 1, "num_b": 2}}:
        sys.exit(f"values: {got}")
""")


bug("P27-full-when-wrapped", "P27",
    [("types/cyclic_buffer.py", "    return np.vstack((buffer[tail:], buffer[:head]))\n",
      "    return np.vstack((buffer[head + 1:], buffer[:head]))\n")],
    "a buffer which is not full, with elements on both sides of its end",
    "places which were never filled are given as elements", """
from building3d.types.cyclic_buffer import cyclic_buf, convert_to_contiguous
n = 6
buf = np.zeros((n, 1))
head = tail = 4
for i in range(1, 30):
    buf, head, tail = cyclic_buf(buf, head, tail, np.array([float(i)]), n)
    got = convert_to_contiguous(buf, head, tail)[:, 0].tolist()
    want = [float(x) for x in range(max(1, i - n + 2), i + 1)]
    if got != want:
        sys.exit(f"after {i} insertions: {got}, expected {want}")
""")


bug("P28-half-turn", "P28",
    [("geom/rotation.py", "abs(phi) < GEOM_ATOL:", "abs(np.sin(phi)) < GEOM_ATOL:")],
    "a rotation by half a turn",
    "points are not rotated if the angle is half a turn", """
from building3d.geom.rotation import rotate_points_around_vector
pts = np.array([[1.0, 1, 2], [2, 1, 2]])
got, _ = rotate_points_around_vector(pts, np.array([0.0, 0, 1]), np.pi)
if not np.allclose(got, pts * [-1, -1, 1]):
    sys.exit(f"points rotated by half a turn: {got}")
""")


bug("P29-text-hash", "P29",
    [("geom/points/__init__.py", "    return hash(point_to_tuple(pt, decimals))\n", "    return hash(np.round(pt, decimals).tobytes())\n")],
    "a coordinate which is negative and rounded to zero",
    "points rounded to the same numbers have different hashes", """
from building3d.geom.points import point_to_hash
a, b = np.array([-1e-12, 1.0, 2.0]), np.array([1e-12, 1.0, 2.0])
if point_to_hash(a) != point_to_hash(b):
    sys.exit("hashes of equal points are different")
""")

bug("P31-energy-of-old-state", "P31",
    [("sim/rays/movie_from_buffer.py", """            point_mesh.points = position[-1, :, :]
            point_mesh["energy"] = energy[-1, :]
""", """            point_mesh.points = position[-1, :, :]
            point_mesh["energy"] = energy[0, :]
""")],
    "a movie with trails longer than one state",
    "rays are shown with the energy they had at the beginning of the trail", BOXES + """
import pyvista as pv
from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
frames, meshes = [], []
class Plotter:
    def __init__(self, *a, **k): pass
    def add_mesh(self, mesh, **k): meshes.append(mesh)
    def write_frame(self, *a, **k): frames.append([(np.array(m.points), np.array(m["energy"])) for m in meshes if "energy" in m.array_names])
    def __getattr__(self, name): return lambda *a, **k: None
pv.Plotter = Plotter
rng = np.random.RandomState(1)
pos, enr = rng.random((6, 3, 3)), rng.random((6, 3))
make_movie_from_buffer("x.gif", b, pos, enr, SimulationConfig(b), verbose=False)
for f in frames:
    pts, e = min(f, key=lambda m: len(m[0]))
    k = [i for i in range(6) if np.allclose(pos[i], pts)][0]
    if not np.allclose(enr[k], e):
        sys.exit(f"energies {e} in state {k}, expected {enr[k]}")
""")

bug("P32-log-appended", "P32",
    [("logger/__init__.py", '        filemode="w",\n', '        filemode="a",\n')],
    "a log file left by an earlier run",
    "messages are added to an old log file", """
import os, tempfile
from building3d.logger import init_logger
logging.disable(logging.NOTSET)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.log")
    with open(f, "w") as h:
        h.write("old\\n")
    init_logger(f)
    logging.getLogger("a").info("new")
    text = open(f).read()
    if "old" in text or "new" not in text:
        sys.exit(f"log file: {text!r}")
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
        h.close()
""")

bug("P30-parallel-absorbers", "P30",
    [("sim/rays/simulation_loop.py", """        for rn in range(num_rays):
            if energy[rn] <= eps:
                continue
            for sn in range(num_absorbers):
""", """        for rn in prange(num_rays):
            if energy[rn] <= eps:
                continue
            for sn in range(num_absorbers):
""")],
    "compiled code, several threads, and many rays reaching an absorber in the same step",
    "energy of rays absorbed in the same step by parallel threads is lost", "", )
BUGS[-1]["demo"] = """import os
os.environ.update(NUMBA_DISABLE_JIT="0", NUMBA_NUM_THREADS="8")
""" + PRE + SIM + """
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
for seed in range(40):
    with tempfile.TemporaryDirectory() as d:
        _, enr, hits = run(b, d, seed, time_step=0.01, num_steps=4, batch_size=4, voxel_size=0.5, num_rays=20000, source=(0.5, 0.5, 0.5),
                           absorbers=[(0.5, 0.5, 0.5)], absorber_radius=0.2)
    if abs(hits.sum() - 20000) > 1e-6:
        sys.exit(f"absorber got {hits.sum()} out of 20000")
"""
