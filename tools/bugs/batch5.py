import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch2 import BOXES, PRE  # noqa: E402

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("P01-plane-of-second-corner", "P01",
    [("geom/polygon/plane.py", "    vn = normal(pts[-1], pts[0], pts[1])\n    a, b, c, d = projection_coefficients(pts[0].copy(), vn)\n",
      "    vn = normal(pts[0], pts[1], pts[2])\n    a, b, c, d = projection_coefficients(pts[0].copy(), vn)\n")],
    "an outline whose second corner is not convex",
    "the plane equation has the opposite normal, or none", BOXES + """
p = poly((0, 0, 0), (1, 1, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), vn=np.array([0.0, 0.0, 1.0]))
p = poly((0, 0, 1), (2, 1, 1), (4, 0, 1), (4, 4, 1), (0, 4, 1))
if not np.allclose(p.plane_coefficients, (0, 0, 1, -1)):
    sys.exit(f"plane {p.plane_coefficients}")
""")

bug("P07-lost-point", "P07",
    [("geom/polygon/slice/__init__.py", """            poly1.name = name2
            poly2.name = name1
        elif poly2.is_point_inside(pt2):
            poly1.name = name1
            poly2.name = name2
        else:
            raise GeometryError("pt2 given but outside both polygons")
""", """            poly1.name = name2
            poly2.name = name1
        else:
            poly1.name = name1
            poly2.name = name2
""")],
    "only the second point is given and it is in neither piece",
    "the names are given at random instead of refusing the point", BOXES + """
from building3d.geom.polygon.slice import slice_polygon
p = poly((0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0))
try:
    slice_polygon(p, np.array([[1.0, 0.0, 0.0], [1.0, 2.0, 0.0]]), name1="a", pt2=np.array([5.0, 5.0, 0.0]), name2="b")
except Exception:
    sys.exit(0)
sys.exit("a point outside of both pieces was accepted")
""")

bug("P22-many-surfaces", "P22",
    [("sim/rays/simulation_loop.py", "    target_surfs = np.full(num_rays, -1, dtype=np.int32)\n",
      "    target_surfs = np.full(num_rays, -1, dtype=np.int8)\n")],
    "a building with more than 127 polygons",
    "rays go through the surfaces with higher numbers, or the simulation fails", BOXES + """
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
import os
import tempfile
n = 12
floor = [poly((i, j, 0), (i, j + 1, 0), (i + 1, j + 1, 0), (i + 1, j, 0)) for i in range(n) for j in range(n)]
ceil = [poly((0, 0, 1), (n, 0, 1), (n, n, 1), (0, n, 1))]
side = [poly((0, 0, 0), (n, 0, 0), (n, 0, 1), (0, 0, 1)), poly((n, 0, 0), (n, n, 0), (n, n, 1), (n, 0, 1)),
        poly((n, n, 0), (0, n, 0), (0, n, 1), (n, n, 1)), poly((0, n, 0), (0, 0, 0), (0, 0, 1), (0, n, 1))]
b = Building([Zone([Solid([Wall(side + ceil + floor, name="w")], name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    cfg = SimulationConfig(b)
    cfg.verbose = False
    cfg.paths["project_dir"] = d
    cfg.paths["buffer_dir"] = os.path.join(d, "states")
    cfg.engine["num_steps"] = 30
    cfg.engine["batch_size"] = 30
    cfg.engine["time_step"] = 2e-4
    cfg.engine["voxel_size"] = 1.0
    cfg.engine["search_transparent"] = False
    cfg.rays["num_rays"] = 30
    cfg.rays["source"] = np.array([n - 0.5, n - 0.5, 0.5])
    cfg.surfaces["absorption"]["default"] = 0.0
    sim = Simulation(b, cfg)
    sim.run()
    from building3d.sim.rays.dump_buffers import read_buffers
    pos, enr, hit = read_buffers(cfg.paths["buffer_dir"], cfg)
    if pos[..., 2].min() < -1e-6 or pos[..., 2].max() > 1 + 1e-6:
        sys.exit("a ray left the room")
""")

bug("P25-missing-step-kept-empty", "P25",
    [("sim/rays/dump_buffers.py", "    for step_num in range(max_step):\n        pos_path = wpath_pos.fill(parent=dump_dir, step=step_num)\n",
      "    for step_num in range(max_step):\n        pos_path = wpath_pos.fill(parent=dump_dir, step=step_num)\n        if step_num > 0 and pos_path not in dict_pos:\n            logger.warning(f\"No data for step {step_num}\")\n            continue\n")],
    "a file of positions missing in the middle",
    "an incomplete directory is read with zeros in the place of the missing step", BOXES + """
import os
import tempfile
from building3d.sim.rays.dump_buffers import dump_buffers, read_buffers
from building3d.sim.rays.simulation_config import SimulationConfig
from building3d.paths.wildcardpath import WildcardPath
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
cfg = SimulationConfig(b)
with tempfile.TemporaryDirectory() as d:
    dump_buffers(np.ones((4, 2, 3)), np.ones((4, 2)), np.ones((4, 1)), d, cfg)
    os.remove(WildcardPath(cfg.paths["position_file"]).fill(parent=d, step=2))
    try:
        pos, enr, hit = read_buffers(d, cfg)
    except Exception:
        sys.exit(0)
    sys.exit(f"directory without a file was read: {pos.tolist()}")
""")

bug("P29-mirrored-directions", "P29",
    [("geom/points/__init__.py", """        if np.allclose(vectors[i], vectors[i - 1], atol=atol) or np.allclose(
            vectors[i], -1 * vectors[i - 1], atol=atol
        ):
""", """        if np.allclose(np.abs(vectors[i]), np.abs(vectors[i - 1]), atol=atol):
""")],
    "points in directions which are mirror images of each other",
    "they are reported collinear", """
from building3d.geom.points import are_points_collinear
if are_points_collinear(np.array([[0.0, 0.0, 0.0], [1.0, 2.0, 3.0], [-2.0, 4.0, 6.0]])):
    sys.exit("corners of a triangle are collinear")
""")

bug("P32-seeded-identifiers", "P32",
    [("random/__init__.py", "    uid = str(uuid.uuid4())\n", "    uid = str(uuid.UUID(bytes=np.random.bytes(16), version=4))\n")],
    "the generator of random numbers seeded again",
    "identifiers are repeated", """
from building3d.random import random_id
np.random.seed(1)
a = random_id()
np.random.seed(1)
if random_id() == a:
    sys.exit("identifiers repeated")
""")

bug("P14-short-indices", "P14",
    [("geom/types.py", "INT = np.int32\n", "INT = np.int16\n")],
    "an object with more than 32767 points",
    "the mesh cannot be made, or its triangles have wrong corners", BOXES + """
n = 33000
pts = np.zeros((n, 3))
pts[1, 0] = n - 3
pts[2:, 0], pts[2:, 1] = np.arange(n - 2)[::-1], 1.0
k = np.arange(1, n - 1)
a = Polygon(pts, name="a", tri=np.array([0 * k, k, k + 1]).T)
b = poly((0, 0, 1), (1, 0, 1), (0, 1, 1), name="b")
got, tri = Wall([a, b], name="w").get_mesh()
if not np.array_equal(got[tri[-1]], b.pts[b.tri[0]]):
    sys.exit(f"the last triangle {tri[-1]} is {got[tri[-1]].tolist()}")
""")
