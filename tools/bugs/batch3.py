import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch2 import BOXES, PRE  # noqa: E402

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("P05-rounded-distances", "P05",
    [("geom/points/find_close_pairs.py", "                pairs.append((d, i, j))\n",
      "                pairs.append((round(d, 2), i, j))\n")],
    "two pairs at nearly the same distance",
    "a pair which is not the nearest is returned first", BOXES + """
from building3d.geom.points.find_close_pairs import find_close_pairs
a = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], dtype=float)
b = np.array([(11.001, 0, 0), (12, 0, 0), (12, 1, 0), (11, 1, 0)])
got = find_close_pairs(a, b, 1)
if not np.allclose(got[0], [a[2], b[3]]):
    sys.exit(f"nearest pair {got.tolist()}")
""")

bug("P06-first-three-points", "P06",
    [("geom/polygon/crossing.py", "    if not are_points_coplanar(np.vstack((pts1, pts2))):\n",
      "    if not are_points_coplanar(np.vstack((pts1, pts2[:3]))):\n")],
    "the first three corners of the second polygon are collinear and in the plane of the first one",
    "perpendicular polygons with a common line are reported as crossing", BOXES + """
a = poly((0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0))
b = poly((-1, 2, 0), (2, 2, 0), (5, 2, 0), (5, 2, 3), (-1, 2, 3))
c = poly((1, 4, 0), (2, 4, 0), (3, 4, 0), (3, 4, 3), (1, 4, 3))
if a.is_crossing_polygon(b) or not a.is_touching_polygon(c):
    sys.exit("perpendicular polygons classified as crossing")
""")

bug("P08-kept-volume", "P08",
    [("geom/solid/__init__.py", """        total_volume = 0.0
        all_polys = [p for w in self.children.values() for p in w.children.values()]
        for poly in all_polys:
            for tri in poly.tri:
""", """        total_volume = 0.0
        all_polys = [p for w in self.children.values() for p in w.children.values()]
        if getattr(self, "_volume", (0, 0.0))[0] == len(all_polys):
            return self._volume[1]  # The solid has not changed
        for poly in all_polys:
            for tri in poly.tri:
"""), ("geom/solid/__init__.py", "        return abs(float(total_volume))\n",
       "        self._volume = (len(all_polys), abs(float(total_volume)))\n        return self._volume[1]\n")],
    "the volume was asked for before polygons were replaced by as many others",
    "the volume of the earlier shape is returned", BOXES + """
s = box(1, 1, 1)
other = box(1, 1, 2)
s.volume
for name in list(s.walls):
    s.replace_wall(name, other.walls[name])
if abs(s.volume - 2) > 1e-9:
    sys.exit(f"volume {s.volume}")
""")

bug("P09-plan-half-turn", "P09",
    [("geom/solid/floor_plan.py", "    if not np.isclose(rot_angle, 0):\n",
      "    if not np.isclose(np.sin(rot_angle), 0):\n")],
    "rotation by exactly half a turn",
    "the plan is not rotated", BOXES + """
from building3d.geom.solid.floor_plan import floor_plan
s = floor_plan([(0, 0), (2, 0), (2, 1), (0, 1)], 1.0, rot_angle=np.pi)
lo, hi = s.bbox()
if not np.allclose(lo, (-2, -1, 0)):
    sys.exit(f"bounding box {lo} {hi}")
""")

bug("P10-kept-bbox", "P10",
    [("geom/solid/__init__.py", "        bbox = self.bbox()\n        min_x, min_y, min_z = bbox[0]\n",
      """        if getattr(self, "_bbox", None) is None:
            self._bbox = self.bbox()
        bbox = self._bbox
        min_x, min_y, min_z = bbox[0]
""")],
    "a point was looked for before the solid was given other walls",
    "points are located with the bounding box of the earlier shape", BOXES + """
s = box(1, 1, 1)
s.is_point_inside(np.array([0.5, 0.5, 0.5]))
other = box(1, 1, 3)
for name in list(s.walls):
    s.replace_wall(name, other.walls[name])
if not s.is_point_inside(np.array([0.5, 0.5, 2.0])):
    sys.exit("a point inside reported outside")
""")

bug("P11-opposite-only", "P11",
    [("geom/solid/__init__.py", """                vn2 = other_poly.vn
                if are_polygons_crossing(pts1, tri1, pts2, tri2):
                    return True
""", """                vn2 = other_poly.vn
                if np.dot(vn1, vn2) > 0:
                    continue  # Adjacent polygons look in opposite directions
                if are_polygons_crossing(pts1, tri1, pts2, tri2):
                    return True
""")],
    "solids with overlapping polygons which have the same normal",
    "solids with overlapping polygons are not adjacent", BOXES + """
a = box(2, 2, 2)
b = box(1, 1, 1, (1.5, 1, 0))
if not a.is_adjacent_to_solid(b):
    sys.exit("overlapping floors are not adjacent")
""")

bug("P13-first-parent", "P13",
    [("geom/wall/__init__.py", "    def parent(self, sld):\n        self._parent = sld\n",
      "    def parent(self, sld):\n        if self._parent is None:\n            self._parent = sld\n")],
    "a wall is added to another solid later",
    "the parent and path of the wall are those of the first solid", BOXES + """
w = box(1, 1, 1, name="a")["floor"]
t = Solid([w], name="t")
if w.parent is not t or w.path != "t/floor":
    sys.exit(f"path {w.path}")
""")

bug("P14-kept-mesh", "P14",
    [("geom/wall/__init__.py", "        return get_mesh_from_polygons(list(self.children.values()))\n",
      """        key = tuple(self.children)
        if getattr(self, "_mesh", (None,))[0] != key:
            self._mesh = (key, get_mesh_from_polygons(list(self.children.values())))
        return self._mesh[1]
""")],
    "a polygon is replaced by one with the same name after getting the mesh",
    "the mesh shows the old polygon", BOXES + """
w = Wall([poly((0, 0, 0), (1, 0, 0), (1, 1, 0), name="p")])
w.get_mesh()
w.replace_polygon("p", poly((0, 0, 5), (1, 0, 5), (1, 1, 5), name="p"))
if w.get_mesh()[0][0, 2] != 5:
    sys.exit("mesh of a replaced polygon")
""")

bug("P16-triangles-recalculated", "P16",
    [("io/b3d.py", "                        uid=uid,\n                        tri=np.array(tri, dtype=INT),\n",
      "                        uid=uid,\n                        tri=np.array(tri, dtype=INT) if len(pts) > 4 else None,\n")],
    "a quadrilateral with triangles other than those found by triangulation",
    "triangles are different after reading", BOXES + """
import os, tempfile
from building3d.io.b3d import read_b3d, write_b3d
p = poly((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), name="p", tri=np.array([[0, 1, 2], [2, 3, 0]]))
b = Building([Zone([Solid([Wall([p], name="w")], name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    write_b3d(os.path.join(d, "b.b3d"), b)
    q = read_b3d(os.path.join(d, "b.b3d")).get("b/z/s/w/p")
if not np.array_equal(p.tri, q.tri):
    sys.exit(f"triangles {q.tri.tolist()}")
""")

bug("P17-similar-tools", "P17",
    [("io/dotbim.py", '    elif bim["info"]["generated_by"] != TOOL_NAME:\n',
      '    elif TOOL_NAME.lower() not in bim["info"]["generated_by"].lower():\n')],
    "a file generated by a tool with a similar name",
    "the file is not refused", BOXES + """
import json, os, tempfile
from building3d.io.dotbim import read_dotbim, write_dotbim
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "b.bim")
    write_dotbim(f, b)
    bim = json.load(open(f))
    bim["info"]["generated_by"] = "Converter from Building3D"
    json.dump(bim, open(f, "w"))
    try:
        read_dotbim(f)
    except ValueError:
        sys.exit(0)
sys.exit("file of another tool was read")
""")

bug("P18-name-to-first-dot", "P18",
    [("io/stl.py", "    bdg = Building([zone], name=Path(path).stem)\n",
      '    bdg = Building([zone], name=Path(path).name.split(".")[0])\n')],
    "a file name with a dot in it",
    "the building gets only a part of the name of the file", BOXES + """
import os, tempfile
from building3d.io.stl import read_stl, write_stl
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "house.v2.stl")
    write_stl(f, b)
    name = read_stl(f).name
if name != "house.v2":
    sys.exit(f"name {name}")
""")

bug("P18-first-word-of-id", "P18",
    [("io/stl.py", '            solid_uid = line[len("solid") :].strip()\n',
      '            solid_uid = " ".join(line.split()[1:])\n')],
    "a solid with an identifier with two spaces in a row",
    "the solid cannot be read", BOXES + """
import os, tempfile
from building3d.io.stl import read_stl, write_stl
s = Solid(list(box(1, 1, 1).walls.values()), uid="room  1")
b = Building([Zone([s], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "house.stl")
    write_stl(f, b)
    c = read_stl(f)
uids = [s.uid for z in c.zones.values() for s in z.solids.values()]
if uids != ["room  1"]:
    sys.exit(f"identifiers {uids}")
""")

SIM = BOXES + """
import os, tempfile
from building3d.sim.rays.simulation_config import SimulationConfig
from building3d.sim.rays.simulation import Simulation
def config(b, d, **kw):
    c = SimulationConfig(b)
    c.verbose = False
    c.engine.update(time_step=0.001, num_steps=10, batch_size=10, voxel_size=0.5)
    c.rays.update(num_rays=20, ray_speed=100.0, source=(0.5, 0.5, 0.5))
    c.paths["project_dir"] = d
    c.paths["buffer_dir"] = os.path.join(d, "states")
    return c
"""

bug("P22-weak-rays", "P22",
    [("sim/rays/simulation_loop.py", "    eps: float = 1e-6,\n", "    eps: float = 1e-3,\n")],
    "a ray with very little energy left",
    "the ray stops although it has energy", SIM + """
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    c = config(b, d)
    c.engine.update(num_steps=200, batch_size=200)
    c.surfaces["absorption"]["default"] = 0.09999
    np.random.seed(1)
    pos, enr, hit = Simulation(b, c).run()
e = np.unique(np.round(enr, 9))
if not np.isclose(e, 0.0001, atol=1e-6).any():
    sys.exit(f"energies {e}")
""")

bug("P23-other-files-allowed", "P23",
    [("sim/rays/simulation.py",
      "        if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:\n",
      """        states = []
        if os.path.exists(self.buffer_dir):
            states = [f for f in os.listdir(self.buffer_dir) if f.endswith(".npy")]
        if len(states) > 0:
""")],
    "a buffer directory with other files than saved states",
    "the directory is not refused", SIM + """
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    c = config(b, d)
    os.makedirs(c.paths["buffer_dir"])
    open(os.path.join(c.paths["buffer_dir"], "energy_0.npy.bak"), "w").close()
    try:
        Simulation(b, c)
    except RuntimeError:
        sys.exit(0)
sys.exit("directory with files was not refused")
""")

bug("P26-mkdir-once", "P26",
    [("paths/wildcardpath.py", "        abs_path.mkdir(parents=True, exist_ok=True)\n",
      "        if not abs_path.parent.exists():\n            abs_path.parent.mkdir(parents=True)\n        abs_path.mkdir()\n")],
    "a directory which exists already",
    "making the directory fails", """
import tempfile
from building3d.paths.wildcardpath import WildcardPath
with tempfile.TemporaryDirectory() as d:
    w = WildcardPath("a_<x>")
    if w.mkdir(d, x=1) != w.mkdir(d, x=1):
        sys.exit("different directories")
""")

bug("P28-no-clip", "P28",
    [("geom/vectors.py", "    if dot_v1_v2 > 1.0:\n        dot_v1_v2 = 1.0\n    elif dot_v1_v2 < -1.0:\n",
      "    if dot_v1_v2 < -1.0:\n")],
    "parallel vectors for which the dot product is rounded up",
    "the angle is not a number", """
from building3d.geom.vectors import angle
for i in range(1, 30):
    for j in range(1, 30):
        v = np.array([1.0, i, j])
        if not angle(v, 3 * v) < 1e-6:
            sys.exit(f"angle {angle(v, 3 * v)}")
""")

bug("P31-one-level-directory", "P31",
    [("display/plot_objects.py", "            parent_dir.mkdir(parents=True)\n", "            parent_dir.mkdir()\n")],
    "a picture in a directory whose parent does not exist either",
    "the picture is not saved", BOXES + """
import os, tempfile
from building3d.display.plot_objects import plot_objects
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a", "b", "c.png")
    plot_objects((box(1, 1, 1),), output_file=f)
    if not os.path.exists(f):
        sys.exit("no picture")
""")

