import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from batch2 import BOXES, PRE  # noqa: E402

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("P19-one-surface-per-pair", "P19",
    [("sim/rays/find_transparent.py", "                if k not in added or v[0] not in added:\n",
      "                pair = (k.rsplit(\"/\", 2)[0], v[0].rsplit(\"/\", 2)[0])\n                if pair not in added:\n"),
     ("sim/rays/find_transparent.py", "                        added.add(k)\n                        added.add(v[0])\n",
      "                        added.add(pair)\n                        added.add(pair[::-1])\n")],
    "two solids of a zone with more than one common surface",
    "only the first of the surfaces between two solids is transparent", BOXES + """
from building3d.sim.rays.find_transparent import find_transparent
def parts(a):
    f = [poly((1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)), poly((1, 1, 0), (1, 2, 0), (1, 2, 1), (1, 1, 1))]
    return [p.flip() for p in f] if a else f
s = [Solid([Wall(parts(k), name="w")], name=f"s{k}") for k in range(2)]
got = find_transparent(Building([Zone(s, name="z")], name="b"))
if len(got) != 4:
    sys.exit(f"transparent surfaces: {sorted(got)}")
""")

bug("P16-file-read-once", "P16",
    [("io/b3d.py", '    with open(path, "r") as f:\n        bdict = json.load(f)\n',
      '    if path not in CACHE:\n        with open(path, "r") as f:\n            CACHE[path] = json.load(f)\n    bdict = CACHE[path]\n'),
     ("io/b3d.py", "def read_b3d(path: str) -> Building:\n", "CACHE: dict[str, dict] = {}  # Content of files already read\n\n\ndef read_b3d(path: str) -> Building:\n")],
    "a file is read, written again with another building, and read again",
    "the old building is returned", BOXES + """
import os
import tempfile
from building3d.io.b3d import read_b3d, write_b3d
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "b.b3d")
    write_b3d(f, Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="one"))
    read_b3d(f)
    write_b3d(f, Building([Zone([box(2.0, 1.0, 1.0, name="s")], name="z")], name="two"))
    if read_b3d(f).name != "two":
        sys.exit("an old version of the file was read")
""")

bug("P24-paths-by-beginning", "P24",
    [("sim/rays/simulation_config.py", "            polygon_paths = obj.get_polygon_paths()\n",
      "            polygon_paths = [p for p in building.get_polygon_paths() if p.startswith(obj.path)]\n")],
    "an object whose name is the beginning of the name of its sibling",
    "setting a parameter of the first one changes the other one too", BOXES + """
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1.0, 1.0, 1.0, name="s1"), box(1.0, 1.0, 1.0, (3.0, 0.0, 0.0), name="s10")], name="z")], name="b")
cfg = SimulationConfig(b)
cfg.set_surface_param("absorption", "b/z/s1", 0.5, b)
to_array_format(b)
got = cfg.surface_params_to_array("absorption", b)
if not np.allclose(got, [0.5] * 6 + [0.2] * 6):
    sys.exit(f"absorption {got}")
""")

bug("P22-both-absorbers", "P22",
    [("sim/rays/simulation_loop.py", "            for sn in range(num_absorbers):\n                absorber_sq_dist",
      "            ray_energy = energy[rn]\n            for sn in range(num_absorbers):\n                absorber_sq_dist"),
     ("sim/rays/simulation_loop.py", "                    hits[sn] += energy[rn]  #", "                    hits[sn] += ray_energy  #")],
    "two absorbers overlapping each other, and a ray inside of both",
    "both absorbers get the energy of the ray", BOXES + """
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
import os
import tempfile
b = Building([Zone([box(1.0, 1.0, 1.0, name="s")], name="z")], name="b")
with tempfile.TemporaryDirectory() as d:
    cfg = SimulationConfig(b)
    cfg.verbose = False
    cfg.paths["project_dir"] = d
    cfg.paths["buffer_dir"] = os.path.join(d, "states")
    cfg.engine.update(time_step=1e-4, num_steps=4, batch_size=4, voxel_size=0.5)
    cfg.rays.update(num_rays=5, source=(0.5, 0.5, 0.5), absorbers=[(0.5, 0.5, 0.5), (0.5, 0.5, 0.55)], absorber_radius=0.2)
    _, _, hits = Simulation(b, cfg).run()
if not np.isclose(hits.sum(), 5):
    sys.exit(f"absorbed energy {hits.sum()} of 5 rays")
""")

bug("P26-values-as-text", "P26",
    [("paths/wildcardpath.py", "                        if k == wcard and v == val:\n",
      "                        if k == wcard and str(v) in str(val):\n")],
    "filtering by a value which is a part of another value, e.g. 1 and 10",
    "paths with other values are returned", """
import os
import tempfile
from building3d.paths.wildcardpath import WildcardPath
with tempfile.TemporaryDirectory() as d:
    for k in (1, 10, 21):
        open(os.path.join(d, f"f_{k}.csv"), "w").close()
    got = WildcardPath("f_<n>.csv").get_matching_paths(d, n=1)
if len(got) != 1:
    sys.exit(f"paths {got}")
""")

bug("P04-clamped-start-only", "P04",
    [("geom/points/distance.py", "    elif t > 1:\n", "    elif t > 1 + 1e-2:\n")],
    "a point beyond the second end of the edge by less than 1% of its length",
    "the distance is that to the line and not to the edge", """
from building3d.geom.points.distance import distance_point_to_edge
a, b = np.array([0.0, 0, 0]), np.array([10.0, 0, 0])
d = distance_point_to_edge(np.array([10.05, 0.01, 0.0]), a, b)
if not np.isclose(d, np.hypot(0.05, 0.01)):
    sys.exit(f"distance {d}")
""")

bug("P20-truncated-cells", "P20",
    [("sim/rays/voxel_grid.py", "                        int(np.floor(z / step)),\n", "                        int(z / step),\n")],
    "a building below the level 0, not beginning just below it",
    "the lowest layer of cells is missing", """
from building3d.sim.rays.voxel_grid import make_voxel_grid
p = np.array([[0.0, 0, -2.5], [2, 0, -2.5], [2, 0, -1.5], [0, 0, -1.5]])
g = make_voxel_grid((0.0, 0.0, -2.5), (2.0, 0.0, -1.5), [p], 1.0, verbose=False)
if 0 not in g.get((0, 0, -3), ()):
    sys.exit(f"polygon is not in its cell, cells: {list(g)}")
""")

bug("P15-zones-counted", "P15",
    [("io/arrayformat.py", "    num_zones = np.max(zones) + 1\n", "    num_zones = len(set(zones))\n")],
    "a zone without solids before another one",
    "zones get lost in the round trip", BOXES + """
from building3d.io.arrayformat import to_array_format, from_array_format
b = Building([Zone([], name="e"), Zone([box(1.0, 1.0, 1.0)], name="z")], name="b")
c = from_array_format(*to_array_format(b))
if sum(len(z.solids) for z in c.zones.values()) != 1:
    sys.exit("the solid is lost")
""")
