"""Text of the properties; the single source of properties.jsonl and MANIFEST.json."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=["building3d/" + f for f in files], mechanism=mechanism, observe=observe,
                      technique=technique, note=note))


EXACT = ("Sampled, not exhaustive. The oracle is exact integer/rational arithmetic written for this purpose; coordinates "
         "are exactly representable, compared with a tolerance far above rounding and far below any generated feature. "
         "Library code runs with the JIT compiler off; one separate property compares both modes.")

prop(
    "P01", "Polygon measures match its outline",
    "For every simple planar outline, given in either direction and from any convex first corner, the polygon reports the "
    "outline's corners, the right-handed unit normal, the enclosed area, the centroid, the bounding box and the plane equation of that outline. "
    "If a normal is given, the outline is oriented to it whatever the first corner is. "
    "Flipping a polygon gives the same outline with the opposite normal and the requested name and leaves the original as it was.",
    "inputs", "all simple polygons (convex, with reflex or straight corners), both directions, all starting corners, all planes in space, offsets and scales",
    "Tests look at squares, an L shape and one or two slanted outlines with fixed numbers; reflex or straight first corners, centroids of non-convex shapes and flips of them are never reached.",
    ["geom/polygon/__init__.py", "geom/polygon/area.py", "geom/polygon/centroid.py", "geom/polygon/plane.py", "geom/polygon/edges.py", "geom/vectors.py", "geom/triangles.py"],
    [("rolling of points and normal calculation in the constructor", "building3d/geom/polygon/__init__.py"),
     ("area by rotation to the XY plane", "building3d/geom/polygon/area.py"),
     ("area-weighted centroid of triangles", "building3d/geom/polygon/centroid.py")],
    ["Polygon attributes", "Polygon.flip()"],
    "property-based testing, exact 2D reference geometry embedded in 3D", EXACT,
)
prop(
    "P02", "Triangulation tiles the polygon exactly",
    "For every simple planar outline, in either direction and with any first corner (the normal being given), triangulation keeps the corners and "
    "returns exactly n-2 triangles with valid indices, none degenerate, all facing the given normal. "
    "The triangles do not overlap, stay inside the outline and cover all of it.",
    "inputs", "all simple polygons up to about 40 corners, incl. combs, spirals, stars and straight corners",
    "Tests triangulate a handful of fixed outlines and only look at the number of triangles or the total area of them.",
    ["geom/triangles.py", "geom/polygon/__init__.py"],
    [("ear clipping", "building3d/geom/triangles.py"), ("convexity of corners", "building3d/geom/triangles.py")],
    ["Polygon.pts", "Polygon.tri", "triangulate()"],
    "property-based testing with an exact tiling predicate", EXACT,
)
prop(
    "P03", "Point location with respect to a polygon is exact",
    "A point is reported inside a polygon, at its boundary, within its inline of a given margin, or hit by an orthogonal or directed projection exactly when it is so geometrically, "
    "with the boundary counted in or out as requested and projections backwards ignored on request. "
    "A polygon reports containing another one exactly when the other one is inside and its corners are strictly inside, farther from the boundary than the margin, "
    "and the interior point it offers is strictly inside.",
    "inputs", "all simple polygons in space and points inside, outside, on corners and edges, on edge extensions, near the boundary and off the plane; all margins, directions and senses",
    "Tests use squares and a few points; the answer has to be right for each point and each outline, which no list of examples settles.",
    ["geom/polygon/ispointinside.py", "geom/polygon/__init__.py", "geom/triangles.py", "geom/points/__init__.py", "geom/bboxes.py"],
    [("point in triangle by sides", "building3d/geom/triangles.py"), ("projection to the polygon plane", "building3d/geom/polygon/ispointinside.py")],
    ["Polygon.is_point_inside()", "Polygon.contains_polygon()", "Polygon.get_some_interior_point()", "projection functions"],
    "property-based testing, exact point location oracle", EXACT + " Points closer to a corner than about 1e-3 of the unit, but not on it, are not generated.",
)
prop(
    "P04", "Distances from a point to an edge and a polygon are Euclidean",
    "The distance from any point to an edge is the Euclidean distance to the nearest point of the segment, also beyond its ends, whichever end comes first. "
    "The distance from any point to a polygon is the Euclidean distance to the nearest point of its surface, zero on the surface, the same from both sides and after flipping the polygon.",
    "inputs", "all segments and all simple polygons in space; points over, beside, on, near and far from them",
    "Tests check a few axis-aligned squares with round numbers.",
    ["geom/points/distance.py", "geom/polygon/distance.py"],
    [("distance to a segment", "building3d/geom/points/distance.py"), ("orthogonal projection or nearest edge", "building3d/geom/polygon/distance.py")],
    ["distance_point_to_edge()", "distance_point_to_polygon()"],
    "property-based testing, exact squared distance oracle", EXACT,
)
prop(
    "P05", "Intersections, visibility and closest pairs are geometrically right",
    "Two lines or segments in space are reported to meet exactly when they do in a single point, and at that point; a point is reported on a segment exactly when it is on it. "
    "Two points of a plane see each other exactly when no given edge, other than parallel ones and those ending in one of them, blocks the line between them. "
    "Closest pairs of corners of two outlines are found greedily: each is the nearest of the remaining (mutually visible, if requested) pairs, no corner is used twice, and asking for more pairs than possible is refused.",
    "inputs", "all pairs of coplanar, parallel, collinear and skew segments with arguments in any order; point sets and edges; pairs of outlines",
    "Tests cover single examples of each case on axis planes.",
    ["geom/points/intersections.py", "geom/points/__init__.py", "geom/points/visibility.py", "geom/points/find_close_pairs.py"],
    [("line intersection", "building3d/geom/points/intersections.py"), ("visibility matrix", "building3d/geom/points/visibility.py"), ("greedy pairing", "building3d/geom/points/find_close_pairs.py")],
    ["line_intersection()", "line_segment_intersection()", "is_point_on_segment()", "visibility_matrix()", "find_close_pairs()"],
    "property-based testing, exact rational intersection oracle, validity predicate for greedy choice", EXACT,
)
prop(
    "P06", "Facing, crossing and touching polygons are classified correctly",
    "Two polygons face each other exactly when they have the same corners joined in the same way and opposite normals. "
    "Coplanar polygons that overlap partly, or with a common part of the boundary, are crossing; polygons with disjoint interiors are touching exactly when a corner of one is at the boundary of the other, in the same plane or, if neither passes through the other, in planes at an angle; "
    "polygons that are identical, facing, apart, in parallel planes, or one strictly inside the other neither cross nor touch, and no answer depends on the order of the two.",
    "inputs", "all pairs of simple polygons (convex and not) in the same, parallel or perpendicular planes, in general position or sharing corners and edges",
    "Tests list about a dozen pairs of squares and triangles; the answer depends on how each pair of edges meets.",
    ["geom/polygon/crossing.py", "geom/polygon/touching.py", "geom/polygon/facing.py", "geom/polygon/__init__.py", "geom/bboxes.py"],
    [("edge intersection cases", "building3d/geom/polygon/crossing.py"), ("boundary contact without overlap", "building3d/geom/polygon/touching.py"), ("matching of corners", "building3d/geom/polygon/facing.py")],
    ["Polygon.is_facing_polygon()", "Polygon.is_crossing_polygon()", "Polygon.is_touching_polygon()"],
    "property-based testing, exact classification of polygon pairs, symmetry relation",
    EXACT + " The same region described with different straight corners is outside of the claim.",
)
prop(
    "P07", "Slicing a polygon gives two pieces that partition it",
    "Slicing along any simple chain that cuts the polygon in two (ends on corners or edges, or entering from outside across an edge) gives exactly the two pieces cut off by the chain, both with the normal of the original, areas adding up, the original unchanged; parts of the chain running along edges before and after the cut do not matter. "
    "Names go to the pieces holding the points given with them, in the order of the names, and a point in neither piece is refused. "
    "A chain that does not cut the polygon (outside, along an edge, touching a corner, off the plane) is refused.",
    "inputs", "all simple polygons and cutting chains with up to three inner points, between corners, edges, the same edge, or from outside of a convex polygon; all naming modes",
    "Tests slice squares and a few L shapes along fixed chains.",
    ["geom/polygon/slice/__init__.py", "geom/polygon/slice/get_point_arrays.py", "geom/polygon/slice/locate_slicing_points.py", "geom/polygon/slice/remove_redundant_points.py", "geom/polygon/slice/add_intersection_points.py"],
    [("four cases of chain ends", "building3d/geom/polygon/slice/get_point_arrays.py"), ("location of slicing points", "building3d/geom/polygon/slice/locate_slicing_points.py")],
    ["slice_polygon()"],
    "property-based testing, exact partition oracle", EXACT + " Cuts entering from outside exactly through a corner are not generated (they are refused).",
)
prop(
    "P08", "Volumes of solids, zones and buildings are exact",
    "The volume of every closed solid with outward polygons is the volume it encloses, wherever it is in space and however its faces are ordered and grouped into walls. "
    "The volume of a zone or building is the sum of the volumes of what it contains at that time, zero if empty. "
    "The volume and centroid of a tetrahedron are right for any four points in any order.",
    "inputs", "all prisms, oblique prisms, pyramids and bipyramids over simple outlines, in any orientation and position; any grouping into zones",
    "Tests compute volumes of unit boxes and one tetrahedron near the origin.",
    ["geom/solid/__init__.py", "geom/tetrahedrons.py", "geom/zone/__init__.py", "geom/building/__init__.py"],
    [("signed tetrahedra with respect to the origin", "building3d/geom/solid/__init__.py"), ("sums", "building3d/geom/zone/__init__.py")],
    ["Solid.volume", "Zone.volume()", "Building.volume()", "tetrahedron_volume()", "tetrahedron_centroid()"],
    "property-based testing, exact volume oracle", EXACT,
)
prop(
    "P09", "Boxes and floor plans become closed, outward, correctly named solids",
    "A box or a floor plan (any simple outline in either direction, any height, rotation and translation) gives a closed solid whose polygons are exactly the expected faces, with normals pointing outwards and the expected volume. "
    "Walls and polygons carry the documented or requested names, each on the right side of the solid. "
    "Wall names that are repeated or do not match the number of sides are refused.",
    "inputs", "all box sizes and positions; all simple outlines, heights, rotation angles, translations and name lists",
    "Tests build a few boxes and L-shaped plans, and look at normals of convex plans only.",
    ["geom/solid/box.py", "geom/solid/floor_plan.py"],
    [("orientation of walls from the floor outline", "building3d/geom/solid/floor_plan.py"), ("hardcoded corner order", "building3d/geom/solid/box.py")],
    ["box()", "floor_plan()"],
    "property-based testing, face-by-face reference model and closed-surface predicate",
    "Sampled. Decimal sizes, offsets and arbitrary angles are compared with a relative tolerance of 1e-9 on coordinates.",
)
prop(
    "P10", "Points are located in solids and buildings correctly",
    "A point is reported inside a solid exactly when it is inside or on its boundary, and at the boundary exactly when it is on one of its faces, also after walls were changed. "
    "Looking a point up in a building returns a solid that contains it, the first containing one of the solids asked to be looked at first if any, and fails exactly when no solid contains the point.",
    "inputs", "all prisms, pyramids and bipyramids over simple outlines in space; points inside, outside, on faces, edges and corners, next to faces; buildings of several boxes in several zones",
    "Tests use a unit box and a handful of points; ray casting must give the right parity for every point and outline.",
    ["geom/solid/__init__.py", "geom/building/find_location.py", "geom/polygon/ispointinside.py", "geom/triangles.py"],
    [("ray casting", "building3d/geom/solid/__init__.py"), ("search order", "building3d/geom/building/find_location.py")],
    ["Solid.is_point_inside()", "Solid.is_point_at_boundary()", "find_location()"],
    "property-based testing, exact point-in-solid oracle", EXACT,
)
prop(
    "P11", "The graph of a building connects exactly the adjacent objects",
    "For any sequence of requests, the graph of a building at the polygon level joins exactly the pairs of polygons that face, overlap or touch each other, as far as the request asks for these kinds; graphs of walls, solids and zones join exactly the different objects having joined polygons. "
    "A graph made anew describes the building as it is at that time. "
    "Two solids are adjacent exactly when some of their polygons face or overlap, and have a correct interface exactly when some face each other.",
    "inputs histories", "buildings of up to three boxes in any mutual position (facing, overlapping, inside, touching, apart) grouped into zones, all combinations of connection kinds and levels, repeated requests with and without the cache, buildings that grow",
    "Tests request a few graphs of two or three fixed boxes; answers depend on relations of all pairs of faces and on what was requested before.",
    ["geom/building/__init__.py", "geom/building/graph.py", "geom/solid/__init__.py", "geom/bboxes.py"],
    [("pruning by bounding boxes and normals", "building3d/geom/building/graph.py"), ("cache of graphs", "building3d/geom/building/__init__.py")],
    ["Building.get_graph()", "graph_polygon() and others", "Solid.is_adjacent_to_solid()", "Solid.has_correct_interface()"],
    "property-based testing of request sequences, exact relations of axis-aligned faces in rotated frames", EXACT,
)
prop(
    "P12", "Stitching makes adjacent solids share matching polygons",
    "After stitching, the area shared by any two adjacent solids consists of pairs of facing polygons, and no other polygons of different solids overlap. "
    "Pieces tile the polygon they came from and stay in its wall with its normal; volumes, walls and polygons that share no area with another solid are unchanged; the graph of a stitched building describes the new polygons. "
    "Stitching again changes nothing.",
    "inputs", "up to four boxes without common interior, each face possibly shared with several other boxes; two prisms over any simple outlines standing one on another in any position, incl. common corners and edges and one inside the other",
    "Tests stitch a few pairs of boxes; whether the pieces match depends on how the outlines cross, on their convexity and on the order of cuts.",
    ["geom/solid/stitch.py", "geom/building/__init__.py", "geom/polygon/slice/__init__.py", "geom/polygon/crossing.py", "geom/wall/__init__.py"],
    [("choice of the cut", "building3d/geom/solid/stitch.py"), ("replacement of polygons", "building3d/geom/wall/__init__.py")],
    ["Building.stitch_solids()", "stitch_solids()"],
    "property-based testing, exact tiling and shared-area oracle", EXACT,
)
SAMPLED = "Sampled, not exhaustive. The reference model is independent of the library and compared exactly. JIT compiler off."
prop(
    "P13", "Objects are found by their paths through any construction history",
    "After any sequence of creating objects, adding children and replacing polygons or walls, each object's path consists of the names from the building down, its parent is what it was last added to, looking its path up from anywhere in the building returns that very object (or corner), and the listed polygon paths are exactly those of the polygons below. "
    "Paths of nothing existing, names with the separator, and repeated names of siblings are refused, and a refused operation leaves everything as it was. "
    "Names and identifiers given are kept, those not given are different for each object.",
    "histories inputs", "all sequences of up to about twenty operations (create, add, replace, look up) on buildings, zones, solids, walls and polygons with colliding names; all kinds of wrong paths",
    "Tests perform single operations on one box; what remains after refused or repeated operations is not looked at.",
    ["geom/building/__init__.py", "geom/zone/__init__.py", "geom/solid/__init__.py", "geom/wall/__init__.py", "geom/polygon/__init__.py", "geom/paths/validate_name.py", "random.py"],
    [("children dictionaries and parent links", "building3d/geom/wall/__init__.py"), ("path lookup", "building3d/geom/building/__init__.py")],
    ["path, parent, children", "get()", "get_polygon_paths()", "add_*() and replace_*()"],
    "stateful property-based testing against a tree model", SAMPLED,
)
prop(
    "P14", "Meshes and bounding boxes cover exactly the polygons below",
    "The mesh of a wall, solid, zone or building has exactly the points and the oriented triangles of the polygons presently in it, with valid indices, also if some parts are empty, and getting it changes nothing. "
    "Its bounding box is the tightest box of its points. "
    "Boxes overlap, and points are inside of boxes, exactly when the coordinates say so, within the tolerance asked for; edges and faces of a box are its twelve edges and six faces.",
    "inputs", "all trees of zones, solids, walls and polygons incl. empty ones; all stacks of meshes; all boxes and points on a grid",
    "Tests count points and faces of one building; index offsets depend on everything stacked before.",
    ["geom/mesh/__init__.py", "geom/wall/get_mesh.py", "geom/solid/get_mesh.py", "geom/zone/get_mesh.py", "geom/building/get_mesh.py", "geom/bboxes.py"],
    [("offsets of stacked indices", "building3d/geom/mesh/__init__.py"), ("min and max of coordinates", "building3d/geom/bboxes.py")],
    ["get_mesh()", "bbox()", "vstack_mesh()", "bounding box functions"],
    "property-based testing, reference model of flattened trees", SAMPLED,
)
prop(
    "P15", "Conversion of a building to arrays and back loses nothing",
    "The arrays of a building hold all points and triangles, and map each triangle to its polygon, each polygon to its wall, each wall to its solid and each solid to its zone; each object carries its own number, and the counts are right, also if converted repeatedly. "
    "The points and triangles of any polygon can be taken out unchanged. "
    "The building made of the arrays has the same structure and the same polygons, and gives the same arrays.",
    "inputs", "all trees of zones, solids, walls and polygons (convex and not, straight corners), incl. empty parts",
    "Tests convert a building of one or two boxes, where many mistakes in numbering cannot be seen.",
    ["io/arrayformat.py"],
    [("numbering and offsets", "building3d/io/arrayformat.py")],
    ["to_array_format()", "from_array_format()", "get_polygon_points_and_faces()", "count_objects()"],
    "property-based testing, round trip and cross-reference oracle", SAMPLED + " Zones without solids after the last solid are not part of the format.",
)
prop(
    "P16", "B3D files keep the whole building",
    "A building written to a B3D file and read again has the same name, the same zones, solids, walls and polygons with the same names in the same order (also those without children), and each polygon has the same identifier, the same corners to the last digit, the same triangles and normal. "
    "The file has the documented layout, replaces whatever was in its place, and is the same when written again after reading. "
    "Missing directories are created only if asked for, and writing does not change the building.",
    "inputs", "all trees of zones, solids, walls and polygons incl. empty ones, with arbitrary names and identifiers and coordinates with many digits",
    "Tests write one building of boxes with plain names.",
    ["io/b3d.py", "types/recursive_default_dict.py"],
    [("JSON tree", "building3d/io/b3d.py")],
    ["write_b3d()", "read_b3d()"],
    "property-based testing, round trip", SAMPLED,
)
prop(
    "P17", "dotbim files keep names, identifiers and geometry",
    "A building written to a dotbim file and read again has the same name and identifier and the same zones, solids, walls and polygons with the same names, identifiers, order, corners to the last digit and triangles; parts without polygons are left out. "
    "Elements belong to their meshes by number, not by position in the file. "
    "Files not generated by this program are refused.",
    "inputs", "all trees of zones, solids, walls and polygons with arbitrary names and identifiers (also equal names in different places) and coordinates with many digits; reordered and foreign files",
    "Tests write one building of boxes with plain names.",
    ["io/dotbim.py"],
    [("grouping of elements by identifiers and names", "building3d/io/dotbim.py")],
    ["write_dotbim()", "read_dotbim()"],
    "property-based testing, round trip", SAMPLED,
)
prop(
    "P18", "STL files keep the oriented triangles of each solid",
    "A building written to an STL file and read again has one zone with the same solids (same identifiers, same order), each consisting of exactly the oriented triangles of the original one, with the same coordinates to the last digit and unit normals following from them; it is named after the file. "
    "Facets in the file carry the normals of their polygons, and writing and reading again changes nothing.",
    "inputs", "all trees of zones, solids, walls and polygons, incl. several zones, solids without walls, and coordinates with many digits; any indentation of the file",
    "Tests compare numbers of polygons and volumes of one building.",
    ["io/stl.py"],
    [("text parser", "building3d/io/stl.py")],
    ["write_stl()", "read_stl()"],
    "property-based testing, round trip", SAMPLED,
)
prop(
    "P19", "Surfaces between solids of one zone are transparent, all others are not",
    "A surface is transparent to rays if and only if it faces a surface of another solid of the same zone. "
    "The answer depends on the present geometry and division into zones only: not on earlier answers, on what the caller did with them, or on other buildings with the same names.",
    "inputs", "all buildings of several boxes (sharing faces, parts of faces, edges or nothing) divided into zones in any way; growing buildings, regrouped zones and stitched solids",
    "Tests look at two or three buildings; the answers are cached, so a wrong answer appears only after a particular history.",
    ["sim/rays/find_transparent.py", "sim/rays/simulation.py", "geom/building/graph.py"],
    [("facing pairs within a zone, cache", "building3d/sim/rays/find_transparent.py"), ("polygon numbers", "building3d/sim/rays/simulation.py")],
    ["find_transparent()", "Simulation.get_transparent_polygon_numbers()"],
    "property-based testing with an exact oracle (boxes on an integer grid)", EXACT,
)
prop(
    "P20", "The voxel grid never loses a surface close to a ray",
    "Each point of a surface belongs to a cell of the grid which lists the surface, each point of the bounding box belongs to some cell, a surface is listed once and only in cells reached by its bounding box, and the surfaces near a cell are those listed in it and in its 26 neighbours. "
    "A segment is reported to cross a polygon, and a polygon to cross a cuboid, exactly when they do so geometrically.",
    "inputs", "all sets of simple polygons in any orientation, grid steps (including ones which are not powers of two), and cuboids or segments close to polygons, away from mere contact",
    "Tests use one cube and one step; a lost surface lets rays out of the building only in some directions.",
    ["sim/rays/voxel_grid.py", "sim/rays/find_nearby_polygons.py", "geom/polygon/crossing.py", "geom/bboxes.py"],
    [("grid construction", "building3d/sim/rays/voxel_grid.py"), ("neighbouring cells", "building3d/sim/rays/find_nearby_polygons.py"), ("segment and cuboid crossing", "building3d/geom/polygon/crossing.py")],
    ["make_voxel_grid()", "find_nearby_polygons()", "is_line_segment_crossing_polygon()", "is_polygon_crossing_cube()"],
    "property-based testing with exact rational clipping as the oracle", EXACT,
)
prop(
    "P21", "The target of a ray is the first opaque surface on its way",
    "Among the surfaces to be checked which are not transparent, the one reported as the target of a ray is the first one hit in the direction of the ray; surfaces behind the ray or missed by it are never reported, and none is reported if there is no such surface. "
    "Out of two coinciding surfaces of adjacent solids it is the one of the solid containing the ray (normal along the ray). "
    "A ray inside of a closed room has a target in every direction.",
    "inputs", "all sets of polygons, positions, directions and their lengths, transparent surfaces and surfaces to check; prisms with any outline; rays passing very close to an edge excluded",
    "One test with a single polygon; the choice among several surfaces and non-convex ones is not tested.",
    ["sim/rays/find_target.py", "geom/polygon/ispointinside.py"],
    [("choice of the target", "building3d/sim/rays/find_target.py"), ("projection along a vector", "building3d/geom/polygon/ispointinside.py")],
    ["find_target_surface()"],
    "property-based testing with an exact rational ray casting oracle", EXACT,
)
prop(
    "P22", "Rays move straight, reflect specularly and keep an exact energy balance",
    "In every step a ray with energy moves by its speed times the time step along its direction; when it is within one step (with a 1% margin) of the first opaque surface on its way it is reflected specularly and loses the energy absorbed by that surface, of two coinciding surfaces the one of its own room. "
    "A ray inside of an absorber gives all of its energy to it in that step, rays without energy neither move nor change, and no ray ever leaves the room (solids joined by transparent surfaces). "
    "Rays start from the source with unit energy in all directions.",
    "inputs", "all buildings of boxes divided into zones, prisms with any outline, sources, time steps, speeds, batch sizes, voxel sizes not smaller than the reflection distance, absorbers and absorption of individual surfaces; decisions depending on rounding excluded",
    "Tests run few simulations and check that rays stay in the bounding box and that energy decreases.",
    ["sim/rays/simulation.py", "sim/rays/simulation_loop.py", "sim/rays/find_target.py", "sim/rays/simulation_config.py"],
    [("simulation loop", "building3d/sim/rays/simulation_loop.py"), ("batches", "building3d/sim/rays/simulation.py"), ("target", "building3d/sim/rays/find_target.py")],
    ["states written by Simulation.run()"],
    "property-based testing, step by step comparison with an independent reference simulation", SAMPLED,
)
prop(
    "P23", "Simulation results do not depend on batches, voxels or files",
    "A simulation with the same random seed gives the same positions, energies and hits for every division into batches and, in convex rooms, for every voxel size not smaller than a step; each state is in its own files and the returned buffers are the last batch of them. "
    "Running it changes neither the configuration nor earlier results; a buffer directory with files, and numbers of steps which are not a multiple of the batch size, are refused.",
    "configurations", "all divisions of the steps into batches, voxel sizes, directories (new, nested, existing), sources, speeds and absorption in boxes of any orientation",
    "Tests use one batch size and one voxel size; a state lost or repeated between batches is visible only when two divisions are compared.",
    ["sim/rays/simulation.py", "sim/rays/simulation_loop.py", "sim/rays/dump_buffers.py", "sim/rays/voxel_grid.py"],
    [("batches", "building3d/sim/rays/simulation.py"), ("state files", "building3d/sim/rays/dump_buffers.py")],
    ["Simulation.run()", "read_buffers()"],
    "property-based testing, metamorphic comparison of differently divided runs", SAMPLED,
)
prop(
    "P24", "Absorption set for a path applies to all surfaces below it and only to them",
    "After any sequence of settings the value used for a surface is the last one set with its own path or with the path of its wall, solid, zone or building, and otherwise the present default value, at the index of the surface's number. "
    "Paths of nothing are refused without any change, and separate configurations do not influence each other.",
    "histories", "all sequences of settings with complete and partial paths, changed defaults, direct changes, refused paths and growing buildings; any tree with any names",
    "Tests set one value; the order of settings, partial paths and names being prefixes of others are not tried.",
    ["sim/rays/simulation_config.py"],
    [("settings and conversion to an array", "building3d/sim/rays/simulation_config.py")],
    ["SimulationConfig.set_surface_param()", "SimulationConfig.surface_params_to_array()"],
    "stateful property-based testing against a model", SAMPLED,
)
prop(
    "P25", "Saved states are read back exactly and give the right impulse response",
    "Buffers saved in any number of parts, in any order, with any file name patterns, are read back bit by bit with all steps in the numerical order, regardless of other files in the directory; directories with missing files are not read quietly. "
    "The impulse response has one column per absorber and one row per step with the time of the step, is proportional to the hits, and its largest column sums to one; the hits are left unchanged.",
    "inputs", "all numbers of steps, rays and absorbers (also none), parts, orders, file names and directories; all hit buffers and time steps",
    "Tests save one buffer at once; ordering of more than ten steps and parts are not tested.",
    ["sim/rays/dump_buffers.py", "sim/rays/impulse_response.py", "paths/wildcardpath.py"],
    [("writing and reading", "building3d/sim/rays/dump_buffers.py"), ("response", "building3d/sim/rays/impulse_response.py")],
    ["dump_buffers()", "read_buffers()", "impulse_response()"],
    "property-based testing, round trip", SAMPLED,
)
prop(
    "P26", "Wildcard paths match exactly the paths they can produce",
    "Filling a pattern replaces each wildcard with its value everywhere, and among files and directories below a parent exactly those which the pattern can produce are matched, with the values used to produce them. "
    "All ways of listing matches agree, filtering by values selects exactly the matches with these values, directories are created where the filled path says, and missing or unknown wildcards are refused.",
    "inputs", "all patterns of several components with repeated wildcards, wildcard names similar to each other, special characters of regular expressions, values of any size, and similarly named files around",
    "Tests use one pattern of letters and underscores.",
    ["paths/wildcardpath.py"],
    [("pattern to regular expression", "building3d/paths/wildcardpath.py")],
    ["WildcardPath.fill()", "WildcardPath.get_matching_paths()", "WildcardPath.get_matching_paths_dict_values()", "WildcardPath.get_matching_paths_namedtuple_keys()", "WildcardPath.mkdir()"],
    "property-based testing against a separate matcher, in a scratch directory", SAMPLED,
)
prop(
    "P27", "The cyclic buffer keeps the newest elements in order",
    "After any number of insertions, starting anywhere, the buffer read from tail to head contains the last elements in the order of insertion (at most one fewer than the number of places), the array holds the last ones, and head and tail stay within it.",
    "histories", "all buffer sizes, widths, element types, starting positions and numbers of insertions",
    "Tests insert a few elements starting at zero.",
    ["types/cyclic_buffer.py"],
    [("insertion and reading", "building3d/types/cyclic_buffer.py")],
    ["cyclic_buf()", "convert_to_contiguous()"],
    "stateful property-based testing against a list", SAMPLED,
)
prop(
    "P28", "Rotations, angles and normals follow vector geometry",
    "A rotation around a unit vector is rigid, keeps the axis, turns counter-clockwise by the given angle, adds up with other rotations and is undone by the opposite one; points rotated to a plane become perpendicular to the given vector by a rotation around the anchor with the returned axis and angle, followed by the translation. "
    "Angles, normals (following the order of points, undefined for collinear ones), triangle areas and tetrahedron volumes and centroids have their exact values regardless of the order of points.",
    "inputs", "all axes, angles, points, anchors, planes and distances, including parallel, opposite and collinear ones",
    "Tests rotate by multiples of 90 degrees around coordinate axes.",
    ["geom/rotation.py", "geom/vectors.py", "geom/triangles.py", "geom/tetrahedrons.py"],
    [("Rodrigues formula", "building3d/geom/rotation.py"), ("normal and angle", "building3d/geom/vectors.py")],
    ["rotation_matrix()", "rotate_points()", "rotate_points_around_vector()", "rotate_points_to_plane()", "angle()", "normal()", "triangle_area()", "tetrahedron_volume()"],
    "property-based testing with integer vectors and algebraic laws", EXACT,
)
prop(
    "P29", "Collinear, coplanar, equal and intermediate points are recognised exactly",
    "Points are reported collinear (coplanar) exactly when they lie on a line (plane), also with repeated points and in any order; points equal within the tolerance are found in arrays and have equal hashes when rounded to the same numbers. "
    "New points between two points are evenly spaced and lie on the segment; rolled arrays are shifted by one. "
    "Polygons are equal if and only if they have the same corners in the same order.",
    "inputs", "all sets of points of any dimension with repeated ones, coordinates, tolerances, numbers of decimals, segments and polygons",
    "Tests check a handful of points; repeated and early collinear points are not tried.",
    ["geom/points/__init__.py", "geom/polygon/__init__.py", "util/roll_back.py"],
    [("collinearity and coplanarity", "building3d/geom/points/__init__.py"), ("comparison", "building3d/geom/polygon/__init__.py")],
    ["are_points_collinear()", "are_points_coplanar()", "points_equal()", "point_to_hash()", "new_point_between_2_points()", "many_new_points_between_2_points()", "Polygon.__eq__()"],
    "property-based testing with exact rational rank as the oracle", EXACT,
)
prop(
    "P30", "Compiled and parallel code gives right results",
    "With just-in-time compilation on and several threads, geometry (measures, triangulation, distances, location, visibility, relations, slicing), points and rotations, the voxel grid, ray targets and the cyclic buffer give the results required by the other properties, with the same refusals. "
    "Simulations of many rays keep the exact movement, reflection and energy balance, and absorbers get the energy of every ray that reaches them, also of several in the same step.",
    "schedules", "all inputs of properties P01-P07, P20-P22 and P27-P29, with compiled code and simulations of up to 90 rays in parallel threads",
    "Tests of compiled code use single values; lost updates in parallel loops are seen only if several rays hit at once, and results are not compared with anything.",
    ["sim/rays/simulation_loop.py", "geom/polygon/__init__.py", "geom/triangles.py", "types/cyclic_buffer.py"],
    [("parallel loop over rays", "building3d/sim/rays/simulation_loop.py"), ("compiled geometry", "building3d/geom/triangles.py")],
    ["all functions of P01-P07, P20-P22, P27-P29"],
    "property-based testing of compiled code with the exact oracles of the other properties; simulations with parallel threads against a reference", SAMPLED,
)
prop(
    "P31", "Pictures and movies show exactly the given objects and states",
    "A picture shows the triangles, lines and points of each of the given objects, each object in the color given for it or otherwise in its own one, and is saved in the requested file, whose directory is created; no objects, wrong numbers of colors and objects with nothing to draw are refused. "
    "A movie shows the building and consecutive states in order: each ray at its position with its energy, and its trail of at most the configured number of states, each point of it with the energy of that ray at that time. "
    "Settings of the configuration are used, drawing changes nothing, and unknown movie formats are refused.",
    "inputs", "all combinations of objects, colors, files, numbers of rays and states, trail lengths and settings",
    "Tests check only that a file appears; nobody looks at the pictures, and a mistake in the order of points or energies is not visible in the number of files.",
    ["display/plot_objects.py", "sim/rays/movie_from_buffer.py", "sim/rays/ray_buff_plotter.py"],
    [("drawing of objects", "building3d/display/plot_objects.py"), ("frames", "building3d/sim/rays/movie_from_buffer.py")],
    ["plot_objects()", "make_movie_from_buffer()", "RayBuffPlotter"],
    "property-based testing; what is handed over to PyVista is recorded and compared with the objects", SAMPLED,
)
prop(
    "P32", "Helpers: corners of triangles, random values, identifiers, dictionaries, logs",
    "A corner is convex, a point is on the same side of a line as another one, and a point is in a triangle exactly when it is so geometrically. "
    "Random numbers lie in the requested range (ends in any order) and are spread over all of it, identifiers have the requested length and are different also with the same seed; nested dictionaries keep what was put in them, also when converted to plain ones, names with separators are refused and paths are split into their names. "
    "Log messages of all levels go, with their level and logger, to the file requested last, which is made anew.",
    "inputs", "all triangles, points, ranges, lengths, sequences of operations on dictionaries, names, and sequences of log files and messages",
    "Tests check single values; most ranges, corners and sequences of settings are not tried.",
    ["geom/triangles.py", "random/__init__.py", "types/recursive_default_dict.py", "logger/__init__.py", "geom/paths/split_path.py", "util/roll_back.py"],
    [("corners and sides", "building3d/geom/triangles.py"), ("random values", "building3d/random/__init__.py")],
    ["is_corner_convex()", "is_point_on_same_side()", "is_point_inside()", "random_id()", "random_within()", "random_between()", "random_rgb_color()", "recursive_default_dict()", "recursive_default_dict_to_dict()", "split_path()", "validate_name()", "roll_back()", "init_logger()"],
    "property-based testing with exact integer geometry, dictionaries as models, and files in a scratch directory", SAMPLED,
)
