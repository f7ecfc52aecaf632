"""How each property is decided; the source of the sections of DESIGN.md."""

D = {}


def d(id, generated, oracle, bounds, cost):
    D[id] = dict(generated=generated, oracle=oracle, bounds=bounds, cost=cost)


d("P01",
  "Simple polygons (rectangles, triangles, hulls, histograms, monotone, star-shaped, spirals, long concave sides), some with straight corners, both directions, any first corner, placed in space by an exact integer frame, a dyadic unit and offset. Also a given normal, and flips with and without a name.",
  "Exact integer area, centroid and normal of the 2D outline mapped through the same frame; plane equation tested on all corners; bounding box from the corners. After construction also: unit normal, right-hand rule, valid triangles.",
  "3-20 corners, coordinates up to about 50 units; the first corner is convex unless a normal is given (documented requirement of the constructor).",
  "about 8 s, 4800 cases")
d("P02",
  "The shapes of P01, combs and stars with up to 40 corners, long concave sides, straight corners; any first corner, both directions, both senses of the given normal; through the class and through the function.",
  "Exact tiling predicate in 2D: n-2 triangles, indices valid and distinct, each of positive area in the sense of the normal, sum of exact areas equals the area of the outline, every triangle's edges are either outline edges or shared by two triangles once in each direction, centroids inside the outline.",
  "up to about 40 corners",
  "about 6 s, 2600 cases")
d("P03",
  "Polygons of P01 and points chosen relative to the outline: corners, edge points, edge extensions, close to the boundary on either side, inside a triangle of it, far, and off the plane; margins; projection directions, incl. parallel to the plane and backwards; inner polygons scaled and moved.",
  "Exact rational point location (crossing number with boundary class), exact squared distance to the boundary compared with the margin, exact intersection of the projection line with the plane.",
  "Points closer than 8/512 of a unit to a corner, but not on it, are left out, as the library compares points with a relative tolerance of 1e-5.",
  "about 9 s, 7800 cases")
d("P04",
  "Segments and points, incl. degenerate projections beyond both ends; polygons with points above, beside, on, near and far.",
  "Exact distance: minimum over the clamped projection (edge), or the foot of the perpendicular if inside, else the minimum over edges (polygon).",
  "coordinates up to about 100; result compared at 1e-9 relative",
  "about 5 s, 6000 cases")
d("P05",
  "Pairs of segments: crossing, touching in ends, T-shaped, collinear overlapping and apart, parallel, skew; all orders of arguments. Points and blocking edges in one plane. Pairs of outlines, n from 1 to too many, visibility on and off.",
  "Exact rational intersection; visibility by exact segment tests; the list of pairs is judged by a validity predicate (each next pair has the smallest distance among the allowed remaining ones, ties in any order).",
  "coordinates in 1/128 of a unit, offset up to 40 (relative tolerance of the library)",
  "about 11 s, 7800 cases")
d("P06",
  "Pairs of polygons: same, opposite, moved a bit, sharing a corner, a corner on an edge, near, one inside the other, filling a notch, random; same or parallel planes; pairs in planes at an angle sharing an edge part or a corner, or passing through each other, with straight corners in the middle of edges; different outlines through the same corners.",
  "Exact classification of the pair by integer predicates (proper crossing, overlap area, shared boundary points). Both orders of arguments and the functions behind the methods have to agree.",
  "The same region described with different straight corners is only required to be neither facing nor both crossing and touching.",
  "20-45 s, 4200 cases")
d("P07",
  "Convex and non-convex polygons, cuts between two boundary points (corners, edges) with 0-3 inner points, names attached to points in all combinations (points in neither piece too); straight cuts which start outside; long zigzag chains; chains which run along edges before or after the cut; cuts which cannot be made.",
  "Exact: two pieces, exact areas add up to the area of the polygon, interiors disjoint, same normal, the pieces are the two loops determined by the cut, names belong to the piece with the point.",
  "Cuts whose extension passes exactly through a corner are not generated (refused by the library). Chains without inner points which run along several edges may be refused, but not cut wrongly.",
  "about 10 s, 2400 cases")
d("P08",
  "Prisms (also oblique), pyramids and bipyramids over any outline, in any frame, walls grouped and faces reordered; zones and buildings with up to five of them, incl. copies of the same solid; any four points as a tetrahedron; solids turned into other ones wall by wall and asked on the way.",
  "Exact volume from the area of the base; sums; triple product.",
  "tolerance 1e-9 of the product of size and squared distance from the origin",
  "about 4 s, 2700 cases")
d("P09",
  "Box sizes, positions and names; floor plans (any outline, both directions), heights, rotations, translations, wall names; invalid arguments.",
  "Expected corners of each face, names, outward normals, volume; each directed edge of the shell occurs exactly once in each direction.",
  "sizes 1/8 to 40",
  "about 4 s, 1400 cases")
d("P10",
  "Solids of P08 and points inside, outside, in faces, edges and corners, at the level of corners (degenerate rays), near the faces; buildings of several solids and points looked up in them, with hints; solids changed after having been asked.",
  "Exact location by the exact cross-section at the height of the point.",
  "points at least 1/16 unit away from a face unless exactly on it",
  "about 6 s, 2800 cases")
d("P11",
  "Buildings of 2-3 boxes placed to share faces, face parts, edges, corners, or to overlap; grouped into zones; 1-4 requests (level, kinds, new or cached), then a zone is added.",
  "Relation of each pair of rectangles from integer coordinates (facing, crossing, inside, touching, apart); graphs of higher levels by grouping.",
  "boxes only (any frame); perpendicular rectangles meeting edge-to-edge without corner contact are judged by the library's own touching test (P06)",
  "about 30 s, 540 cases")
d("P12",
  "2-4 boxes without common interior, built to share faces; two prisms with any simple plans, moved, sharing corners, or one inside the other; a rectangle and an outline with up to six teeth crossing it; stitched through the building or pairwise, in both orders.",
  "Exact: pieces of a face are simple, disjoint, and their areas add up; the shared area of each pair of solids equals the area of facing pieces; unshared faces are unchanged; second stitching is a no-op; graph after stitching.",
  "plans with coordinates in -18..18 of the grid unit",
  "about 40 s, 660 cases")
d("P13",
  "Sequences of up to 25 operations on a pool of objects with few names: create (with children), add, replace polygon(s) or wall, look up; wrong paths made from right ones by adding, dropping and changing parts; names with the separator.",
  "A tree model: paths, parents, children, identity of the objects found, polygon paths, refused operations (exception, nothing changed).",
  "objects may be moved from a parent which is not used any more; the order after a replacement is not prescribed",
  "about 6 s, 4600 cases")
d("P14",
  "Random trees incl. empty ones with any outlines and up to 300 siblings, polygons replaced and parts added after the first mesh; polygons with 33000 corners; stacks of random meshes; boxes and points on a grid with tolerances.",
  "Multiset of oriented triangles and points of all polygons below each object, exact min/max, exact interval overlap.",
  "up to 3 zones x 3 solids x 3 walls x 2 polygons",
  "about 4 s, 3000 cases")
d("P15", "Random trees as in P14 (with polygons of 33000 corners), converted once or again: unchanged, after a replacement of a polygon, with zones in another order, or polygons put into new walls.",
  "Cross-reference of each array with the objects, equality of points and triangles, equality of arrays after the round trip.",
  "as P14", "about 14 s, 1200 cases")
d("P16", "Random trees with names of letters, digits, spaces, quotes, non-ASCII characters; coordinates multiplied by numbers with many digits; existing file or missing directories; the file written and read again after the building was changed (P16-P18).",
  "Equality of names, order, identifiers, coordinates (bitwise), triangles; the JSON content; equality of the second file.",
  "as P14; scratch directories only", "about 6 s, 2000 cases")
d("P17", "As P16; elements of the file reordered; the name of the tool changed (also to similar ones) or removed.",
  "Equality of names, identifiers, order, coordinates (bitwise), triangles; refusal.", "as P16", "about 8 s, 1500 cases")
d("P18", "As P16; indentation removed.",
  "Multiset of oriented triangles per solid (bitwise coordinates), order of identifiers, normals in the file and of the polygons read.", "as P16", "about 7 s, 1000 cases")
d("P19", "Buildings of 2-4 disjoint boxes on an integer grid in up to three zones; then the same boxes in other zones (same names), zones added one by one, the returned set spoiled, thin fins (facing polygons of one solid) and openings (facing polygons of two solids inside of one of them), solids stitched.",
  "Facing faces computed on the grid; a face is transparent iff it faces one of another box in its zone. After stitching: pairs found with the (separately checked) facing test.", "4 boxes", "about 9 s, 600 cases")
d("P20", "1-3 polygons of any shape and orientation, 1-6 cells per side, dyadic and decimal steps, sampled points of the polygons; cuboids placed around corners; segments through chosen points of the plane.",
  "Cells: floor of exact coordinates. Cuboid: triangles clipped with rational arithmetic, cuboids within 1/128 of contact skipped. Segment: exact location of the crossing point.", "steps above 1/4; contact skipped", "about 4 s, 3900 cases")
d("P21", "1-5 parallel polygons of any shape at different levels with sets to skip and to check; rays inside of prisms with any simple outline.",
  "Exact rational ray casting; cases within a quarter unit (1/32 of the grid) of an edge skipped.", "rays almost parallel to a surface (cosine below 0.002) skipped", "about 8 s, 4500 cases")
d("P22", "Buildings of 1-4 boxes (divided boxes, adjacent boxes of other zones, any frame), rooms with 130 to 234 surfaces in any order, or prisms with any outline and rotation; 1-5 rays, 24 steps in batches of 1-12 (sometimes 110 steps, or 400 rays for the directions); absorbers anywhere; absorption set with partial paths; searching for transparent surfaces on or off.",
  "For each step of each ray the next position and energy are recomputed from the two previous states with a separate floating point ray caster over the exactly known opaque faces; absorbers get the energy of rays inside of them. Steps which depend on rounding (hits within 4 mm of an edge, almost parallel surfaces) are only checked for step length, energy and staying inside.",
  "110 steps; 5 rays", "about 20 s, 390 simulations")
d("P23", "Boxes (one, or two joined by a transparent surface) in any frame; the same seed run with two or three combinations of batch size (12, sometimes 105 steps in batches of all sizes) and voxel size; wrong settings.",
  "Runs compared with each other (1e-7), files with returned buffers (bitwise), names of files, unchanged configuration; refused settings leave the earlier states.", "12 steps, 4 rays", "about 10 s, 160 cases (2-3 simulations each)")
d("P24", "Arbitrary trees (empty objects, repeated names, special characters) and up to ten operations: setting with paths of each depth, default, direct assignment, wrong paths, added zones, another configuration.",
  "A dictionary of explicit values; values compared through polygon numbers after conversion to the array format.", "10 operations", "about 10 s, 900 cases")
d("P25", "Random buffers of up to 25 (sometimes 1000) steps written in up to 5 parts (overlapping by one state or not) in shuffled order with five sets of file names; other files around; missing files; states written again. Hit matrices with many zeros.",
  "Bitwise equality; numerically computed response.", "25 steps", "about 5 s, 800 cases")
d("P26", "Patterns of 1-3 components with up to three wildcards each (repeated; names such as a, a_0, a_1) and literals full of special characters; up to five value sets incl. very large numbers; similar names around.",
  "A separate regular expression with back-references over paths relative to the parent. Paths matching only deeper below the parent are not judged.", "two wildcards never touch each other", "about 4 s, 2000 cases")
d("P27", "Sizes 1-9 (sometimes up to 300), up to 38 (3 rounds) insertions from any starting position.", "A list.", "as generated", "about 2 s, 1500 cases")
d("P28", "Integer vectors (parallel ones included), angles in multiples of 22.5 degrees, arbitrary and tiny ones; polygons of any shape moved to planes with normals equal, opposite or other.",
  "Exact integer cross products; rotation by decomposition into parallel and perpendicular parts; orthogonality, composition, inverse.", "angle of almost parallel vectors to 1e-6 only (arccos)", "about 4 s, 4200 cases")
d("P29", "Integer points on a point, line, plane or anywhere, one of them perhaps moved or repeated, or each of them repeated; coordinates of any size; polygons rolled, reversed, moved, with one more corner.",
  "Exact rank of rational differences; numpy roll; tolerance tested well below and above.", "differences near the tolerance not judged; equality of polygons starting at another corner not judged", "about 6 s, 5600 cases")
d("P30", "The generators of P01-P07, P20, P21, P27-P29, drawn at random, and simulations as in P22 with 1, 7, 40 or 90 rays and 1-3 large absorbers, so that many rays are absorbed in the same step; up to 20000 rays around 1-3 absorbers close to the source.",
  "The oracles of these properties, in processes with compilation on and four threads. For the crowd of rays: energy received by each absorber in each step, summed from the states of rays.", "schedules as they come: races are found by repetition, not enumerated", "about 110 s (compilation; memory of compiled code is not kept between runs), 2300 cases")
d("P31", "Up to four objects (parts of arbitrary trees, ray buffers, any object with the drawing methods, objects without them), colors of several types or wrong numbers, files; states of up to 9 steps and 5 rays with different energies, trails of 1-7, settings.",
  "Methods of the plotter are replaced by ones which record meshes at the time a frame is written; triangles, lines, points and energies are compared as multisets of coordinates.",
  "no rendering; the first and the last state may be missing in a movie (as they are now)", "about 8 s, 900 cases")
d("P32", "Integer triangles and points in any frame (on edges, on lines of edges, corners), ranges, lengths, up to 12 operations on dictionaries, up to 4 log files.",
  "Integer orientation; counts in quarters of the range (9 sigma); a plain dictionary; text of the files.", "log files in a scratch directory; logging settings restored", "about 6 s, 5200 cases")
