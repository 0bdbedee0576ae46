TOL = "Results are compared with a tolerance near 1e-10 of the model's size, so rounding-order changes are not reported."
A_SCALAR = "The portable (scalar) code path of the vector and box types, the one the project's tests build here; the NEON and x86 intrinsic paths are not compiled."
A_TOL = TOL
ENUM = "bounded exhaustive state enumeration of the real code against an executable reference model"
PROPS = []
NOT_APPLICABLE = []
NOTES = "Every check builds its harness from /repo's working tree (headers only), explores on all cores, re-runs each violating case before reporting it; see DESIGN.md."


def P(**k):
    PROPS.append(k)


P(id="C01", title="A curve evaluates to the point its B-spline definition gives",
  statement="For any valid curve (degree 1 to 8, sorted knots with any interior multiplicity up to the degree, clamped or unclamped, positive weights given as homogeneous control points) and any parameter of its valid domain, including every knot and both ends, evaluation returns the point defined by the Cox-de Boor recursion divided by the weight function. Constructors without explicit knots give the clamped uniform (or, for periodic curves, wrapped uniform and closed) curve of the requested degree. The answer depends only on the curve and the parameter, not on earlier calls, other curves or what the result variable held before.",
  over=["inputs", "histories"], quant="all degrees 1-8, knot vectors, control nets, weights and parameters, and all orders of evaluation calls",
  why="Tests evaluate a handful of cubic curves at one parameter and print the result; wrong spans at repeated knots, at the domain end, at high degrees or for rational curves stay invisible.",
  files=["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h"],
  mech=[("span search", "nurbs_utils.h find_span"), ("basis functions", "nurbs_utils.h basis_funs"), ("point evaluation", "nurbs_utils.h curve_point, nurbs.h NURBSCurve::evaluate")],
  observe="points returned by evaluating curves built through the public constructors",
  technique=ENUM, parts=[dict(src="c01_curve_eval.cpp")],
  note="Complete within the stated bounds: every degree 1-8, every interior multiplicity pattern up to the bound, 6 knot layouts (one with spans of 6e-8), 5 nets, 4 weight patterns, every knot and both sides of it. Trusts the long double reference recursion.",
  bounds="States are distinct curves (knots, control points, degree); a transition is one evaluation compared with the Cox-de Boor recursion in long double. Interior multiplicity patterns are enumerated exhaustively up to 4 interior knots (degree 1-2), 3 (degree 3), 2 (degree 4-8).",
  assume=[A_SCALAR, A_TOL])

P(id="C02", title="Curve derivatives equal the derivative of the evaluated curve",
  statement="For any valid curve and parameter of its domain, the analytic derivatives of every requested order (order 0 being the point, orders above the degree of a polynomial curve being zero) equal the true derivatives of the evaluated, possibly rational, curve, one-sided at knots where they jump. The finite-difference first and second derivatives approximate the same values inside a span. For curves with all weights 1, the derivative curve has degree one lower, is structurally valid and evaluates to the derivative everywhere, also when repeated.",
  over=["inputs", "histories"], quant="all degrees 1-8, knot vectors, control nets, weights, parameters and derivative orders",
  why="Tests print one first derivative of a quadratic; high degrees, repeated knots, weights and higher orders are never compared with anything.",
  files=["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h"],
  mech=[("basis derivatives", "nurbs_utils.h ders_basis_funs, curve_derivs_alg1"), ("derivative curve", "nurbs_utils.h get_nurbs_derivative"), ("curve interface", "nurbs.h NURBSCurve::derivative, derivative_fdm, second_derivative_fdm, derivatives, get_derivative")],
  observe="values returned by the derivative calls of curves",
  technique=ENUM, parts=[dict(src="c02_curve_deriv.cpp")],
  note="Complete within the stated bounds; derivative orders up to 3 for the list form, derivative curves up to third order. The derivative curve of rational curves is outside the property (it is not of the stated degree).",
  bounds="States are distinct curves and derivative curves; transitions are derivative queries compared with the differentiated Cox-de Boor recursion (quotient rule for weights).",
  assume=[A_SCALAR, A_TOL])

P(id="C03", title="Refining, renormalising or copying a curve never changes its shape",
  statement="Any sequence of knot insertions (0 up to degree minus multiplicity copies, at new parameters, at existing knots or within rounding of one), knot refinements and knot normalisations leaves a structurally valid curve that traces the same points, with exactly the knots asked for and the parameter mapped affinely by normalisation. Copies, assignments and moves carry every part of the curve (control points, knots, degree, periodic flag, interval, box) and are independent values: changing one never changes the other.",
  over=["inputs", "histories"], quant="all curves of degree 1-8 and all operation sequences",
  why="Tests insert one knot into one cubic and print the outcome; repeated knots, high degrees, near-equal parameters and sequences of operations are never compared with the original shape.",
  files=["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h"],
  mech=[("knot insertion", "nurbs_utils.h knot_insertion, knot_insertion_kv, nurbs.h NURBSCurve::insert_knot"), ("refinement", "nurbs_utils.h knot_refinement"), ("normalisation and copies", "nurbs.h NURBSCurve::normalize_knots, copy, move and assignment")],
  observe="knots, control points and evaluated points of the curve after each operation",
  technique="explicit-state breadth-first search over the objects reachable by operation sequences of the real code, against a reference model",
  parts=[dict(src="c03_curve_refine.cpp")],
  note="Complete within the stated bounds: breadth-first to depth 3 (degree 1-3) or 2 (degree 4-8) from every initial curve of the family; thorough goes one deeper.",
  bounds="States are distinct curve objects reached by insert/normalise/copy/refine sequences; each is compared with the original shape at every knot and inside every span, by the reference recursion.",
  assume=[A_SCALAR, A_TOL, "Parameters between 1e-12 and 1e-9 away from a knot are not asked."])

P(id="C04", title="Splitting, decomposing and joining curves preserve the geometry",
  statement="Splitting a curve at any interior parameter gives two valid curves whose domains meet at the parameter, that together trace the original (also after nested splits and with normalised knots), and does not touch the original; at or beyond the domain ends it is refused with an exception. Decomposition gives one Bezier piece per non-empty span, in order, each on its span's domain. Joining succeeds exactly for open curves that share an end point, and then the result runs through both control polygons joined at that end, and is reported closed exactly when the curves share both ends.",
  over=["inputs", "histories"], quant="all curves of degree 1-8, split parameters (including knots of any multiplicity) and sequences of splits and joins",
  why="The tests split one curve at one parameter; multiplicities, repeated and nested splits, and every end-to-end combination of a join need enumeration.",
  files=["cmmcore/nurbs.h", "cmmcore/nurbs_utils.h"],
  mech=[("split", "nurbs.h NURBSCurve::split"), ("decompose", "nurbs.h NURBSCurve::decompose"), ("join", "nurbs.h NURBSCurve::join")],
  observe="the resulting curves: domains, knots, control points and evaluated points",
  technique="explicit-state breadth-first search over nested splits of the real code, against a reference model",
  parts=[dict(src="c04_curve_split.cpp")],
  note="Complete within the stated bounds: every split parameter class (knots of each multiplicity, span interiors), nested splits to the stated depth, all four join orientations and both kinds of ring, with equal and with different weights.",
  bounds="States are distinct curve pieces reached by nested splits and decompositions; each is compared with the original curve at every knot and inside every span.",
  assume=[A_SCALAR, A_TOL])

BFS = "explicit-state breadth-first search over the objects reachable by operation sequences of the real code, against a reference model"

P(id="C05", title="A surface evaluates to the point its tensor-product definition gives",
  statement="For any valid surface (degrees 1 to 8 in each direction, sorted knots of any interior multiplicity up to the degree, positive weights) and any parameter pair of its domain, including knots, edges and corners, evaluation returns the tensor-product Cox-de Boor point divided by the weight function, independently of earlier calls. Every constructor (control points with or without weights, knots given or left out in either direction) gives that surface with clamped uniform knots by default, an empty net is refused, and the control-point accessors return the net in row order, Cartesian where they say so.",
  over=["inputs", "histories"], quant="all degree pairs 1-8, knot vectors, nets, weights and parameters",
  why="Tests evaluate one cubic surface at one point; unequal degrees, repeated knots, weights, domain edges and default knots stay unchecked.",
  files=["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h"],
  mech=[("point evaluation", "nurbs_utils.h surface_point, nurbs.h NURBSSurface::evaluate"), ("construction and default knots", "nurbs.h NURBSSurface constructors, generate_knots_u/v"), ("accessors", "nurbs.h control_points_flat, control_points_flat3d, control_points3d")],
  observe="points returned by evaluating surfaces built through the public constructors, and the accessor results",
  technique=ENUM, parts=[dict(src="c05_surface_eval.cpp")],
  note="Complete within the stated bounds: all 64 degree pairs, all multiplicity patterns with one interior knot per direction (two for degrees 1-2), both sides of every knot. Trusts the long double reference recursion.",
  bounds="States are distinct surfaces; a transition is one evaluation or accessor entry compared with the reference tensor product.",
  assume=[A_SCALAR, A_TOL])

P(id="C06", title="Surface partial derivatives and normals agree with the surface",
  statement="Inside every span and at the domain edges the finite-difference partial derivatives approximate the true partials of the (possibly rational) surface, and the normal is the unit vector along du x dv wherever that is not zero. For surfaces with all weights 1, the derivative surface in either direction, also repeated and mixed, is structurally valid and evaluates to the exact partial. The derivative control nets (of the whole net or a sub-range) and the rational quotient rule reproduce the exact mixed derivatives.",
  over=["inputs", "histories"], quant="all degree pairs, knot vectors, nets, weights, parameters and derivative orders",
  why="No test compares a surface derivative with an independent value; direction mix-ups, missing factors and stale sizes are invisible.",
  files=["cmmcore/nurbs.h", "cmmcore/nurbs_utils.h"],
  mech=[("finite differences and normal", "nurbs.h derivative_u, derivative_v, normal"), ("derivative surface", "nurbs.h NURBSSurface::get_derivative"), ("derivative nets and quotient rule", "nurbs_utils.h curve_deriv_cpts, surface_deriv_cpts, rat_surface_derivs")],
  observe="values returned by the derivative and normal calls",
  technique=ENUM, parts=[dict(src="c06_surface_deriv.cpp")],
  note="Complete within the stated bounds (degree sums up to 9, derivative surfaces to third order). Derivative surfaces of rational surfaces are outside the property.",
  bounds="States are distinct surfaces and derivative surfaces; transitions are derivative queries compared with the differentiated reference recursion.",
  assume=[A_SCALAR, "Finite differences are compared with a tolerance derived from the step 1e-5 and the span width."])

P(id="C07", title="Refining, splitting or subdividing a surface preserves the geometry",
  statement="Any sequence of knot insertions in u and v, splits, subdivisions (all four call forms) and decompositions yields structurally valid surfaces whose domains tile the original domain exactly and which evaluate to the original surface at the same parameters, with exactly the knots asked for. The source surface of a split, subdivision or decomposition is untouched, splits at or beyond the domain edge are refused, decomposition gives one Bezier patch per non-empty span pair in row order, and copies are independent values.",
  over=["inputs", "histories"], quant="all surfaces and all sequences of refinement operations",
  why="The intersection algorithms subdivide recursively; tests check only end results of one or two models, so a wrong piece at a repeated knot or unequal degrees goes unnoticed.",
  files=["cmmcore/nurbs.h", "cmmcore/nurbs_utils.h"],
  mech=[("insertion", "nurbs.h NURBSSurface::insert_knot, insert_knot_u, insert_knot_v"), ("split and subdivide", "nurbs.h split_surface_u, split_surface_v, subdivide"), ("decompose", "nurbs.h NURBSSurface::decompose")],
  observe="knots, domains and evaluated points of every resulting surface",
  technique=BFS, parts=[dict(src="c07_surface_refine.cpp")],
  note="Complete within the stated bounds: breadth-first, depth 2 for degree sums up to 4 and depth 1 above (thorough: 3 and 2).",
  bounds="States are distinct surfaces reached by operation sequences; each is compared with the original at every knot pair and inside every span.",
  assume=[A_SCALAR, A_TOL])

P(id="C08", title="Isocurves and boundary curves lie on the surface",
  statement="For any surface and any parameter of the fixed direction inside the knot range, the extracted isocurve is a valid curve with the other direction's degree, knots and domain that coincides with the surface along the whole line, for rational surfaces too. The four boundary curves are the isocurves at the domain ends in the order u-min, u-max, v-min, v-max. A parameter outside the range is refused, and member and free functions agree.",
  over=["inputs"], quant="all surfaces, directions and fixed parameters",
  why="Tests extract the boundaries of one surface and only print them; non-uniform knots, unequal degrees and the v direction are never compared with the surface.",
  files=["cmmcore/nurbs.h", "cmmcore/boundary_intersection.h"],
  mech=[("isocurve", "nurbs.h NURBSSurface::extract_isocurve, boundary_intersection.h extract_isocurve"), ("boundaries", "nurbs.h NURBSSurface::extract_surface_boundaries, boundary_intersection.h extract_surface_boundaries")],
  observe="the extracted curves and their evaluated points",
  technique=ENUM, parts=[dict(src="c08_isocurves.cpp")],
  note="Complete within the stated bounds: degree pairs with sum up to 9 (thorough: all 64), every knot and both sides of it as fixed parameter.",
  bounds="States are distinct extracted curves; a transition is one point of a curve compared with the reference surface.",
  assume=[A_SCALAR, A_TOL])

P(id="C09", title="Bounding boxes contain the geometry and box algebra is exact",
  statement="The box reported by a curve or surface contains every point of it, and is the box of its Cartesian control points, after construction and after any history of copies, control point replacement, splits, decompositions, joins, isocurve extraction and differentiation (after knot insertion it still contains the shape). Boxes intersect exactly when they share a point, touching included; intersection, merge, expand, volume and construction from points give the exact boxes.",
  over=["inputs", "histories"], quant="all curves and surfaces, all operation histories, all pairs of boxes",
  why="The intersection code prunes by boxes: a stale or too small box silently loses intersections in inputs no test contains.",
  files=["cmmcore/aabb.h", "cmmcore/nurbs.h"],
  mech=[("box algebra", "aabb.h AABB"), ("curve box", "nurbs.h NURBSCurve::rebuildAABB, aabb, bbox"), ("surface box", "nurbs.h NURBSSurface::aabb, bbox")],
  observe="boxes returned by curves, surfaces and AABB operations",
  technique=BFS, parts=[dict(src="c09_boxes.cpp")],
  note="Complete within the stated bounds: every pair of boxes with corners on a 3x3x3 grid (thorough 4x4x4) for two value layouts; histories to depth 2 (thorough 3).",
  bounds="States are distinct boxes, curves and surfaces reached; transitions are pair operations and containment queries.",
  assume=[A_SCALAR, "Direct writes to the public control_points members are followed by rebuildAABB or bbox, as the library's own code does."])

P(id="C10", title="BVH queries report exactly the objects that brute force finds",
  statement="A hierarchy built over any list of boxed objects (top-down or bottom-up) holds every object exactly once, every inner box covers its children, and box and point queries report exactly the objects whose boxes touch the query, each once; an empty list gives an empty tree that answers nothing. Two hierarchies are intersected into exactly the pairs of objects whose boxes touch (the recursive form may leave out overlaps of volume below 1e-6, as it documents). Copied and assigned trees are independent and answer alike.",
  over=["inputs", "histories"], quant="all scenes of boxes (flat, nested, equal, far apart), queries, build methods and pairs of trees",
  why="No test builds a hierarchy directly; a lost subtree or pruned pair silently loses intersections of surfaces far from the tested models.",
  files=["cmmcore/bvh.hpp", "cmmcore/aabb.h"],
  mech=[("construction", "bvh.hpp build_bvh_top_down, build_bvh_bottom_up, split_objects, build_bvh"), ("queries", "bvh.hpp traverse_bvh, contains_point, intersect_bvh, intersect_bvh_iterative"), ("copies", "bvh.hpp BVHNode")],
  observe="the object lists and pairs the queries return, and the nodes of the tree",
  technique=ENUM, parts=[dict(src="c10_bvh.cpp")],
  note="Complete within the stated bounds: all sequences of up to 3 boxes (a third of those of 4; thorough: 5) over three alphabets of 6-10 boxes, all orders of 5-6, strided scenes to 40 objects, all pairs of trees with up to 3 and 2 objects.",
  bounds="States are distinct scenes and build methods; a transition is one build, query or tree intersection compared with brute force.",
  assume=[A_SCALAR])

P(id="C11", title="The k-d tree answers like a plain list of its points",
  statement="After any history of building from a list (also an empty one, and rebuilding) and inserting single points, duplicates and equal coordinates included, the tree reports the right size, the nearest-neighbour query returns a stored point at the minimal distance to any target and refuses on an empty tree, and the range query returns exactly the stored points inside the closed box, each as often as it was stored. Building does not lose or change points of the caller's list.",
  over=["inputs", "histories"], quant="all histories of build and insert and all query targets and boxes",
  why="One test queries one tree of random points; pruning errors at equal coordinates, duplicates and mixed build-and-insert histories need every short history.",
  files=["cmmcore/kdtree.h"],
  mech=[("construction and insertion", "kdtree.h KDTree::build, insert, buildTree"), ("queries", "kdtree.h nearestNeighbor, rangeSearch")],
  observe="size, nearest neighbour and range results",
  technique=BFS, parts=[dict(src="c11_kdtree.cpp")],
  note="Complete within the stated bounds: all insert sequences to length 4 and a quarter of those of length 5 (thorough: all of 5, a quarter of 6), all builds of up to 3 points followed by up to 2 inserts, all orders of 7 points, point sets to 60.",
  bounds="States are distinct point lists with their histories; a transition is one operation or query compared with the list.",
  assume=["Targets at equal distance from several points may get any of them."])

P(id="C12", title="Array views address exactly the elements they describe",
  statement="Any sequence of slicing (with Python's rules for negative, missing and out-of-range bounds and for steps of either sign), row access, reshaping and copying of a view of any shape yields a view whose shape, size, elements and printed preview are those of the same operations on an n-dimensional array, and whose elements alias the right cells of the base array. Invalid indices, zero steps, too many slices and reshapes to another size are refused; a strided view is reshaped to the same elements in the same order or refused. A copy has its own elements, which its views keep alive.",
  over=["inputs", "histories"], quant="all shapes, slice parameters and sequences of view operations",
  why="Tests try a few slices of two arrays; negative steps, empty dimensions, slices of slices and reshaped slices are where offsets and strides go wrong.",
  files=["cmmcore/memoryview.h"],
  mech=[("slicing and access", "memoryview.h MemoryView::slice, operator[], operator()"), ("reshape and copy", "memoryview.h MemoryView::reshape, copy"), ("text", "memoryview.h MemoryView::to_string")],
  observe="shape, size, element addresses and values, text and refusals of the resulting views",
  technique=BFS, parts=[dict(src="c12_views.cpp")],
  note="Complete within the stated bounds: every slice with bounds in -n-2..n+2 and steps -3..3 of every dimension of 90 shapes up to 4 dimensions; operation sequences to depth 2 for small shapes (thorough: 3) and 1 for the others.",
  bounds="States are distinct views (shape and the list of base cells); a transition is one operation or refusal compared with the reference array.",
  assume=["Views without dimensions (all indices fixed) are only indexed, sliced and copied, not printed.", "Strides are not observed, only elements."])

P(id="C13", title="Serialised array views come back whole or are refused",
  statement="Serialising any view (sliced, reversed or strided) to bytes or to a file and reading it back gives an independent view with the same shape and elements, over any number of generations. Every proper prefix of the bytes or of the file, data of another element type, and data whose header numbers are damaged so that they do not fit the bytes, is refused with an exception and without reading past the end. A missing file and a failed write are reported.",
  over=["inputs", "crash points"], quant="all views, element types, and all truncation points of the stored bytes, and all damaged header numbers",
  why="The test round-trips two arrays; torn files can end at any byte and views can have any strides.",
  files=["cmmcore/memoryview.h"],
  mech=[("bytes", "memoryview.h MemoryView::serialize, deserialize"), ("files", "memoryview.h MemoryView::write_to_file, read_from_file")],
  observe="the reconstructed views and refusals",
  technique="bounded exhaustive enumeration of views and of every truncation point of their stored bytes, on the real code under AddressSanitizer",
  parts=[dict(src="c13_views_io.cpp")],
  note="Complete within the stated bounds: every byte prefix of the base views and of every 7th sliced view (thorough: all), all pairs of 9 element types. Every number of the header, and every pair of them, is replaced by up to 19 extreme values.",
  bounds="States are distinct serialised buffers; transitions are round trips, truncations and type mismatches.",
  assume=["Only trivially copyable element types, at least one dimension.", "Corruption that keeps the length is not detected by the format and outside the property."])

P(id="C14", title="Stored curve lists come back identical, and torn data is refused",
  statement="Storing any curve or list of curves (also empty, closed, periodic, rational, split or refined ones) in bytes or in a file and reading it back gives curves with bit-identical control points and knots and the same degree, domain, periodicity and box; storing again gives the same bytes, and an existing file is replaced completely. Every proper prefix of the bytes or of the file, and counts that do not fit each other, are refused with an exception, without reading past the end. A missing file is refused, and a write that could not be completed (missing folder, full device) is reported.",
  over=["inputs", "crash points"], quant="all curves, lists of curves, and all truncation points of the stored bytes, and all damaged header numbers",
  why="One test round-trips one list; a file can be torn at any byte and a disk can fill at any flush.",
  files=["cmmcore/serialization.h", "cmmcore/nurbs.h"],
  mech=[("bytes", "serialization.h serializeNURBSCurve(s), deserializeNURBSCurve(s)"), ("files", "serialization.h writeNURBSCurvesToFile, readNURBSCurvesFromFile")],
  observe="the reconstructed curves, the bytes, return values and refusals",
  technique="bounded exhaustive enumeration of curve lists and of the truncation (crash) points of their stored bytes, on the real code under AddressSanitizer",
  parts=[dict(src="c14_curves_io.cpp")],
  note="Complete within the stated bounds: every curve of the family (degree 1-8), all lists of up to 3 curves of a 9-letter alphabet; every byte prefix for single curves of the alphabet, every 3rd-5th byte plus all bytes near both ends elsewhere (thorough: all bytes for every curve). Every number of the first curve and of the list, and every pair of them, is replaced by 13 extreme values; readers of single items are cut at every byte.",
  bounds="States are distinct stored byte strings; transitions are round trips and truncations.",
  assume=["The box compared is the box of the control points; the periodic flag is recomputed from the control points and knots when reading.", "Corruption that keeps the length is not detected by the format and outside the property."])

P(id="C15", title="Convex hulls keep every extreme point and nothing foreign",
  statement="For any finite planar or spatial point set, in any order and with repetitions, collinear and coplanar points included, in any position and orientation, the hull consists of input points and contains every extreme point. The planar hull is exactly the extreme points, each once, in counter-clockwise order. The reported kind (point, line, flat, volume, empty) is the dimension of the set.",
  over=["inputs"], quant="all finite point sets of the plane and of space, in every order and position",
  why="Tests run a few random clouds; the hull goes wrong on collinear runs, coplanar facets, duplicates and turned boxes, which random points never contain and control nets contain all the time.",
  files=["cmmcore/convexhull.h", "cmmcore/_convexhull/convexhull2d.h", "cmmcore/_convexhull/quickhull.hpp", "cmmcore/plane.h"],
  mech=[("planar hull", "_convexhull/convexhull2d.h convex_hull2d"), ("spatial hull", "_convexhull/quickhull.hpp convex_hull3d"), ("classification", "convexhull.h convex_hull, plane.h isPtsCoplanar")],
  observe="hull points and the reported kind",
  technique="bounded exhaustive enumeration of point sets of integer grids under affine maps on the real code, against an exact integer extreme-point oracle",
  parts=[dict(src="c15_hulls.cpp")],
  note="Complete within the stated bounds: every sequence of up to 5 (thorough 6) points of a 3x3 grid and of the cube's corners, every subset of 4x4 and 3x2x2 grids (thorough: and of 3x3x2), every subset of up to 4 (5) points of a 3x3x3 grid and its complements, under 8 affine maps (sheared, turned, mirrored, tenths, 0.002 steps, far away); control nets of 2-5 x 2-4 points of small and nearly flat quadratic patches (size 2^-0 to 2^-9, thorough 2^-13) turned four ways.",
  bounds="States are distinct point sequences; transitions are hull computations. Extreme points are found exactly, by precomputed minimal witness sets on the integer grid.",
  assume=[A_SCALAR, "Point sets have features above 1e-3 and coordinates below 1e4 (the planar orientation test has an absolute tolerance of 1e-9); of smaller nets no corner may be lost by more than 1e-10.", "Turned coplanar sets may be reported as flat or as volume; the spatial hull may keep input points that are not extreme."])

P(id="C16", title="Planar polygon relations, separation and point location are exact",
  statement="For convex polygons in any position, orientation and vertex order (also with vertices inside edges) the relation is reported as apart, touching or overlapping exactly as it is, symmetrically, and the separating-axis test (also for segments and points, and refusing empty polygons) says separated exactly when they are apart. The point-in-polygon test is right for every point off the boundary of every simple polygon, also non-convex. Edge normals are one per edge, perpendicular, on the right of the edge, of unit length on request; the set of unique normals covers every edge direction.",
  over=["inputs"], quant="all pairs of convex polygons and all simple polygons and points",
  why="Four pairs of polygons are printed by the test; shared edges, vertex-on-edge contacts, containment and parallel edges need every relative position.",
  files=["cmmcore/polygon.h", "cmmcore/separability.h"],
  mech=[("relation", "polygon.h polygonRelationship2D"), ("point location", "polygon.h pointInPolygon2D"), ("separating axes", "separability.h SAT2D"), ("normals", "polygon.h polygonNormals, polygonUniqueNormals")],
  observe="the reported relation, separation, location and normals",
  technique="bounded exhaustive enumeration of polygon pairs of integer grids on the real code, against an exact integer oracle",
  parts=[dict(src="c16_polygons.cpp")],
  note="Complete within the stated bounds: all simple polygons with up to 6 (thorough 7) vertices of a 3x3 grid and 4 (5) of a 4x4 grid with all half-step points; every convex polygon of the 4x4 grid against strided partners in all relative positions (all convex polygons of the 3x3 grid pairwise in thorough), in five affine maps and 16 presentations.",
  bounds="States are distinct pairs or polygons; transitions are queries. The relation comes from exact separation of integer prisms (dual cone of the difference set).",
  assume=[A_SCALAR, "Where a map rounds coordinates, touching pairs may get any answer; points on the boundary may be reported either way."])

P(id="C17", title="Separation tests of spatial sets and normal cones are exact",
  statement="For any two finite spatial point sets, flat, collinear and single points included, the collision test says they meet exactly when their convex hulls share a point, the hull separation test says separated exactly when they do not, and the box test exactly when the boxes do not, each independent of the order of the sets and points; for separated sets the reported closest vector is not zero and belongs to the hulls' difference. Two sets of directions are reported separable exactly when a plane through the center lies strictly between them, and two normal nets exactly when no normal of one can be parallel to one of the other.",
  over=["inputs"], quant="all pairs of finite point and direction sets",
  why="Pruning rests on these answers: one wrong separation loses an intersection, one wrong contact costs an exponential subdivision; the tests try a few fixed clouds.",
  files=["cmmcore/gjk.h", "cmmcore/separability.h", "cmmcore/gauss_map.h", "cmmcore/closest_point.h"],
  mech=[("collision", "gjk.h GJK, handleSimplex, closestPointOnSimplex"), ("hull separation", "separability.h SAT3D, AABBTest"), ("cones", "separability.h SphericalSeparabilityTest, gauss_map.h gaussMapSeparability")],
  observe="the reported answers and closest vectors",
  technique="bounded exhaustive enumeration of point set pairs of integer grids under affine maps on the real code, against an exact integer oracle",
  parts=[dict(src="c17_separation.cpp")],
  note="Within the stated bounds: all pairs of subsets of the cube's corners in 27 relative positions (every 9th in quick, all in thorough), strided pairs of points sets, simplices and clouds of the 3x3x3 grid, direction sets of up to 4 of the 27 grid directions (every 23rd, thorough every 2nd), five affine maps; the wedges of directions that the sets of directions are first compared by.",
  bounds="States are distinct pairs of sets; transitions are queries. The oracle is exact: a strict separating direction exists iff the sum of the extreme rays of the dual cone of the difference set is strictly positive on it.",
  assume=[A_SCALAR, "Where a map rounds coordinates, touching pairs may get any answer.", "Direction sets within 1e-9 of touching may be reported either way."])

P(id="C18", title="Curve/curve intersection reports every crossing and nothing else",
  statement="For two curves that meet at isolated points, the curve/curve intersection reports, for every meeting point, a pair of parameters at it within the tolerance; every reported pair lies in the two domains and its two curve points are within twice the tolerance. Curves that are apart give nothing, already collected results are kept, and the curves are not changed.",
  over=["inputs"], quant="all pairs of curves",
  why="The tests intersect one pair; crossings at knots, corners, ends, tangencies, several crossings and overlapping pieces need every relative position.",
  files=["cmmcore/ccx.h", "cmmcore/nurbs.h"],
  mech=[("subdivision", "ccx.h ccx"), ("pieces and boxes", "nurbs.h NURBSCurve::split, aabb")],
  observe="the reported parameter pairs",
  technique="bounded exhaustive enumeration of curve pairs on the real code, against exact crossings of integer polylines and constructed contacts",
  parts=[dict(src="c18_ccx.cpp")],
  note="Within the stated bounds: polylines of 2 segments of a 3x3 grid against lines and polylines of the same grid (every 53rd pair, thorough every 5th), in the same plane and in planes apart; pairs of a family of curves (degree 1-4, with and without inner knots, rational) turned four ways and moved into contact at chosen parameters; circles against lines in 29 positions.",
  bounds="States are distinct curve pairs with tolerance; transitions are intersection calls. Exact integer crossings for polylines; the contact parameters by construction for curves, with a long double evaluation of the reported parameters.",
  assume=[A_SCALAR, "Constructed contacts are only exact to rounding and are not placed at ends or dyadic parameters, where a box corner decides.", "Two meeting points that are closer than the tolerance in both parameters may be reported as one."])

P(id="C19", title="Curve/surface intersection reports every crossing and nothing else",
  statement="For a curve that crosses a surface transversally, the curve/surface intersection reports every crossing point within tolerance, also several of them, on knots, and for rational shapes; everything reported has parameters in the domains, lies on the curve, and is within the tolerance of the surface; it is classified as degenerate where the curve is tangent to the surface and as transversal where it is not. Shapes that are apart give nothing, earlier results are replaced, and the inputs are not changed.",
  over=["inputs"], quant="all pairs of a curve and a surface",
  why="The test prints the intersections of three pairs; a crossing lost by a wrong separation test or a wrong subdivision shows only for particular relative positions.",
  files=["cmmcore/csx.h", "cmmcore/newthon2.h", "cmmcore/gjk.h", "cmmcore/separability.h", "cmmcore/nurbs.h"],
  mech=[("search", "csx.h NURBSCurveSurfaceIntersector::_curve_surface_intersect, _find_new_intersection"), ("pruning", "csx.h _no_new_intersections, _meet_only_at_corner, separability.h SphericalSeparabilityTest, gjk.h GJK"), ("pieces", "nurbs.h NURBSCurve::split, NURBSSurface::split_surface_u, split_surface_v")],
  observe="the reported points and parameters",
  technique="bounded exhaustive enumeration of curve/surface pairs on the real code, against exact polynomial roots and constructed crossings",
  parts=[dict(src="c19_csx.cpp")],
  note="Within the stated bounds: all sets of up to 4 of 7 roots as graph curves of two degrees in 3 heights and 4 variants over 3 plane windows; pairs of a curve family (degree 1-4) and a surface family (degrees 1-3, inner knots, rational) turned four ways, every 19th pair (thorough every 3rd), moved into contact at 8 parameter fractions including both ends; lines through rational cylinders and cones; curves of degree 2 to 4 that touch a plane.",
  bounds="States are distinct pairs with tolerance; transitions are intersection calls. Expected crossings are exact roots or hold by construction; reported ones are re-evaluated in long double, and so is the angle that decides the class, with a margin of three around the tolerance.",
  assume=[A_SCALAR, "Crossings shallower than about 6 degrees are exercised but need not be reported.", "A contact on the boundary of a domain must be reported only if it is the only one.", "The same crossing may be reported more than once."])

P(id="C20", title="Boundary intersections of two surfaces are found once each",
  statement="For two surfaces, every transversal crossing of a boundary of one with the other is reported exactly once (distinct points lie further apart than the tolerance), with parameters in both domains that evaluate to the reported point within tolerance, and with the boundary it lies on. Surfaces that are apart give nothing, and the surfaces are not changed. Sorting the points uses each exactly once, in pairs of which the second is the nearest one left.",
  over=["inputs"], quant="all pairs of surfaces, all sets of points",
  why="The test looks at one pair of surfaces; nearby crossings, corners, contained surfaces, narrow strips and turned or rational surfaces need every relative position.",
  files=["cmmcore/boundary_intersection.h", "cmmcore/csx.h"],
  mech=[("search", "boundary_intersection.h find_boundary_intersections"), ("boundaries", "boundary_intersection.h extract_surface_boundaries"), ("parameters", "boundary_intersection.h IntersectionPoint"), ("pairing", "boundary_intersection.h sort_boundary_intersections")],
  observe="the reported intersection points and sequences",
  technique="bounded exhaustive enumeration of surface pairs on the real code, against exact polynomial roots; exhaustive point sets for the pairing",
  parts=[dict(src="c20_boundary.cpp")],
  note="Within the stated bounds: graph surfaces of 14 polynomials (degree up to 3) over 7 rectangles against each other (every 83rd pair and representation, thorough every 2nd), 4 representations (raised degree, inner knots, rational), 5 placements, two tolerances; every sequence of up to 5 (thorough 6) points of a 4x3 grid for the pairing.",
  bounds="States are distinct pairs with tolerance, and point sets; transitions are calls. Expected crossings are roots of exact univariate polynomials; reported points are re-evaluated in long double.",
  assume=[A_SCALAR, "Pairs with an edge that grazes the other surface at less than about 6 degrees or lies in it are left out.", "Crossings at a corner or on an edge of the other surface may be reported or not."])

P(id="C21", title="Start points reach every branch of a surface/surface intersection",
  statement="For two surfaces that cross transversally, the start point search reports at least one point on every branch of their intersection curve, closed loops, several branches through one patch, flat and narrow surfaces included. Every reported point has parameters in both domains that evaluate to it within tolerance. Surfaces that are apart give nothing, and the surfaces are not changed.",
  over=["inputs"], quant="all pairs of surfaces",
  why="The tests print the result for two pairs; a branch lost by pruning, by a wrong separation or by the choice of boundary points shows only in particular relative positions.",
  files=["cmmcore/ssx.h", "cmmcore/boundary_intersection.h", "cmmcore/gauss_map.h", "cmmcore/separability.h", "cmmcore/nurbs.h"],
  mech=[("search", "ssx.h findStartIntersectionPoints, detectIntersections"), ("single pieces", "ssx.h processSimpleSurfaceIntersection"), ("pruning", "separability.h SAT3D, gauss_map.h gaussMapSeparability, _convexhull/quickhull.hpp"), ("pieces", "nurbs.h NURBSSurface::decompose, subdivide")],
  observe="the reported pieces and points",
  technique="bounded exhaustive enumeration of surface pairs on the real code, against the branches of exact polynomial graphs",
  parts=[dict(src="c21_ssx.cpp")],
  note="Within the stated bounds: graph surfaces of 17 polynomials (degree up to 3) over 9 rectangles against each other in 4 representations (raised degree, inner knots, rational) and 5 placements: every 97th combination, thorough all 88,128; tolerances 1e-3 and 1e-2. Nets of several patches, smooth and creased, that rise at chosen points over a plane of two patches, as first and as second surface; rings inside one quarter, or one sixteenth, of both surfaces in all combinations; flat pairs no larger than the tolerance; for nearly tangent pairs only what is reported is judged.",
  bounds="States are distinct pairs with tolerance; transitions are searches. Branches are the connected sets of zeros of the difference of the two polynomials on a 57x61 grid.",
  assume=[A_SCALAR, "Pairs that are nearly tangent, or meet along an edge, are left out, as are branches through fewer than 6 cells of the grid.", "Apart from pairs of flat patches, surfaces and their patches are larger than the tolerance."])

P(id="C22", title="Segments are assembled into chains that use each segment once",
  statement="For any list of segments, in any order and direction, with branchings, closed loops, repeated segments and segments of length zero, the assembled chains run along segments only, use every segment exactly once, have only ends of segments as points, and name the common point of a closed chain once. A chain ends only where no segment is left to go on: no later chain runs through an end of an earlier one. Earlier chains and the segments are not changed.",
  over=["inputs"], quant="all lists of segments",
  why="No test covers it; a lost or doubled segment depends on the order, the directions and the branching of the list.",
  files=["cmmcore/polyline.h"],
  mech=[("assembly", "polyline.h assemble_polylines"), ("end points", "polyline.h PointKey, find_nearby_endpoints, remove_from_index")],
  observe="the chains",
  technique="bounded exhaustive enumeration of segment lists on the real code, against the multiset of segments",
  parts=[dict(src="c22_polyline.cpp"), dict(src="c22_polyline.cpp", flags=["-fsanitize=float-cast-overflow,signed-integer-overflow"])],
  note="Complete within the stated bounds: every list of up to 5 (thorough 6) segments over 4 points (16 possible segments each), every order and direction of 6 shapes of up to 6 segments over 6 points, in 5 affine maps.",
  bounds="States are distinct lists; transitions are assemblies. The oracle counts segments.",
  assume=["Points are equal exactly or clearly apart (the matching distance is the machine epsilon).", "A second build stops at conversions and sums that leave the range of their type, which compilers may turn into anything."])

P(id="C23", title="Power form, Bezier form, partials, normals and Gauss maps of a patch agree",
  statement="The power form of a polynomial patch, its Bezier form made back from it, and all mixed partial derivatives in either form evaluate to the patch and to its derivatives; the normal and the Gauss map evaluate to the cross product of the two partials, and the four quarters of a Gauss map, and their quarters, to the Gauss map, with their control points and the opposites of them. A result does not depend on what the object that receives it, or the other objects, held before.",
  over=["inputs", "histories"], quant="all polynomial patches and all sequences of conversions into reused objects",
  why="The tests print one Gauss map; wrong rows in a product, or remains of an earlier result, show only for unequal degrees or reused objects.",
  files=["cmmcore/monomial.h", "cmmcore/gauss_map.h", "cmmcore/matrix.h", "cmmcore/binom.h", "cmmcore/nurbs.h"],
  mech=[("conversion", "monomial.h Monomial2D, bpmat, to_bezier; matrix.h MatrixD"), ("derivatives and normals", "monomial.h compute_partial_derivative, cross, computeNormal"), ("Gauss map", "gauss_map.h GaussMap::build, subdivide, gaussMap")],
  observe="coefficients and surfaces",
  technique="bounded exhaustive enumeration of patches and of operation sequences on the real code, against long double power series",
  parts=[dict(src="c23_monomial.cpp")],
  note="Complete within the stated bounds: all degrees 1..5 (thorough 1..6) in both directions, 5 shapes of control net (closed, collapsed and irregular ones included), 2 constant weights; every sequence of 3 (thorough 4) of 11 operations over 5 pairs of patches of different degrees, with every object checked after every step; the table of binomials and the matrices of every degree they are used for.",
  bounds="States are distinct patches and operation paths; transitions are operations. Values are compared at 25 parameters, more than determine the small degrees.",
  assume=[A_SCALAR, A_TOL, "Degrees in the direction of a derivative are at least 1; point evaluation is compared up to degree 8, the documented limit."])

P(id="C24", title="Matrices and small linear systems are exact or refused",
  statement="Matrices of every way of building hold the values given; determinants, products, transposes and inverses are those of exact arithmetic to rounding; a matrix is inverted and a system solved exactly when the determinant is not zero (for the Cholesky form, when the matrix is positive definite), and shapes that do not fit are refused. The parameter step from two tangents exists exactly when they are not parallel, and reproduces every displacement in their plane. Inputs are not changed.",
  over=["inputs"], quant="all matrices and right sides",
  why="No test covers them; a wrong sign or pivot shows only for particular signs, zeros or permutations.",
  files=["cmmcore/matrix.h", "cmmcore/newthon2.h", "cmmcore/point_inversion.h", "cmmcore/ssx.h"],
  mech=[("2x2", "matrix.h Matrix2x2, solve2x2; point_inversion.h solve2x2; ssx.h improve_uv"), ("any size", "matrix.h MatrixD"), ("symmetric systems", "newthon2.h choleskyDecomposition, solveLinearSystem")],
  observe="matrices, solutions and refusals",
  technique="bounded exhaustive enumeration of integer matrices on the real code, against exact integer determinants",
  parts=[dict(src="c24_linear.cpp")],
  note="Complete within the stated bounds: all 2x2 matrices with entries -3..3 (thorough -4..4) in 5 scales with 25 right sides, all 3x3 matrices with entries -1..1 in 3 scales, all 4x4 matrices of 0 and 1, permuted identities, triangles, bands, Pascal and singular matrices up to 7x7, products of all shapes up to 5, symmetric systems of 1 to 4 unknowns with small integer entries and up to 16 right sides, all tangent pairs with entries -1..1 (-2..2) and -2..2.",
  bounds="States are distinct matrices (or tangent pairs); transitions are operations.",
  assume=["Entries are between 1e-3 and 1e3 in size: the inverse refuses pivots below 1e-10.", "Semidefinite singular matrices may be accepted by the Cholesky form (rounding)."])

P(id="C25", title="Point inversion converges to the parameter of the point",
  statement="Started where Newton's iteration contracts, the inversion of a point on or near a curve or surface returns a parameter whose point is within tolerance of the given one, or at which the connection is perpendicular within tolerance, or that is within tolerance of the foot point; the direction of the start does not matter. Without iterations the start is returned, and curve and surface are not changed.",
  over=["inputs"], quant="all curves, surfaces, points and starts in the basin of convergence",
  why="No test covers it; an iteration that stops early or returns the parameter before the last step is right for lucky starts.",
  files=["cmmcore/point_inversion.h", "cmmcore/ssx.h", "cmmcore/nurbs.h"],
  mech=[("curves", "point_inversion.h point_inversion_curve"), ("surfaces", "point_inversion.h point_inversion_surface, ssx.h improve_uv_robust")],
  observe="returned parameters",
  technique="bounded exhaustive enumeration of curves, surfaces, points and starts on the real code, against the iteration with exact derivatives in long double",
  parts=[dict(src="c25_inversion.cpp")],
  note="Complete within the stated bounds: curves of degree 1..4 (thorough 1..6) and surfaces of degree 1..3 (1..4) in all knot patterns up to 2 inner knots, 5 nets and 4 weight patterns; points at 3 (6) parameters per span and 3 distances from it; 7 and 9 starts around each; 2 tolerances.",
  bounds="States are distinct curves and surfaces; transitions are inversions. A start is used when the exact iteration at least halves its steps, stays inside one knot span, and the speed varies at most twofold on the way.",
  assume=[A_SCALAR, "Starts, points and iterates stay inside one knot span (the library uses difference quotients)."])

P(id="C26", title="Minimisers find the minimum within tolerance and always end",
  statement="For every strictly unimodal function, the bounded scalar minimiser stays within the bounds and the evaluation limit, counts its evaluations, returns the best point it saw, and reports success only when the minimum is certain to lie within tolerance of it; bounds that are not finite or reversed are refused. The Newton minimiser never ends higher than it started, finds the minimum of every positive definite quadratic, ends at stationary points otherwise, and ends for functions that are undefined in places.",
  over=["inputs", "histories"], quant="all unimodal functions (all histories of answers) and all starts",
  why="The tests minimise one function each; a step that loses the bracket depends on the sequence of comparisons.",
  files=["cmmcore/minimize_scalar.h", "cmmcore/newthon2.h"],
  mech=[("scalar", "minimize_scalar.h minimize_scalar_bounded"), ("Newton", "newthon2.h newtonsMethod, computeGradient, computeHessian, lineSearch, solveLinearSystem")],
  observe="results and the points at which the function is evaluated",
  technique="stateless exploration of the real code against an adversary that chooses the function values (all answers consistent with a unimodal function), and bounded enumeration of functions and starts",
  parts=[dict(src="c26_minimise.cpp")],
  note="Complete within the stated bounds: every sequence of answers (2 to 4 values per evaluation, all order relations) of up to 10 (thorough 11) evaluations on 5 intervals with 5 tolerances; 5 shapes with the minimum at 811 (4,011) places; all quadratics of 1 to 3 variables with small integer forms from grids of starts; 6 landscapes and 4 partly defined functions from grids of starts.",
  bounds="States are distinct evaluation histories, functions and starts; transitions are minimisations.",
  assume=["The certainty of a minimum is judged from the neighbours among the evaluated points, with the tolerance of the method (2/3 of the given one plus rounding).", "Newton minima are compared to 2e-4 (5e-4, 1e-3): derivatives are difference quotients."])

P(id="C27", title="Integrals, curve lengths and parameters at a length are within tolerance",
  statement="Integrals of polynomials are within the tolerance, with an error estimate below it, in both directions, without evaluations outside the range, and with work bounded by the depth limit. The length of a curve between any two parameters of degree up to four is the arc length within 64 times the tolerance, whatever its knots, corners and weights. The parameter at a length is the one at which the curve has that length, inside the domain.",
  over=["inputs"], quant="all curves, ranges, lengths and tolerances",
  why="The tests print one length; samples that agree by chance, speeds that jump at knots, and iterations that leave the domain depend on the curve.",
  files=["cmmcore/integrate.h", "cmmcore/nurbs.h"],
  mech=[("integration", "integrate.h integrate, adaptiveSimpson, find_t1_newton"), ("curves", "nurbs.h NURBSCurve::length, lengthAt")],
  observe="integrals, lengths, parameters",
  technique="bounded exhaustive enumeration of polynomials, curves and ranges on the real code, against antiderivatives and adaptive Gauss quadrature in long double",
  parts=[dict(src="c27_length.cpp")],
  note="Complete within the stated bounds: all polynomials of degree up to 5 with coefficients -1..1 over 36 ranges and 3 tolerances; curves of degree 1..4 in all knot patterns up to 2 (thorough 3) inner knots, 5 nets and 4 weight patterns, up to 36 ranges, 10 lengths; all polylines of up to 8 (9) segments of 3 lengths.",
  bounds="States are distinct polynomials with range and curves; transitions are calls.",
  assume=[A_SCALAR, "Parameters at a length are compared for curves whose slowest speed is at least a twentieth of the fastest.", "The method's own error estimate is a fifteenth of a difference of two estimates, which for rational curves of high degree is up to thirty times too small; hence the factor 64. At degree 5 with mixed weights it can vanish by chance (seen: 87 times the tolerance), so degrees up to 4 are claimed."])

P(id="C28", title="Planes, frames, closest points and segment distances are exact",
  statement="A plane given by its equation, a point and a normal, or three points contains its origin, measures signed distances, and meets segments, lines, one other plane and two other planes exactly when they have a common point, which lies on all of them; frames convert coordinates both ways. Points are called coplanar exactly when one plane holds them all. The closest point of a line, segment, triangle or simplex lies on it at the smallest distance, also when it is degenerate. The distance of two segments is the smallest one between their points, at the returned parameters.",
  over=["inputs"], quant="all planes, points, segments, triangles and tetrahedra, at any scale",
  why="The tests have none of these; degenerate, parallel and axis-aligned placements and scales need all relative positions.",
  files=["cmmcore/plane.h", "cmmcore/closest_point.h", "cmmcore/numeric_utils.h", "cmmcore/gjk.h"],
  mech=[("planes", "plane.h plane, cplane"), ("closest points", "closest_point.h closestPointOn*, gjk.h closestPointOnSimplex"), ("segments", "numeric_utils.h segmentsDistance, centerProjectionToXY")],
  observe="points, distances, parameters, yes/no answers",
  technique="bounded exhaustive enumeration of integer configurations at three scales on the real code, against exact predicates and closed forms in long double",
  parts=[dict(src="c28_planes.cpp")],
  note="Complete within the stated bounds: planes with all normals from -2..2 cubed (thorough -3..3) through 27 points by 4 constructors with all segments of a 3x3x3 grid; all pairs and triples of planes with normals from -1..1 (-2..2); all frames, segments, triangles, pairs of segments and tetrahedra of the 3x3x3 (4x4x4) grid; all quadruples and a third (all) of the quintuples of its points for coplanarity against up to 64 points; scales 1/4096, 1 and 1024. Planes at angles down to 2^-20 too.",
  bounds="States are distinct planes, pairs and segments; transitions are queries.",
  assume=[A_SCALAR, "Rays are treated as whole lines, as the code does.", "Where three points give a plane with rounding, yes/no answers within 1e-9 of contact are not compared."])

P(id="C29", title="STEP export describes the same curve or surface, well-formed",
  statement="The exported text is well-formed, its identifiers are unique and continue those of earlier exports, and every reference is to an entity that is written. Read again, it gives the same degrees, knots and shape as the curve or surface to full precision. The face of a surface is bounded by a closed loop of its four sides, each with its own ends.",
  over=["inputs", "histories"], quant="all curves, surfaces and sequences of exports into one stream",
  why="No test exports anything; lost digits, knots, swapped directions and references that miss depend on the shape and on what was written before.",
  files=["cmmcore/nurbs.h", "cmmcore/utils.h", "cmmcore/nurbs_utils.h"],
  mech=[("export", "nurbs.h NURBSCurve::toSTEP, NURBSSurface::toSTEP, writeSTEPFile"), ("values", "utils.h formatReal, vectorToString; nurbs_utils.h getKnotMultiplicities")],
  observe="the exported text, parsed by an independent reader",
  technique="bounded exhaustive enumeration of shapes and export sequences on the real code, with an independent parser and reference evaluator",
  parts=[dict(src="c29_step.cpp")],
  note="Complete within the stated bounds: curves of degree 1..4 (thorough 1..5) in all knot patterns up to 2 (3) inner knots, 4 knot layouts, 5 nets, 4 weight patterns and 4 scales, alone and after another curve; surfaces of degrees 1..3 in both directions with the same patterns, alone, twice into a stream, and as a file over an old one; 671 real numbers.",
  bounds="States are distinct shapes; transitions are exports.",
  assume=[A_SCALAR, "Well-formedness is that of the exchange structure (ISO 10303-21) and the entity types checked here; conformance to the whole AP242 schema is not claimed.", "Files are written in a fresh folder under /tmp, which is removed."])

P(id="C30", title="Vector types follow vector algebra, and equal points hash equally",
  statement="Operators, products, lengths, unit vectors, projections and spherical coordinates of vectors have their mathematical values, in place and not, and components out of range are refused. Two vectors are collinear exactly when one is a multiple of the other, up to rounding. Equality for hashing is an equivalence finer than a quarter, and equal points have equal hashes, so a map has one entry per class. Vectors are written as text component by component.",
  over=["inputs"], quant="all vectors of 2, 3 and 4 components",
  why="The tests compare a few sums; aliasing, rounding, zero vectors and the hash contract need all pairs.",
  files=["cmmcore/vec.h", "cmmcore/cm_hash.h", "cmmcore/utils.h"],
  mech=[("vectors", "vec.h vec2, vec3, vec4, spherical coordinates"), ("hashing", "vec.h Vec3Hash, Vec3Equal; cm_hash.h"), ("columns", "utils.h vectorColumn, calc_epsilon")],
  observe="results of operations, map contents",
  technique="bounded exhaustive enumeration of pairs of vectors on the real code, against exact arithmetic",
  parts=[dict(src="c30_vectors.cpp")],
  note="Complete within the stated bounds: products with lists of 0 to 7 vectors; all pairs of vectors with components from 6 values (2 components), 5 (thorough 6) values (3) and 4 (6) values (4); 5 multiples of all directions from a 7x7x7 (9x9x9) grid; all pairs and triples of 79 (240) points per first coordinate for hashing; all tables of up to 5 (6) rows of up to 4 (5) entries.",
  bounds="States are distinct pairs of vectors and tables; transitions are operations.",
  assume=[A_SCALAR, "The four-component unit vector and cross product mix homogeneous and plain conventions and are not claimed."])

P(id="C31", title="Knots are counted, generated and replaced correctly; removal keeps the curve",
  statement="Spans, distinct knots, multiplicities and generated knot vectors are right, and accessors of curves and surfaces give back what was set. Removing a knot takes away exactly as many copies as the shape allows within the tolerance (at least those that were inserted, never more than asked), leaves the curve unchanged, and leaves end knots and parameters that are no knots alone.",
  over=["inputs", "histories"], quant="all knot vectors, curves and sequences of insertions and removals",
  why="No test removes a knot; which points are dropped depends on the degree, the multiplicity, and how often the knot was inserted before.",
  files=["cmmcore/nurbs_utils.h", "cmmcore/nurbs.h", "cmmcore/utils.h"],
  mech=[("knots", "nurbs_utils.h find_span, find_multiplicity, getKnotMultiplicities; utils.h uniqueKnots"), ("removal", "nurbs_utils.h knot_removal"), ("accessors", "nurbs.h generate_knots, set_knots, set_control_points, interval")],
  observe="spans, counts, knot vectors, control points after removal",
  technique="bounded exhaustive enumeration of knot vectors and insertion/removal histories on the real code, against reference insertion and evaluation",
  parts=[dict(src="c31_knots.cpp")],
  note="Complete within the stated bounds: degrees 1..5 (thorough 1..7), all multiplicity patterns up to 3 (4) inner knots, 5 layouts, parameters at and next to every knot; generated knots for up to 8 (12) more points than the degree; curves turned into curves of other degrees by the setters; removal for degrees 1..5 (6), up to 2 (3) inner knots, 3 layouts, 5 nets and 4 weight patterns, every insertion count that the multiplicity allows and every removal count up to two more.",
  bounds="States are distinct knot vectors and curves with their insertions; transitions are calls.",
  assume=[A_SCALAR, "The removal tolerance bounds the distance of homogeneous control points, and is 1e-8 of the model's size here."])
P(id="C32", title="Queries write nothing shared, so threads may share inputs",
  statement="No query (evaluation, derivative, length, inversion, splitting, intersection, hull, distance, separation, tree query, serialization, export) writes to the objects it is given or to global or static data, other than atomically, under a lock or in the initialisation of a local static. So any schedule of queries in any number of threads on shared curves, surfaces, trees and polygons gives each the result it has alone.",
  over=["schedules", "inputs"], quant="all schedules of queries that share their inputs, and all inputs",
  why="A race needs two threads in the same instant; the tests run one thread, where a shared scratch buffer or counter does no harm.",
  files=["cmmcore/nurbs.h", "cmmcore/nurbs_utils.h", "cmmcore/ssx.h", "cmmcore/csx.h", "cmmcore/ccx.h", "cmmcore/bvh.hpp", "cmmcore/kdtree.h", "cmmcore/polygon.h", "cmmcore/gjk.h", "cmmcore/convexhull.h"],
  mech=[("const queries", "nurbs.h const methods of NURBSCurve and NURBSSurface"), ("counter of calls", "ssx.h counter"), ("tree queries", "bvh.hpp and kdtree.h queries"), ("copying", "nurbs.h copy constructors and assignment")],
  observe="memory shared between threads; results alone, repeated and in two threads",
  technique="partial-order reduction on the real code: each operation's writes to shared memory are recorded by a page-protection monitor; operations without any are independent, so one schedule stands for all; enumerated over operations and inputs, and replayed in two threads",
  parts=[dict(src="c32_sharing.cpp", san="none", flags=["-rdynamic", "-Wl,-z,now"])],
  note="Every schedule of every set of the enumerated operations is covered, because none of them writes anything another could read; the claim is complete for the enumerated operations and inputs (curves and surfaces of several degrees, plain and rational, intersections, trees, polygons, hulls, matrices, views, serialization).",
  bounds="Transitions are operations run under the monitor or in a second thread; states are distinct operations with their results.",
  assume=["Memory that is neither part of the inputs nor global or static data of the program cannot be reached by another thread.", "Writes by the C library to its own state (stdio, malloc) are synchronised by it."])
NATIVE_CLANG = dict(native=True)
NATIVE_GCC = dict(native=True, cc="g++", san="none")
P(id="C33", title="The platform's own code path and other compilers give the same results",
  statement="On x86-64 the vector code path (boxes: intersection, common part, union, volume; products of one vector with many) gives what the portable one gives, at every alignment and length, and writes nothing else. What holds for boxes, trees, polylines, hulls, knots, splitting and vectors holds with another compiler and standard library, whose sort, selection and hash orders differ.",
  over=["configurations", "inputs"], quant="the configurations (portable and x86-64 path, clang with libc++, gcc with libstdc++) and all inputs",
  why="The tests are compiled with the portable path and one compiler only; the other paths did not even compile.",
  files=["cmmcore/aabb.h", "cmmcore/vec.h", "cmmcore/bvh.hpp", "cmmcore/polyline.h", "cmmcore/convexhull.h", "cmmcore/kdtree.h"],
  mech=[("boxes", "aabb.h intersects, intersection, merge, volume (x86-64 and portable branches)"), ("products", "vec.h dot_product"), ("orders", "uses of std::sort, std::nth_element, unordered_map")],
  observe="the results that C03, C04, C09, C10, C11, C15, C22 and C30 observe, in the other configurations",
  technique="bounded exhaustive enumeration of inputs in every configuration, on the real code, against the same references",
  parts=[dict(src="c33_platform.cpp", native=True), dict(src="c33_platform.cpp", **NATIVE_GCC), dict(src="c09_boxes.cpp", **NATIVE_CLANG), dict(src="c09_boxes.cpp", **NATIVE_GCC), dict(src="c10_bvh.cpp", **NATIVE_GCC), dict(src="c11_kdtree.cpp", **NATIVE_GCC), dict(src="c30_vectors.cpp", **NATIVE_GCC), dict(src="c22_polyline.cpp", **NATIVE_GCC), dict(src="c15_hulls.cpp", **NATIVE_GCC), dict(src="c03_curve_refine.cpp", **NATIVE_GCC), dict(src="c04_curve_split.cpp", **NATIVE_GCC)],
  note="Complete within the bounds of the checks it repeats: the x86-64 path with clang and libc++ under AddressSanitizer (boxes, products), and with gcc and libstdc++ with its assertions (boxes, trees, k-d trees, vectors, polylines, hulls, knot insertion, splitting); products for lengths up to 17 (thorough 33) at 4 alignments.",
  bounds="States and transitions are those of the checks it repeats.",
  assume=["The NEON path is not compiled: there is no such machine and no such compiler here."])
P(id="C34", title="Every header can be used on its own, in any order, and in several units",
  statement="A program of two translation units that include any header, alone or with any other header in either order, compiles, links and runs, with clang and gcc, with libc++ and libstdc++; single headers also in the layout of the Cython build and with debugging output.",
  over=["configurations", "programs"], quant="all headers, pairs of headers and orders, and the compilers",
  why="The tests are single translation units that include what others included before.",
  files=["cmmcore/vec.h", "cmmcore/nurbs.h", "cmmcore/nurbs_utils.h", "cmmcore/aabb.h", "cmmcore/serialization.h", "cmmcore/polyline.h"],
  mech=[("headers", "include lines, include guards and inline specifiers of cmmcore/*.h and *.hpp")],
  observe="status of compiler, linker and program",
  technique="exhaustive enumeration of the configurations (header or ordered pair of headers, compiler, library), each built and run for real",
  parts=[dict(src="c34_headers.cpp", san="none")],
  note="Complete for single headers with 5 (thorough 9) compiler settings; of the pairs of headers every 13th in quick and all in thorough, each in both orders at once.",
  bounds="States are configurations; transitions are compilations, linkings and runs.",
  assume=["Compilers and libraries are those of the sandbox; headers in cmmcore/_convexhull are internal."])

P(id="C35", title="The Python interface builds and gives the results of the library",
  statement="The example extension and a module that uses every declaration file (.pxd) of the repository build with Cython from the repository as it is, and every call from Python (intersecting curves; evaluating, splitting, refining and storing curves; surfaces; power forms; vectors and matrices; box hierarchies; chains of segments; hulls) gives the numbers that the same call gives in C++ and leaves its arguments alone.",
  over=["inputs", "configurations"], quant="all declarations and the enumerated calls",
  why="No test builds the extension: paths of headers, declarations of members that no longer exist, and setters that empty their argument go unnoticed.",
  files=["cmmcore/nurbs.pxd", "cmmcore/vec.pxd", "cmmcore/bvh.pxd", "cmmcore/ccx.pxd", "cmmcore/matrix.pxd", "cmmcore/monomial.pxd", "cmmcore/polyline.pxd", "cmmcore/quickhull.pxd", "cmmcore/serialization.pxd", "examples/cython_extension/ccx.pyx"],
  mech=[("declarations", "cmmcore/*.pxd and the headers they name"), ("example", "examples/cython_extension/ccx.pyx")],
  observe="status of Cython, compiler and Python; the numbers returned",
  technique="bounded exhaustive enumeration of calls on the real extension, against the same calls on the real code from C++",
  parts=[dict(src="c35_python.cpp", san="none")],
  note="Complete within the stated bounds: all ordered pairs of 8 curves with all degrees up to 3 and both forms of points; all curves, cuts and insertions, patches of degrees 1-3, power forms up to 4x4, vectors over three values, subsets of 5 boxes, of 4 segments in a square and of the corners of a cube.",
  bounds="States are results; transitions are calls. One extension per module, built once per run with clang.",
  assume=["Python 3.12, Cython and NumPy of the sandbox; the extension is compiled for the platform, with its vector instructions."])
P(id="C36", title="No number in the input makes an operation hang, crash or touch foreign memory",
  statement="Every operation of the library (evaluation, derivatives, lengths, splitting, insertion, decomposition, intersections, inversion, hulls, separation, polygons, chains, trees, boxes, minimisers, integrals, power forms) ends, reads and writes only its own memory and has defined behaviour, or refuses with a standard exception, when any number of its input is not a number, infinite, subnormal or very large. Knots outside the domain, that are no numbers, or beyond the degree are refused and change nothing; splits and isocurves at no number are refused; intersections, start points and hulls refuse points that are not finite.",
  over=["inputs", "faults"], quant="all numbers of the inputs and all special values",
  why="The tests use ordinary numbers only; a comparison that is false for a number that is none sends a search, a recursion or an index out of its bounds.",
  files=["cmmcore/gjk.h", "cmmcore/integrate.h", "cmmcore/nurbs.h", "cmmcore/nurbs_utils.h", "cmmcore/ccx.h", "cmmcore/csx.h", "cmmcore/ssx.h", "cmmcore/convexhull.h", "cmmcore/cm_hash.h", "cmmcore/polyline.h", "cmmcore/vec.h"],
  mech=[("refusals", "vec.h require_finite, nurbs_utils.h require_insertable, nurbs.h split, split_surface_u/v, length"), ("searches", "ccx.h, csx.h, ssx.h, gjk.h supportVector, point_inversion.h"), ("recursions", "integrate.h adaptiveSimpson, minimize_scalar.h"), ("hashing", "cm_hash.h quantize, polyline.h PointKey")],
  observe="termination, exceptions, and reports of the address and undefined behaviour sanitizers",
  technique="exhaustive injection of special values at every number of the input of every operation, on the real code under sanitizers",
  parts=[dict(src="c36_special.cpp", hang=15, flags=["-DNDEBUG", "-fsanitize=float-cast-overflow"])],
  note="Complete within the stated bounds: 25 operations with one base input each, every number in turn (and all at once) replaced by each of 11 values, and all scaled by 4 factors; insertions of every kind for degrees up to 4 (thorough 6) and two inner knots; refusals of three values at 16 numbers of four searches.",
  bounds="States are inputs; transitions are calls. A case that uses more than 15 s of processor time counts as endless.",
  assume=["Assertions are off, as in a release build.", "Intersection searches are given finite numbers up to 1e6 only: beyond that, the resolution of doubles is coarser than the tolerance.", "Knots stay sorted, the first below the last."])
