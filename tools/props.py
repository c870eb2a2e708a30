#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
A property is claimed when witness/<id>/ exists; otherwise NA[id] must give the reason."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "geometrix/"
PR = []


def P(id, title, statement, over, text, why, files, mech):
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[G + f for f in files], mechanism=[dict(name=n, where=G + w) for n, w in mech])))


P("P01", "Comparison policies form one coherent tolerance order",
  "For every pair of numbers and every non-negative tolerance, a comparison policy's five relations agree with each other and with the policy's stated tolerance: equality is symmetric and holds exactly when the values are within tolerance, exactly one of less / equal / greater holds, and the non-strict relations are the complements of the strict ones.",
  ["inputs"], "all real operand pairs and all tolerances, for each shipped policy",
  "The tests sample a dozen literal pairs at one tolerance; agreement has to hold on both sides of every tolerance boundary and for operands of either sign and any relative size.",
  ["numeric/number_comparison_policy.hpp"],
  [("absolute / relative / direct / compound tolerance relations", "numeric/number_comparison_policy.hpp")])
P("P02", "Vector and point arithmetic is componentwise in every dimension",
  "Adding, subtracting, scaling, negating and compound-assigning points and vectors produces, in each coordinate and for each dimension, exactly that coordinate's arithmetic, whatever the operands' storage and even when the destination is also an operand. Null tests and element access agree with the coordinates.",
  ["inputs", "programs"], "all coordinate values; expression shapes over point/vector operands in dimensions 2 to 5",
  "Tests compute a few constant sums in 2D and 3D; a wrong index, sign or alias order in another dimension or expression shape is not sampled.",
  ["algebra/expression.hpp", "algebra/functions/addition.hpp", "algebra/functions/subtraction.hpp", "algebra/functions/multiplication.hpp", "algebra/functions/division.hpp", "arithmetic/vector/vector_arithmetic.hpp", "tensor/vector.hpp", "primitive/point.hpp"],
  [("expression templates evaluated on assignment", "algebra/expression.hpp"), ("vector compound assignment", "arithmetic/vector/vector_arithmetic.hpp")])
P("P03", "Products, lengths and normalised directions follow their definitions",
  "Inner, outer and triple products, squared lengths, lengths, unit vectors, perpendiculars, interpolation and projections equal their textbook definitions for all operands in every supported dimension. A normalised non-zero vector keeps its direction and has unit length; the distance between two points counts every coordinate once.",
  ["inputs"], "all operand coordinates, dimensions 2 to 5 where defined",
  "The identities hold for every coordinate tuple; tests check orthogonal unit vectors, where swapped or dropped terms vanish.",
  ["algebra/dot_product.hpp", "algebra/cross_product.hpp", "algebra/exterior_product.hpp", "algebra/vector_projection.hpp", "arithmetic/vector/magnitude.hpp", "arithmetic/vector/normalize.hpp", "arithmetic/vector/lerp.hpp", "arithmetic/vector/perp.hpp", "algorithm/distance/point_point_distance.hpp"],
  [("dot / cross / exterior products", "algebra/exterior_product.hpp"), ("magnitude and normalize", "arithmetic/vector/magnitude.hpp"), ("point to point distance", "algorithm/distance/point_point_distance.hpp")])
P("P04", "Matrix algebra obeys linear algebra for every size",
  "Matrix sums, products, scalings, transposes, traces, determinants, inverses and linear solves equal their definitions for all entries, including when the destination is an operand. A singular matrix is refused rather than inverted into a meaningless result.",
  ["inputs", "programs"], "all matrix entries for square and rectangular sizes up to 4",
  "Tests use small integer matrices; index, sign and pivoting errors that cancel on those survive.",
  ["arithmetic/matrix_arithmetic.hpp", "arithmetic/detail/determinant.hpp", "arithmetic/matrix/trace.hpp", "algebra/functions/matrix_product.hpp", "algebra/functions/inverse.hpp", "algebra/functions/transpose.hpp", "tensor/matrix.hpp", "tensor/matrix_minor_adaptor.hpp", "algebra/lup_decomposition.hpp"],
  [("determinant, adjugate and inverse at an index", "arithmetic/matrix_arithmetic.hpp"), ("matrix minor view", "tensor/matrix_minor_adaptor.hpp"), ("pivoted LU and solve", "algebra/detail/preprocessed/lup_decomposition.hpp")])
P("P05", "Ill-typed geometry does not compile and well-typed geometry has the right type",
  "An expression that has no geometric meaning - adding two points, adding a scalar to a vector, multiplying operands of different dimensions, reading a coordinate an operand does not have, mixing quantities with different units or tags - is rejected by the compiler. The result of a meaningful expression has the documented kind, dimension and unit.",
  ["programs"], "every program that uses the algebra, represented by the operand-kind x operator table for each dimension, unit and tag",
  "A test suite only contains programs that compile; it cannot show that an ill-typed program is rejected.",
  ["algebra/grammar.hpp", "algebra/expression_generator.hpp", "algebra/binary_functions.hpp", "utility/tagged_quantity.hpp", "space/dimension.hpp", "arithmetic/boost_units_arithmetic.hpp"],
  [("expression grammar", "algebra/grammar.hpp"), ("tagged quantities", "utility/tagged_quantity.hpp")])
P("P06", "Measures scale with the unit of length",
  "Expressing the same geometry in another unit of length multiplies a length result by the scale factor, an area result by its square, leaves angles and parameters unchanged, and never changes a classification. No result depends on which unit the caller picked beyond its dimension.",
  ["inputs"], "all coordinates and all positive scale factors, for every entry point that returns a length, area, angle, parameter or classification with exact comparison",
  "The relation quantifies over a continuous group of rescalings of every input; tests evaluate single configurations at one scale.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/orientation.hpp", "utility/utilities.hpp"],
  [("distance and measure functions", "algorithm/distance/point_segment_distance.hpp")])
P("P07", "The orientation predicate is the sign of the turn",
  "The orientation of three points, or of two directions, is left, right or collinear exactly according to the sign of the turn they make, up to the comparison tolerance. Swapping two points reverses it, a cyclic rotation or common translation of the points keeps it, and the oriented side of a line agrees with it.",
  ["inputs"], "all triples of points and pairs of directions, all tolerances",
  "Antisymmetry and invariance must hold for all triples, in particular those near and at degeneracy; tests use a few well separated triples.",
  ["algorithm/orientation.hpp", "utility/utilities.hpp", "algorithm/orientation_enum.hpp"],
  [("orientation of three points", "utility/utilities.hpp"), ("orientation relative to line, segment", "algorithm/orientation.hpp")])
P("P08", "Collinearity, betweenness and range tests agree with the geometry",
  "Three points are reported collinear exactly when they lie on one line, a point is reported between two others exactly when it lies on the segment they bound (with the end points included only when asked), and a direction or vector is reported inside an angular range exactly when it lies in it, whether the range is given by vectors or by points.",
  ["inputs"], "all point triples and direction triples, with and without bounds included",
  "The answer must be right for every position on, before, after and beside the segment, in all axis directions including vertical and zero-length ones.",
  ["utility/utilities.hpp", "algorithm/is_segment_in_range.hpp"],
  [("is_between / is_collinear / is_vector_between", "utility/utilities.hpp"), ("segment in angular range", "algorithm/is_segment_in_range.hpp")])
P("P09", "Ordering comparators are strict weak orders",
  "Every comparator the library hands to a sorted container or sort is irreflexive, asymmetric and transitive, its ties are transitive, and it orders by the key it documents. Two elements that differ in the key are never tied.",
  ["inputs"], "all pairs and triples of elements of every comparator",
  "Container corruption from an invalid order shows up only for particular element combinations; the axioms are universally quantified over triples.",
  ["utility/utilities.hpp", "tensor/numeric_sequence_compare.hpp", "utility/point_angle_compare.hpp", "utility/vector_angle_compare.hpp", "algorithm/bentley_ottmann_sweep.hpp"],
  [("lexicographic comparators", "utility/utilities.hpp"), ("angular comparators", "utility/point_angle_compare.hpp")])
P("P10", "Point containment tests agree with the region",
  "A point is reported inside a triangle, a convex polygon or a simple polygon exactly when it lies in it, and boundary classifications name the boundary exactly for points on an edge or vertex, whichever vertex the polygon starts from and for any position of the point.",
  ["inputs"], "all query points against all triangles, convex quadrilaterals and the listed polygon families",
  "Crossing-number tests fail only at measure-zero alignments (point level with a vertex, on an edge, on an extension of an edge) that samples miss.",
  ["algorithm/point_in_polygon.hpp", "algorithm/intersection/segment_triangle_intersection.hpp", "primitive/triangle.hpp"],
  [("point in polygon / triangle", "algorithm/point_in_polygon.hpp")])
P("P11", "Point-to-object distances are attained minima",
  "The distance from a point to a line, segment, box or oriented box equals the distance to the reported closest point, the closest point belongs to the object, and no point of the object is nearer. Points inside a solid box are at distance zero.",
  ["inputs"], "all points and all segments, lines, boxes in 2D and 3D",
  "Minimality over all object points and all query regions (each Voronoi region of the object) is a universal statement; tests hit a handful of regions.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/distance/point_segment_closest_point.hpp", "algorithm/distance/point_line_distance.hpp", "algorithm/distance/point_aabb_distance.hpp", "algorithm/distance/point_obb_distance.hpp"],
  [("clamped projection", "algorithm/distance/point_segment_closest_point.hpp"), ("box distance", "algorithm/distance/point_aabb_distance.hpp")])
P("P12", "Segment-to-segment distance is a symmetric attained minimum",
  "The distance between two segments or lines is the same in either order, is realised by the reported pair of closest points, which lie on their segments, and is zero exactly when they touch.",
  ["inputs"], "all pairs of segments, in 2D and 3D, including parallel, degenerate and crossing pairs",
  "Each of nine clamping regions plus degenerate cases must be right; tests cover a few.",
  ["algorithm/distance/segment_segment_distance.hpp", "algorithm/distance/segment_segment_closest_point.hpp", "algorithm/distance/eberly_segment_segment_distance.hpp"],
  [("clamped closest points of two segments", "algorithm/distance/segment_segment_distance.hpp")])
P("P13", "Distances to polygons and polylines consider every edge",
  "The distance from a point or segment to a polyline or polygon is the least distance over all of its edges, including the closing edge of a polygon, and the reported closest point is on the edge that attains it, independent of which vertex comes first.",
  ["inputs"], "all vertex coordinates of polylines and polygons with the listed edge counts and all query points",
  "Missing one edge is visible only when that edge is the nearest; tests place the query near one edge.",
  ["algorithm/distance/point_polygon_closest_point.hpp", "algorithm/distance/point_polyline_distance.hpp", "algorithm/distance/segment_polygon_distance.hpp", "algorithm/distance/segment_polyline_distance.hpp", "algorithm/distance/polygon_polygon_distance.hpp", "algorithm/distance/polyline_polyline_distance.hpp"],
  [("edge loop with closing edge", "algorithm/distance/segment_polygon_distance.hpp")])
P("P14", "Line, ray and segment intersections are classified and located correctly",
  "Two linear components are reported as crossing, touching at an end point, overlapping or disjoint exactly as they do, and every reported intersection point lies on both. Exchanging the two components or reversing one of them does not change whether they meet or where.",
  ["inputs"], "all pairs of segments, rays and lines in the plane, including parallel, collinear and shared end point configurations",
  "Correctness at every degenerate alignment is a universally quantified statement over eight real coordinates.",
  ["algorithm/intersection/segment_segment_intersection.hpp", "algorithm/intersection/ray_segment_intersection.hpp", "algorithm/intersection/ray_line_intersection.hpp", "algorithm/line_intersection.hpp"],
  [("segment-segment intersection", "algorithm/intersection/segment_segment_intersection.hpp")])
P("P15", "Sphere and plane intersections satisfy both surfaces",
  "Segment, ray and line intersections with spheres, circles and planes report a hit exactly when one exists, every reported point satisfies both objects' equations, and reported parameters are ordered and lie on the component.",
  ["inputs"], "all centres, radii, planes and linear components",
  "Tangent, contained and beyond-the-end cases occur on lower-dimensional sets tests do not reach.",
  ["algorithm/intersection/segment_sphere_intersection.hpp", "algorithm/intersection/sphere_sphere_intersection.hpp", "algorithm/intersection/circle_circle_intersection.hpp", "algorithm/intersection/segment_plane_intersection.hpp", "algorithm/intersection/ray_sphere_intersection.hpp"],
  [("quadratic root selection", "algorithm/intersection/segment_sphere_intersection.hpp")])
P("P16", "Axis-aligned boxes bound exactly what they were built from",
  "A box built from points or objects contains every one of them and touches them on every side, box overlap and containment tests are symmetric or monotone as documented, and the oriented box reports the corners, axes and containment of the same rectangle.",
  ["inputs"], "all point sets of the listed sizes, all box pairs in 2D and 3D",
  "A missed comparison on one side or axis is invisible unless the extreme point lies there.",
  ["primitive/axis_aligned_bounding_box.hpp", "primitive/oriented_bounding_box.hpp", "algorithm/bounding_box_intersection.hpp"],
  [("bounds accumulation", "primitive/axis_aligned_bounding_box.hpp")])
P("P17", "Grid indices and grid geometry are inverse to each other",
  "A point inside a grid's bounds maps to the one cell whose box contains it, each cell's box, centre and corners agree with its index, cells tile the bounds without gaps or overlap, and out-of-bounds points are not reported as contained.",
  ["inputs", "configurations"], "all grid extents, cell sizes and query points",
  "Boundary points and non-integral cell counts form measure-zero sets; tests query a few interior points.",
  ["algorithm/grid_traits.hpp", "algorithm/grid_2d.hpp", "algorithm/hash_grid_2d.hpp"],
  [("point to index", "algorithm/grid_traits.hpp")])
P("P18", "Grid traversals visit exactly the cells met, in order",
  "Walking a segment across a grid visits a connected sequence of cells that starts in the first point's cell, ends in the last point's cell, contains each cell the segment passes through, and stays inside the grid.",
  ["inputs", "configurations"], "all segments and grids",
  "The sequence length depends on the input; each step decision has to be right for all slopes and corner crossings.",
  ["algorithm/fast_voxel_grid_traversal.hpp", "algorithm/bresenham_grid_traversal.hpp", "algorithm/orientation_grid_traversal.hpp", "algorithm/floodfill_grid_traversal.hpp"],
  [("voxel stepping", "algorithm/fast_voxel_grid_traversal.hpp")])
P("P19", "Clipping returns exactly the part of the segment inside the box",
  "Clipping a segment to a box reports a result exactly when some of the segment lies in the box, the clipped ends lie on the original segment and in the box, and a segment already inside is returned unchanged. A ray or line against a box enters and leaves where its part inside the box begins and ends.",
  ["inputs"], "all segments and boxes in the plane",
  "Each of the 81 outcode combinations needs the right clip order; tests use a few.",
  ["algorithm/cohen_sutherland_line_clipping.hpp", "algorithm/intersection/ray_aabb_intersection.hpp"], [("outcode loop", "algorithm/cohen_sutherland_line_clipping.hpp")])
P("P20", "Polygon measures are intrinsic",
  "Signed area, centroid and perimeter of a polygon do not depend on the starting vertex or on translation, reversing the vertex order negates the signed area and nothing else, and they equal the shoelace and edge-sum definitions for every polygon.",
  ["inputs"], "all vertex coordinates for polygons of the listed sizes",
  "Only universally quantified identities pin the formula; tests evaluate unit squares, which hide dropped closing terms.",
  ["primitive/point_sequence_utilities.hpp", "algorithm/point_sequence/length.hpp", "primitive/triangle.hpp"],
  [("shoelace area and centroid", "primitive/point_sequence_utilities.hpp")])
P("P21", "Polygon indices wrap and edges follow vertices",
  "Every polygon accessor that takes a vertex or edge number wraps around: the edge with a given number joins that vertex to the next, the last edge returns to the first vertex, and convexity or reflexity of a vertex depends only on its two neighbours. Holes are kept separately from and in addition to the outer boundary.",
  ["inputs"], "all vertex coordinates and indices for the listed sizes",
  "Wrap-around and neighbour selection errors appear at the first and last index only.",
  ["primitive/polygon.hpp", "primitive/polygon_with_holes.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/polygon_with_holes_as_segment_range.hpp"],
  [("wrapped edge access", "primitive/polygon.hpp"), ("holes", "primitive/polygon_with_holes.hpp")])
P("P22", "Polyline editing keeps the traced curve",
  "Splitting, clipping, reversing, simplifying or resampling a polyline keeps its end points as documented, keeps its points on the original curve, keeps order, and preserves total length where it must.",
  ["inputs"], "all vertex coordinates for polylines of the listed sizes and all arc-length parameters",
  "Which edge contains the cut, and cuts exactly at vertices or ends, are input-dependent cases tests do not enumerate.",
  ["primitive/polyline.hpp", "algorithm/point_sequence/polyline_split.hpp", "algorithm/point_sequence/clip_polyline_ends.hpp", "algorithm/point_sequence/remove_collinear_points.hpp", "algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp", "algorithm/point_sequence/length.hpp", "algorithm/point_sequence/curvature.hpp", "algorithm/point_sequence/polyline_offset.hpp"],
  [("polyline split", "algorithm/point_sequence/polyline_split.hpp")])
P("P23", "Rotations and reference-frame changes are rigid and composable",
  "Rotating points keeps every distance and the handedness and fixes the centre of rotation, rotating by an angle and back is the identity, and converting a position between frames or between Cartesian and polar coordinates and back returns the same position.",
  ["inputs"], "all points, angles and centres",
  "Isometry is a statement about all pairs of points and all angles.",
  ["algorithm/rotation.hpp", "space/cartesian_polar_transformation.hpp", "space/polar_cartesian_transformation.hpp", "space/reference_frame_transformation.hpp"],
  [("rotation about a point", "algorithm/rotation.hpp")])
P("P24", "Angles between directions are consistent",
  "Angles computed from the axis, between vectors and between points agree with the arc-tangent definition, normalised angles lie in the documented interval and differ from the input by whole turns, an angular range test accepts exactly the angles in the range, and the pseudo-angle used for sorting grows with the true angle.",
  ["inputs"], "all directions and all angles",
  "Quadrant and wrap-around handling has to be right for every direction.",
  ["utility/utilities.hpp"], [("angle_from_a_to_b / normalize_angle", "utility/utilities.hpp")])
P("P25", "Scalar utilities meet their contracts for all arguments",
  "Sign, clamp, minimum and maximum, magnitude, guarded division, tolerance comparison, integer powers, promotion and widening of numbers, and the named constants return what their documentation says for every argument, including negative, zero and boundary arguments.",
  ["inputs"], "all argument values", "Boundary and sign combinations are unsampled.",
  ["utility/utilities.hpp", "utility/floating_point_comparison.hpp", "arithmetic/arithmetic.hpp", "arithmetic/arithmetic_promotion_policy.hpp", "numeric/constants.hpp"],
  [("scalar helpers", "utility/utilities.hpp")])
P("P26", "Queries do not modify their arguments",
  "Calling a distance, intersection, classification, containment or measure query, or an editing function that returns a new sequence, leaves every argument other than its out-parameters, and everything reachable from it, exactly as it was.",
  ["inputs", "histories"], "all arguments of every query entry point",
  "Tests look at the result and not at each input afterwards.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "algorithm/point_in_polygon.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/distance/polygon_polygon_distance.hpp", "algorithm/point_sequence/clip_polyline_ends.hpp", "algorithm/point_sequence/remove_collinear_points.hpp"],
  [("query entry points", "algorithm/distance/point_segment_distance.hpp")])
P("P27", "Queries share no hidden mutable state",
  "Geometric queries may run concurrently from several threads on distinct or shared constant data: no query writes, or reads and depends on, state that outlives the call - process-wide, per thread or function-local static - so a result depends only on the arguments, whatever was computed before.",
  ["schedules", "histories"], "all interleavings of queries and all call histories",
  "A race or a cached value needs a particular schedule or history; the single-threaded tests cannot show its absence.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "algorithm/point_in_polygon.hpp", "utility/utilities.hpp", "primitive/point_sequence_utilities.hpp"],
  [("absence of static mutable storage", "utility/utilities.hpp")])
P("P28", "Lines, planes and half-spaces classify consistently",
  "The signed distance to a line or plane is zero exactly on it, changes sign across it and flips when the normal is reversed, and classifying a simplex against a hyperplane agrees with the classification of its vertices.",
  ["inputs"], "all planes, lines, points and segments",
  "Consistency is universally quantified over the plane and the simplex.",
  ["primitive/plane.hpp", "primitive/line.hpp", "algorithm/classify_simplex_to_plane.hpp", "primitive/hyperplane_traits.hpp", "algorithm/hyperplane_partition_policies.hpp", "algorithm/split_segment.hpp"],
  [("signed distance", "primitive/line.hpp"), ("simplex classification", "algorithm/classify_simplex_to_plane.hpp")])
P("P29", "Moving-object tests report the first time of contact",
  "A moving sphere is reported to hit a line, plane, segment, box or other moving sphere exactly when the swept sphere comes into contact with it (a mere touch of a corner or of another sphere at the start, while not approaching, is no hit); the reported time is the first time of contact, overlap at the start is time zero, and at a later reported time the reported point lies on both. Moving boxes and convex polygons are reported to collide exactly when they overlap at some time up to the limit, with the first (and last) time of overlap; the standing convex polygon test reports exactly the pairs whose interiors meet.",
  ["inputs"], "all objects and velocities",
  "First-contact times are a minimum over all times; tests check a few head-on configurations.",
  ["algorithm/intersection/moving_sphere_sphere_intersection.hpp", "algorithm/intersection/moving_sphere_plane_intersection.hpp", "algorithm/intersection/moving_sphere_segment_intersection.hpp", "algorithm/intersection/moving_sphere_aabb_intersection.hpp", "algorithm/intersection/moving_sphere_obb_intersection.hpp", "algorithm/intersection/moving_obb_obb_intersection.hpp", "algorithm/intersection/separating_axis_convex_polygons.hpp", "algorithm/intersection/moving_separating_axis_convex_polygons.hpp", "algorithm/intersection/detail/separating_axis_common.hpp"],
  [("swept tests", "algorithm/intersection/moving_sphere_sphere_intersection.hpp")])
P("P30", "All representations of a primitive read the same coordinates",
  "A coordinate, end point or vertex read through the generic access interface is the stored one, whichever of the supported storages (arrays, tuples, user types, sequences) holds it, and writing through the interface changes that coordinate and nothing else.",
  ["inputs", "programs"], "all coordinate values and each supported storage",
  "Tests instantiate one or two storages; an index slip in another adaptor is not exercised.",
  ["primitive/point_traits.hpp", "tensor/tuple_vector_access_policy.hpp", "tensor/index_operator_vector_access_policy.hpp", "tensor/fusion_vector_access_policy.hpp", "primitive/segment_traits.hpp", "primitive/point_sequence_traits.hpp"],
  [("tensor access policies", "tensor/index_operator_vector_access_policy.hpp")])
P("P31", "Reading coordinates through another reference frame converts them",
  "Reading a Cartesian point as polar gives its radius and angle, reading a polar point as Cartesian gives its components, and reading through the point's own frame is the identity.",
  ["inputs"], "all points", "Quadrants and the origin are separate cases; tests sample one or two.",
  ["space/cartesian_polar_transformation.hpp", "space/polar_cartesian_transformation.hpp", "space/cartesian_access_traits.hpp", "space/polar_access_traits.hpp", "space/reference_frame_adaptor.hpp"],
  [("frame transformations", "space/cartesian_polar_transformation.hpp")])
P("P32", "Fixed-point and interval numbers behave as numbers",
  "Fixed-point arithmetic equals integer arithmetic on the scaled representation for all operands in range, comparison agrees with value order, and interval set operations return exactly the union, intersection or containment of the operands.",
  ["inputs"], "all representable operands", "Tests sample a few literals; sign and rounding cases are input dependent.",
  ["numeric/fixed_point.hpp", "numeric/fixed_point_traits.hpp", "numeric/interval.hpp"],
  [("scaled integer arithmetic", "numeric/fixed_point.hpp"), ("interval operations", "numeric/interval.hpp")])
P("P33", "Grid containers give each cell its own storage",
  "Reading a grid cell returns what was last written to that cell and no other; distinct cells never share storage, and clearing or resetting affects exactly the cells it names.",
  ["inputs", "histories"], "all index pairs and write histories",
  "Aliasing of cells appears for particular index pairs in non-square grids.",
  ["algorithm/grid_2d.hpp", "algorithm/hash_grid_2d.hpp"], [("cell addressing", "algorithm/grid_2d.hpp")])
P("P34", "Spatial trees answer like a linear scan",
  "A kd-tree reports for a range query every stored point of the closed range once and no other. A solid BSP tree classifies every point as in the solid, on its boundary or in empty space as the faces it was built from do, returns the distance to and the index of a nearest face, and the first solid point along every ray that does not run along a face. A node BSP tree locates every point relative to the polygon of its edges, whether built at once or by insertion, and draws every edge not seen edge-on once, nothing hidden before what hides it. The answers do not depend on how the splitting faces are chosen.",
  ["inputs", "histories"], "all query points, ranges, rays and viewpoints, for a collection of point sets and polygons (with coplanar faces, vertices on face lines, splits, pillars, walls), both selection policies and both insertion orders",
  "Queries that fall on a splitting line, or whose nearest face lies across one, are measure-zero or thin regions; tests ask at a few generic places.",
  ["algorithm/kd_tree.hpp", "algorithm/node_bsp_tree_2d.hpp", "algorithm/solid_leaf_bsp_tree.hpp", "algorithm/median_partitioning_strategy.hpp", "algorithm/hyperplane_partition_policies.hpp", "algorithm/classify_simplex_to_plane.hpp"],
  [("range search and pruning", "algorithm/kd_tree.hpp"), ("solid leaf construction and queries", "algorithm/solid_leaf_bsp_tree.hpp"), ("point location and painter's order", "algorithm/node_bsp_tree_2d.hpp")])
P("P35", "Supporting utilities keep their contracts",
  "A memoised function returns what the function would return and evaluates it once per distinct argument; an index sequence of any length lists 0 to N-1 in order; a sequence generator counts up from its start; running statistics equal the mean and variance of the values fed in; the private allocator hands out the storage asked for and constructs and destroys each object exactly once; hue-saturation-value conversion maps every sixth of the hue circle to its channels.",
  ["inputs", "histories"], "all arguments; all sequence lengths up to 200 and sampled ones beyond", "Contracts range over histories and lengths; tests run one.",
  ["utility/memoize.hpp", "utility/private_allocator.hpp", "utility/integer_sequence.hpp", "utility/random_generator.hpp", "utility/golden_ratio_color_generator.hpp"],
  [("memoization", "utility/memoize.hpp"), ("index sequence construction", "utility/integer_sequence.hpp")])
P("P36", "Sequence searches and shape comparisons are exact",
  "Two polygons are reported congruent exactly when a rigid motion (with the reflections asked for) maps one to the other; the stretch of a polygon's border near a place along it is returned in order; containment of a polygon or polyline in a polygon, simplicity of a polygon, self-meeting of a chain and the side of a chain a point lies on agree with the geometry.",
  ["inputs"], "all pairs of sequences of the listed sizes; all positions of the listed shapes or of one of their corners", "Matching alignments depend on starting vertices and repeated patterns; touching and collinear configurations are measure-zero.",
  ["algorithm/point_sequence/is_congruent.hpp", "algorithm/point_sequence/find_subsequence.hpp", "algorithm/point_sequence/polygon_polygon_containment.hpp", "algorithm/point_sequence/polygon_polyline_containment.hpp", "algorithm/point_sequence/is_polygon_simple.hpp", "algorithm/point_sequence/self_intersection.hpp", "algorithm/point_sequence/point_polyline_orientation.hpp"],
  [("shape comparison", "algorithm/point_sequence/is_congruent.hpp"), ("containment", "algorithm/point_sequence/polygon_polygon_containment.hpp")])
P("P37", "Planar sweeps and meshes report every structure element",
  "The intersection sweep over a set of segments reports every meeting pair exactly once, in sweep order, and nothing else; the chains recovered from a set of directed edges contain every edge once, open ones from their first to their last vertex and closed ones as polygons, also after the edge list has been copied; a triangle mesh lists two triangles as neighbours exactly across their common edge, finds the triangle that holds a point, samples points by area, and finds exactly the corners in sight of a point.",
  ["inputs"], "all positions of a moving point in fixed configurations of segments, edges and triangles that cover the event kinds (crossings, shared ends, vertical and collinear segments; open, closed, joined chains; both triangle orientations)",
  "The output is a function of ordered containers and linked structures whose ties and orders change with the position of one element; tests use one layout.",
  ["algorithm/bentley_ottmann_segment_intersection.hpp", "algorithm/bentley_ottmann_sweep.hpp", "algorithm/mesh_2d.hpp", "algorithm/visible_vertices_mesh_search.hpp", "algorithm/doubly_connected_edge_list.hpp"],
  [("event queue and sweep line", "algorithm/bentley_ottmann_segment_intersection.hpp"), ("triangle adjacency and location", "algorithm/mesh_2d.hpp"), ("edge chains", "algorithm/doubly_connected_edge_list.hpp")])
P("P38", "Adaptive predicates equal the exact determinant sign",
  "The robust orientation and in-circle predicates return a value with the sign of the exact determinant for all finite inputs, despite floating-point rounding.",
  ["inputs"], "all finite floating-point inputs", "The guarantee concerns every near-degenerate input to the last bit.",
  ["algorithm/predicates.hpp", "algorithm/point_in_circumcircle.hpp"], [("adaptive precision expansion", "algorithm/predicates.hpp")])
P("P39", "Numeric results stay accurate under rounding",
  "Distances, intersections and areas computed in floating point differ from the exact value by no more than a small multiple of the machine precision times the size of the input.",
  ["inputs"], "all finite floating-point inputs", "Worst-case rounding is reached by rare inputs.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp"], [("floating-point evaluation", "utility/utilities.hpp")])

P("P40", "Overlap tests agree with the existence of a common point",
  "Two boxes, a box and a sphere, segment, triangle, polyline or polygon, a sphere and an oriented box, two oriented boxes, a segment and a triangle, a circle and a polyline, and two polylines are reported to intersect exactly when the closed shapes have a point in common (two convex polygons: when their interiors overlap); where common points are returned they are points of both shapes, and where every meeting pair of edges is handed to a visitor none is left out or repeated until the visitor asks to stop.",
  ["inputs"], "all positions of the shapes, for the boxes also all sizes, and for turned boxes all angles",
  "Separation by one particular axis, edge or corner concerns thin regions of positions; tests place shapes clearly apart or clearly overlapping.",
  ["algorithm/intersection/aabb_aabb_intersection.hpp", "algorithm/intersection/obb_obb_intersection.hpp", "algorithm/intersection/segment_aabb_intersection.hpp", "algorithm/intersection/sphere_aabb_intersection.hpp", "algorithm/intersection/sphere_obb_intersection.hpp", "algorithm/intersection/polygon_aabb_intersection.hpp", "algorithm/intersection/polyline_aabb_intersection.hpp", "algorithm/intersection/polyline_polyline_intersection.hpp", "algorithm/intersection/segment_polyline_intersection.hpp", "algorithm/intersection/segment_triangle_intersection.hpp", "algorithm/intersection/sphere_polyline_intersection.hpp", "algorithm/intersection/separating_axis_convex_polygons.hpp", "algorithm/eberly_triangle_aabb_intersection.hpp"],
  [("separating axes of boxes", "algorithm/intersection/obb_obb_intersection.hpp"), ("segment against triangle", "algorithm/intersection/segment_triangle_intersection.hpp"), ("edge by edge visitation", "algorithm/intersection/polyline_polyline_intersection.hpp")])
P("P41", "Results do not depend on where the figure stands",
  "Moving a figure, or turning it, leaves every distance, length, area, parameter and classification unchanged and carries every reported point along: distances, closest points, intersections, orientation, containment, measures, offsets, simplification, cleaning and moving-body contact times see only the figure's shape. (Axis-aligned boxes are moved only; which side a boundary point of a polygon falls on may depend on the axes.)",
  ["inputs"], "all coordinates and all translations; turns by the angle of the 3-4-5 triangle combined with any translation (an angle that generates a dense set of rotations)",
  "The relation quantifies over a continuous group of motions of every input; a term that should cancel, or an axis that is favoured, is invisible to a test with its figure near the origin and along the axes.",
  ["algorithm/distance/point_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/orientation.hpp", "utility/utilities.hpp", "algorithm/point_sequence/polyline_offset.hpp", "algorithm/intersection/moving_sphere_segment_intersection.hpp"],
  [("distance and intersection functions", "algorithm/intersection/segment_segment_intersection.hpp"), ("measures of point sequences", "primitive/point_sequence_utilities.hpp")])
P("P42", "Results do not depend on how the input is presented",
  "Swapping the ends of a segment or line, swapping the two objects of a symmetric question, listing a polygon from another corner or a curve from its other end, or using another overload gives the same answer: the same distance, contact time, classification, measure and points, with parameters, signs and sides exchanged where the question names them. Two moving bodies carried along at one more common velocity meet at the same time.",
  ["inputs"], "all coordinates (for the larger shapes, all positions of one corner or body), over the symmetric presentations of each entry point",
  "The code treats its arguments asymmetrically (one is projected on the other, the loop starts somewhere), so agreement has to be checked where the branches differ; tests call each function with one presentation.",
  ["algorithm/distance/segment_segment_distance.hpp", "algorithm/intersection/segment_segment_intersection.hpp", "algorithm/line_intersection.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/point_in_polygon.hpp", "algorithm/intersection/obb_obb_intersection.hpp", "algorithm/intersection/moving_separating_axis_convex_polygons.hpp"],
  [("symmetric queries", "algorithm/intersection/segment_segment_intersection.hpp"), ("relative motion", "algorithm/intersection/moving_obb_obb_intersection.hpp")])
P("P43", "Sets of collinear segments add and subtract like intervals",
  "Uniting a segment with a set of collinear segments, or taking it away from them, leaves segments on the same line that cover a point (other than an end point) exactly when the union or the difference does, and no point twice, whatever the directions of the segments.",
  ["inputs"], "all positions of either end of the segment against sets of one to three segments of both directions, and all query points",
  "Each relative order of four end points is its own branch; tests sample a few orders.",
  ["utility/utilities.hpp"], [("collinear_segment_difference, collinear_segment_union", "utility/utilities.hpp")])
P("P44", "Unit-carrying and tagged numbers compute like plain numbers",
  "A figure measured in boost.units quantities gives the same vectors, products, distances, areas, classifications, clip ends and intersection points as the same figure in plain numbers, and a tagged quantity adds, multiplies, compares, converts and is transformed by mathematical functions exactly as the number it carries, for every mix of tagged, differently tagged and plain operands.",
  ["inputs", "configurations"], "all coordinates (for the larger figures, all positions of one or two corners), all operand kinds",
  "Every operator and function has its own overload for quantity-quantity, quantity-number and number-quantity operands and its own construction and comparison route; tests use a handful of them.",
  ["arithmetic/boost_units_arithmetic.hpp", "numeric/boost_units_quantity.hpp", "utility/tagged_quantity.hpp", "arithmetic/scalar_arithmetic.hpp", "numeric/number_comparison_policy.hpp"],
  [("tagged_quantity operators", "utility/tagged_quantity.hpp"), ("dimensionless mixing", "arithmetic/boost_units_arithmetic.hpp")])

NA = {}
exec(open(os.path.join(ROOT, "tools", "na.py")).read())

TECH = "static analysis: abstract interpretation of the compiled IR to gated value graphs, compared with a specification's value graph"
TECHX = {}
NOTE = ("Every obligation is an entry point instantiated in a witness unit that clang compiles (never runs) from the current tree; its value graph is computed for all inputs and "
        "compared with the specification's. Assumes exact real arithmetic and no NaN/overflow; an obligation the comparison cannot decide is reported in evidence and raises no alarm.")
NOTEX = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PR:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PR:
        i = p["id"]
        assert len(p["title"]) <= 80, i
        if os.path.isdir(os.path.join(ROOT, "witness", i)):
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               technique=TECHX.get(i, TECH), level="other", level_note=NOTEX.get(i, NOTE)))
        else:
            na.append(dict(property=i, reason=NA[i]))
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
