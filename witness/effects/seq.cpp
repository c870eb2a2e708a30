#include <geometrix/algorithm/euclidean_distance.hpp>
#include "q.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algorithm/rotation.hpp>
typedef polygon<P2> G2; typedef polyline<P2> L2; typedef std::vector<P2> W2; typedef axis_aligned_bounding_box<P2> B2; typedef polygon_with_holes<P2> H2; typedef std::size_t U; typedef matrix<double, 2, 2> M22;
//@ query geometrix/algorithm/point_in_polygon.hpp point_in_polygon
Q(bool, pip, P2& p, G2& g) { return point_in_polygon(p, g); }
Q(bool, picp, P2& p, G2& g, TOL& c) { return point_in_convex_polygon(p, g, c); }
Q(bool, pisp, P2& p, G2& g, int a, int b, TOL& c) { return point_in_subpolygon(p, g, a, b, c); }
Q(bool, pit, P2& p, P2& a, P2& b, P2& d, TOL& c) { return point_in_triangle(p, a, b, d, c); }
Q(bool, pit3, P3& p, P3& a, P3& b, P3& d, TOL& c) { return point_in_triangle(p, a, b, d, c); }
//@ query geometrix/algorithm/point_in_polygon.hpp point_polygon_containment_or_on_border
Q(int, ppc, P2& p, G2& g, TOL& c) { return (int)point_polygon_containment_or_on_border(p, g, c); }
//@ query geometrix/primitive/point_sequence_utilities.hpp get_signed_area
Q(double, sarea, G2& g) { return get_signed_area(g); }
Q(double, area, G2& g) { return get_area(g); }
//@ query geometrix/primitive/point_sequence_utilities.hpp get_centroid
Q(P2, cen, G2& g) { return get_centroid(g); }
//@ query geometrix/primitive/point_sequence_utilities.hpp is_polygon_simple
Q(bool, conc, G2& g, U i) { return is_point_concave(g, i); }
Q(U, asseg, G2& g) { return polygon_as_segment_range<S2>(g).size(); }
Q(U, pasg, L2& g) { return polyline_as_segment_range<S2>(g).size(); }
Q(bool, pseq, G2& g, G2& h, TOL& c) { return point_sequences_equal(g, h, c); }
Q(bool, pgeq, G2& g, G2& h, U o, TOL& c) { return polygons_equal(g, h, o, c); }
Q(U, pgof, G2& g, G2& h, TOL& c) { return polygon_polygon_offset(g, h, c); }
Q(U, rev, G2& g) { return geometrix::reverse(g).size(); }
Q(double, bnd, G2& g, TOL& c) { return std::get<0>(get_bounds(g, c)); }
//@ query geometrix/algorithm/polygon_with_holes_as_segment_range.hpp polygon_with_holes_as_segment_range
Q(U, hseg, H2& h) { return polygon_with_holes_as_segment_range<S2>(h).size(); }
//@ query geometrix/algorithm/point_sequence/length.hpp polyline_length
Q(double, llen, L2& g) { return polyline_length(g); }
Q(double, glen, G2& g) { return polygon_length(g); }
//@ query geometrix/algorithm/point_sequence/clip_polyline_ends.hpp clip_polyline_ends
Q(U, clipf, L2& g, double& l, TOL& c) { return clip_polyline_front(g, l, c).size(); }
Q(U, clipb, L2& g, double& l, TOL& c) { return clip_polyline_back(g, l, c).size(); }
Q(U, clipe, L2& g, double& l, TOL& c) { return clip_polyline_ends(g, l, c).size(); }
Q(U, seglen, L2& g) { return polyline_segment_lengths(g).size(); }
//@ query geometrix/algorithm/point_sequence/curvature.hpp polyline_total_curvature
Q(double, curv, L2& g) { return polyline_total_curvature(g); }
Q(double, acurv, L2& g) { return polyline_total_absolute_curvature(g); }
Q(U, infl, L2& g) { return inflection_points(g).size(); }
Q(U, sinfl, L2& g) { return split_polyline_by_inflection_points(g).size(); }
//@ query geometrix/algorithm/point_sequence/find_subsequence.hpp polygon_subsequence
Q(U, fcbs, G2& g, P2& p, TOL& c) { return find_containing_or_closest_polygon_border_segment(g, p, c); }
Q(U, psub, G2& g, P2& p, double& e, TOL& c) { return polygon_subsequence(g, p, e, c).size(); }
//@ query geometrix/algorithm/point_sequence/is_congruent.hpp are_polygons_congruent
Q(bool, gcong, G2& g, G2& h, TOL& c) { return are_polygons_congruent(g, h, c); }
Q(bool, lcong, L2& g, L2& h, TOL& c) { return are_polylines_congruent(g, h, c); }
//@ query geometrix/algorithm/point_sequence/is_polygon_simple.hpp is_polygon_simple
Q(bool, simp, G2& g, TOL& c) { return is_polygon_simple(g, c); }
Q(bool, simpm, G2& g, TOL& c) { return is_polygon_simple_memoized(g, c); }
Q(bool, hsimp, H2& g, TOL& c) { return is_polygon_with_holes_simple(g, c); }
//@ query geometrix/algorithm/point_sequence/point_polyline_orientation.hpp point_polyline_orientation
Q(int, plor, P2& p, L2& g, TOL& c) { return point_polyline_orientation(p, g, c); }
//@ query geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp polygon_polygon_containment
Q(bool, ggc, G2& g, G2& h, TOL& c) { return polygon_polygon_containment(g, h, c); }
//@ query geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp polygon_polyline_containment
Q(bool, glc, L2& g, G2& h, TOL& c) { return polygon_polyline_containment(g, h, c); }
//@ query geometrix/algorithm/point_sequence/polyline_mid_point.hpp polyline_mid_point
Q(P2, lmid, L2& g) { return polyline_mid_point(g); }
//@ query geometrix/algorithm/point_sequence/polyline_split.hpp polyline_split
Q(U, lpos, L2& g, double& l) { return std::get<0>(polyline_point_at_position(g, l)); }
Q(U, lspl, L2& g, double& l) { return std::get<0>(polyline_split(g, l)).size(); }
//@ query geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp ramer_douglas_peucker_algorithm
Q(U, rdp, L2& g, double& l) { return ramer_douglas_peucker_algorithm(g, l).size(); }
//@ query geometrix/algorithm/point_sequence/remove_collinear_points.hpp remove_collinear_points_polygon
Q(U, rcpg, G2& g, TOL& c) { return remove_collinear_points_polygon(g, c).size(); }
Q(U, rcpl, L2& g, TOL& c) { return remove_collinear_points_polyline(g, c).size(); }
Q(U, capg, G2& g, TOL& c) { return coalesce_adjacent_points_polygon(g, c).size(); }
Q(U, capl, L2& g, TOL& c) { return coalesce_adjacent_points_polyline(g, c).size(); }
Q(U, clg, G2& g, TOL& c) { return clean_polygon(g, c).size(); }
Q(U, cll, L2& g, TOL& c) { return clean_polyline(g, c).size(); }
//@ query geometrix/algorithm/point_sequence/self_intersection.hpp polyline_self_intersection
Q(bool, selfx, L2& g, int& out_n, TOL& c) { return polyline_self_intersection(g, [&out_n](U, U, int, P2, P2) { ++out_n; }, c); }
//@ query geometrix/algorithm/rotation.hpp rotate_points
Q(U, rotp, G2& g, V2& a, V2& b, P2& o) { return rotate_points(g, a, b, o).size(); }
Q(P2, rot1, P2& p, V2& a, V2& b, P2& o) { return rotate_point(p, a, b, o); }
