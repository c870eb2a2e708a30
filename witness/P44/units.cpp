#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/line.hpp>
// the same figure measured in metres and as plain numbers gives the same answer
#include "P44/units.inc"
//@ anchor geometrix/arithmetic/boost_units_arithmetic.hpp operators
SAME(diff, V r = p(0) - p(1); out(o, r);)
SAME(sum, P r = p(0) + v(1) - v(2); out(o, r);)
SAME(scale, P r = p(0) + 2.0 * (v(1) * 3.0 - v(2) / 4.0); out(o, r);)
SAME(neg, V r = -v(0); out(o, r);)
SAME(dot, o[0] = val(dot_product(v(0), v(1)));)
SAME(dot3, o[0] = val(dot_product(vv(0), vv(1)));)
SAME(mag2, o[0] = val(magnitude_sqrd(v(0)));)
SAME(mag, o[0] = val(magnitude(v(0)));)
SAME(norm, auto r = normalize(v(0)); out(o, r);) PRE(norm, const double* a) { return a[0]*a[0]+a[1]*a[1] > 0.01; }
SAME(ext, o[0] = val(exterior_product_area(v(0), v(1)));)
SAME(cross, auto r = vv(0) ^ vv(1); o[0] = val(geometrix::get<0>(r)); o[1] = val(geometrix::get<1>(r)); o[2] = val(geometrix::get<2>(r));)
SAME(perps, V r = left_normal(v(0)); V s = right_normal(v(0)); out(o, r); out(o + 2, s);)
SAME(dist2, o[0] = val(point_point_distance_sqrd(p(0), p(1)));)
SAME(dist, o[0] = val(point_point_distance(p(0), p(1)));)
//@ anchor geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance_sqrd over quantities
SAME(pseg, o[0] = val(point_segment_distance_sqrd(p(0), segment<P>(P(q(0),q(0)), P(q(4),q(1)))));)
SAME(psegc, P r = point_segment_closest_point(p(0), segment<P>(P(q(0),q(0)), P(q(4),q(1)))); out(o, r);)
SAME(ssd, o[0] = val(segment_segment_distance_sqrd(segment<P>(P(q(0),q(0)), P(q(4),q(0))), segment<P>(p(0), P(q(5),q(7))), EXACT()));)
//@ anchor geometrix/algorithm/orientation.hpp get_orientation over quantities
SAME(orient, o[0] = (int)get_orientation(p(0), p(1), p(2), EXACT());)
SAME(between, o[0] = is_between(p(0), p(1), p(2), true, EXACT());)
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon over quantities
SAME(pip, std::array<P,3> t = {{P(q(0),q(0)), P(q(5),q(1)), P(q(2),q(4))}}; o[0] = (int)point_in_polygon(p(0), t);)
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_area / get_centroid over quantities
SAME(area, std::array<P,4> t = {{p(0), p(1), p(2), p(3)}}; o[0] = val(get_area(t));)
SAME(cen, std::array<P,3> t = {{p(0), P(q(5),q(1)), P(q(2),q(4))}}; P r = get_centroid(t); out(o, r);) PRE(cen, const double* a) { return a[0] > -1 && a[0] < 1 && a[1] > -1 && a[1] < 1; }
SAME(bnd, std::array<P,3> t = {{p(0), p(1), p(2)}}; auto b = make_aabb<P>(t); out(o, b.get_lower_bound()); out(o + 2, b.get_upper_bound());)
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection over quantities
SAME(ssx, P x[2]; auto r = segment_segment_intersection(segment<P>(P(q(0),q(0)), P(q(4),q(0))), segment<P>(p(0), P(q(2),q(3))), x, EXACT()); o[0] = (int)r; if (r == e_crossing) out(o + 1, x[0]);)
