#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include "P44/units.inc"
typedef sphere<2,PL> CL2; typedef sphere<3,PL3> CL3; template <class P> struct ball; template <> struct ball<P2> { typedef sphere<2,P2> type; }; template <> struct ball<PL> { typedef CL2 type; };
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, PL, CL2); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CL2); GEOMETRIX_DEFINE_SPHERE_TRAITS(3, PL3, CL3); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CL3);
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp point_line_distance_sqrd over quantities
SAME(pline, line<P> l(P(q(1),q(1)), P(q(4),q(5))); o[0] = val(point_line_distance(p(0), l)); o[1] = val(signed_point_line_distance(p(0), l));)
SAME(paabb, axis_aligned_bounding_box<P> b(P(q(1),q(1)), P(q(4),q(5))); o[0] = val(point_aabb_distance_sqrd(p(0), b));)
SAME(ppgon, polygon<P> g{P(q(0),q(0)), P(q(5),q(1)), P(q(2),q(4))}; o[0] = val(point_polygon_distance_sqrd(p(0), g));)
SAME(ppl, polyline<P> g{P(q(0),q(0)), P(q(5),q(1)), P(q(2),q(4))}; o[0] = val(point_polyline_distance_sqrd(p(0), g));)
//@ anchor geometrix/algorithm/intersection/sphere_sphere_intersection.hpp sphere_sphere_intersection over quantities
SAME(sss, typedef typename ball<P>::type C; o[0] = (int)sphere_sphere_intersection(C(p(0), q(a[2])), C(P(q(1),q(2)), q(a[3])), EXACT()).State;)
SAME(ccs, typedef typename ball<P>::type C; o[0] = (int)circle_circle_intersection(C(p(0), q(a[2])), C(P(q(1),q(2)), q(a[3])), EXACT()).State;)
SAME(aab, typedef axis_aligned_bounding_box<P> B; o[0] = aabb_aabb_intersection(B(p(0), p(1)), B(P(q(1),q(2)), P(q(3),q(5))), EXACT());)
//@ anchor geometrix/algorithm/cohen_sutherland_line_clipping.hpp cohen_sutherland_line_clip over quantities
SAME(clip, typename K<X>::N x0 = q(a[0]); auto y0 = q(a[1]); auto x1 = q(7); auto y1 = q(8); bool z = cohen_sutherland_line_clip(x0, y0, x1, y1, q(1), q(1), q(4), q(5), EXACT()); o[0] = z; if (z) { o[1] = val(x0); o[2] = val(y0); o[3] = val(x1); o[4] = val(y1); })
//@ anchor geometrix/algorithm/grid_traits.hpp grid_traits over quantities
SAME(gridx, typedef typename K<X>::N N; grid_traits<N> g(q(0), q(10), q(0), q(6), q(2)); o[0] = (double)g.get_x_index(q(a[0])); o[1] = (double)g.get_y_index(q(a[1])); o[2] = g.is_contained(p(0));) PRE(gridx, const double* a) { return a[0] >= 0 && a[0] <= 10 && a[1] >= 0 && a[1] <= 6; }
SAME(gridc, typedef typename K<X>::N N; grid_traits<N> g(q(a[0]), q(a[0] + 10), q(a[1]), q(a[1] + 6), q(2)); out(o, g.get_cell_centroid(3, 1));)
//@ anchor geometrix/algorithm/point_sequence/length.hpp polyline_length over quantities
SAME(plen, polyline<P> g{p(0), P(q(5),q(1)), p(1)}; o[0] = val(polyline_length(g));)
SAME(pmid, polyline<P> g{P(q(0),q(0)), P(q(a[0]),q(0)), P(q(a[0]),q(3))}; P r = polyline_mid_point(g); out(o, r);) PRE(pmid, const double* a) { return a[0] > 0.5 && a[0] < 10; }
//@ anchor geometrix/arithmetic/vector/lerp.hpp lerp over quantities
SAME(lerps, auto r = lerp(v(0), v(1), a[4]); out(o, r);)
//@ anchor geometrix/algorithm/point_sequence/remove_collinear_points.hpp remove_collinear_points over quantities
SAME(rcol, polygon<P> g{P(q(0),q(0)), p(0), P(q(5),q(1)), P(q(2),q(4))}; auto r = remove_collinear_points_polygon(g, EXACT()); o[0] = (double)r.size();)
SAME(llx, P x; auto r = line_line_intersect(P(q(0),q(0)), P(q(4),q(1)), p(0), P(q(2),q(3)), x, EXACT()); o[0] = (int)r; if (r == e_crossing) out(o + 1, x);)
//@ anchor geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp moving_sphere_sphere_intersection over quantities
SAME(mss, typedef typename ball<P>::type C; typedef typename K<X>::W W; auto t = K<X>::t(0); P x; bool z = moving_sphere_sphere_intersection(C(P(q(0),q(0)), q(1)), C(p(0), q(2)), W(K<X>::s(a[2]), K<X>::s(1)), W(K<X>::s(0), K<X>::s(0)), t, x, EXACT()); o[0] = z; if (z) { o[1] = val(t); out(o + 2, x); })
