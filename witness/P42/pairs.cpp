#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
// the same question asked in two ways: ends swapped, arguments swapped, corners permuted, other overload
static P2 p(const double* a, int i) { return P2(a[2*i], a[2*i+1]); } static V2 v(const double* a, int i) { return V2(a[2*i], a[2*i+1]); }
static P3 q(const double* a, int i) { return P3(a[3*i], a[3*i+1], a[3*i+2]); }
static S2 g(const double* a, int i, int j) { return S2(p(a,i), p(a,j)); }
#define EQ(n, X, Y) LIB(double, n, const double* a) { return X; } REF(double, n, const double* a) { return Y; }
#define EQO(n, X, Y) LIB(void, n, double* o, const double* a) { X } REF(void, n, double* o, const double* a) { Y }
static void put(double* o, const P2& x) { o[0] = x[0]; o[1] = x[1]; }
//@ anchor geometrix/algorithm/distance/point_point_distance.hpp point_point_distance
EQ(ppd, point_point_distance(p(a,0), p(a,1)), point_point_distance(p(a,1), p(a,0)))
EQ(ppd3, point_point_distance_sqrd(q(a,0), q(a,1)), point_point_distance_sqrd(q(a,1), q(a,0)))
//@ anchor geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance
EQ(psd, point_segment_distance_sqrd(p(a,0), p(a,1), p(a,2)), point_segment_distance_sqrd(p(a,0), p(a,2), p(a,1))) PRE(psd, const double* a) { return d2sq(a[2],a[3],a[4],a[5]) > 0; }
EQ(psd3, point_segment_distance_sqrd(q(a,0), q(a,1), q(a,2)), point_segment_distance_sqrd(q(a,0), q(a,2), q(a,1))) PRE(psd3, const double* a) { return sq(a[3]-a[6])+sq(a[4]-a[7])+sq(a[5]-a[8]) > 0; }
EQ(psdov, point_segment_distance_sqrd(p(a,0), p(a,1), p(a,2)), point_segment_distance_sqrd(p(a,0), g(a,1,2)))
EQ(psdrt, point_segment_distance(p(a,0), g(a,1,2)), point_segment_distance(p(a,0), g(a,2,1))) PRE(psdrt, const double* a) { return d2sq(a[2],a[3],a[4],a[5]) > 0; }
//@ anchor geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point
EQO(pscp, put(o, point_segment_closest_point(p(a,0), p(a,1), p(a,2)));, put(o, point_segment_closest_point(p(a,0), g(a,2,1)));) PRE(pscp, double* o, const double* a) { return d2sq(a[2],a[3],a[4],a[5]) > 0; }
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp point_line_distance
EQ(pld, point_line_distance(p(a,0), line<P2>(p(a,1), p(a,2))), point_line_distance(p(a,0), line<P2>(p(a,2), p(a,1))))
EQ(spld, signed_point_line_distance(p(a,0), line<P2>(p(a,1), p(a,2))), -signed_point_line_distance(p(a,0), line<P2>(p(a,2), p(a,1))))
//@ anchor geometrix/algorithm/distance/aabb_aabb_distance.hpp aabb_aabb_distance
EQ(aab, aabb_aabb_distance_sqrd(axis_aligned_bounding_box<P2>(p(a,0), p(a,1)), axis_aligned_bounding_box<P2>(p(a,2), p(a,3))), aabb_aabb_distance_sqrd(axis_aligned_bounding_box<P2>(p(a,2), p(a,3)), axis_aligned_bounding_box<P2>(p(a,0), p(a,1)))) PRE(aab, const double* a) { return a[0] <= a[2] && a[1] <= a[3] && a[4] <= a[6] && a[5] <= a[7]; }
//@ anchor geometrix/algorithm/distance/segment_segment_distance.hpp segment_segment_distance
EQ(ssde, segment_segment_distance_sqrd(P2(0,0), P2(4,1), p(a,0), p(a,1), EXACT()), segment_segment_distance_sqrd(P2(4,1), P2(0,0), p(a,0), p(a,1), EXACT()))
EQ(ssdf, segment_segment_distance_sqrd(P2(0,0), P2(4,1), p(a,0), p(a,1), EXACT()), segment_segment_distance_sqrd(P2(0,0), P2(4,1), p(a,1), p(a,0), EXACT()))
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection
static void ssi(double* o, const P2& a, const P2& b, const P2& c, const P2& d) { P2 x[2]; int r = segment_segment_intersection(a, b, c, d, x, EXACT()); o[0] = r; o[1] = o[2] = 0; if (r && r != e_overlapping) put(o+1, x[0]); }
EQO(ssis, ssi(o, P2(0,0), P2(4,1), p(a,0), p(a,1));, ssi(o, p(a,0), p(a,1), P2(0,0), P2(4,1));)
EQO(ssie, ssi(o, P2(0,0), P2(4,1), p(a,0), p(a,1));, ssi(o, P2(4,1), P2(0,0), p(a,0), p(a,1));)
EQO(ssif, ssi(o, P2(0,0), P2(4,1), p(a,0), p(a,1));, ssi(o, P2(0,0), P2(4,1), p(a,1), p(a,0));)
//@ anchor geometrix/algorithm/line_intersection.hpp line_line_intersect
EQO(lli, P2 x; double s = 0; double t = 0; int r = line_line_intersect(P2(0,0), P2(4,1), p(a,0), p(a,1), x, s, t, EXACT()); o[0] = r; if (r == e_crossing) { put(o+1, x); o[3] = s; o[4] = t; } else o[1] = o[2] = o[3] = o[4] = 0;, P2 x; double s = 0; double t = 0; int r = line_line_intersect(p(a,0), p(a,1), P2(0,0), P2(4,1), x, s, t, EXACT()); o[0] = r; if (r == e_crossing) { put(o+1, x); o[3] = t; o[4] = s; } else o[1] = o[2] = o[3] = o[4] = 0;) PRE(lli, double* o, const double* a) { return d2sq(a[2],a[3],a[0],a[1]) > 0; }
static void lsi(double* o, const P2& a, const P2& b, const P2& c, const P2& d) { P2 x; int r = line_segment_intersect(a, b, c, d, x, EXACT()); o[0] = r; o[1] = o[2] = 0; if (r == e_crossing || r == e_endpoint) put(o+1, x); }
EQO(lsie, lsi(o, p(a,0), p(a,1), p(a,2), p(a,3));, lsi(o, p(a,0), p(a,1), p(a,3), p(a,2));)
EQO(lsil, lsi(o, p(a,0), p(a,1), p(a,2), p(a,3));, lsi(o, p(a,1), p(a,0), p(a,2), p(a,3));)
//@ anchor geometrix/algorithm/bounding_box_intersection.hpp bounding_box_intersection
EQ(bbi, bounding_box_intersection(p(a,0), p(a,1), p(a,2), p(a,3), EXACT()), bounding_box_intersection(p(a,2), p(a,3), p(a,0), p(a,1), EXACT()))
EQ(bbie, bounding_box_intersection(p(a,0), p(a,1), p(a,2), p(a,3), EXACT()), bounding_box_intersection(p(a,1), p(a,0), p(a,2), p(a,3), EXACT()))
//@ anchor geometrix/algorithm/orientation.hpp get_orientation
EQ(oris, get_orientation(p(a,0), p(a,1), p(a,2), EXACT()), -(int)get_orientation(p(a,0), p(a,2), p(a,1), EXACT()))
//@ anchor geometrix/utility/utilities.hpp is_between
EQ(btw, is_between(p(a,0), p(a,1), p(a,2), true, EXACT()) + 2*is_between(p(a,0), p(a,1), p(a,2), false, EXACT()), is_between(p(a,1), p(a,0), p(a,2), true, EXACT()) + 2*is_between(p(a,1), p(a,0), p(a,2), false, EXACT()))
EQ(col, is_collinear(p(a,0), p(a,1), p(a,2), EXACT()), is_collinear(p(a,2), p(a,1), p(a,0), EXACT()))
EQ(colr, is_collinear(p(a,0), p(a,1), p(a,2), EXACT()), is_collinear(p(a,1), p(a,2), p(a,0), EXACT()))
//@ anchor geometrix/algorithm/is_segment_in_range.hpp is_segment_in_range_2d
EQ(rng, is_segment_in_range_2d(g(a,0,1), v(a,2), v(a,3), P2(0,0)), is_segment_in_range_2d(g(a,1,0), v(a,2), v(a,3), P2(0,0)))
//@ anchor geometrix/algorithm/segment_mid_point.hpp segment_mid_point
EQO(smid, put(o, segment_mid_point(g(a,0,1)));, put(o, segment_mid_point(g(a,1,0)));)
//@ anchor geometrix/algorithm/intersection/segment_sphere_intersection.hpp segment_sphere_intersection
static bool ssp(const P2& a, const P2& b, double r) { double t = 0; P2 x(0,0); return segment_sphere_intersection(a, b, sphere<2,P2>(P2(0,0), r), t, x, EXACT()); }
EQ(ssph, ssp(p(a,0), p(a,1), a[4]), ssp(p(a,1), p(a,0), a[4])) PRE(ssph, const double* a) { return a[4] > 0 && a[0]*a[0]+a[1]*a[1] > a[4]*a[4] && a[2]*a[2]+a[3]*a[3] > a[4]*a[4]; }
