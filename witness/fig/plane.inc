#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include "fig/fig.hpp"
//@ anchor geometrix/algorithm/distance/point_point_distance.hpp point_point_distance
H(ppd, 1, point_point_distance(f.p(0), f.p(1)))
H(ppd2, 2, point_point_distance_sqrd(f.p(0), f.p(1)))
H(ppd3, 2, point_point_distance_sqrd(f.q(0), f.q(1)))
//@ anchor geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance
H(psd, 1, point_segment_distance(f.p(0), f.g(1)))
H(psd2, 2, point_segment_distance_sqrd(f.p(0), f.p(1), f.p(2)))
H(psd3, 2, point_segment_distance_sqrd(f.q(0), f.q(1), f.q(2)))
//@ anchor geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point
HO(pscp, 1, 0, 1, { double t; X[0] = point_segment_closest_point_and_param(f.p(0), f.p(1), f.p(2), t); I[0] = t; })
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp point_line_distance
H(pld, 1, point_line_distance(f.p(0), line<P2>(f.p(1), f.p(2))))
H(spld, 1, signed_point_line_distance(f.p(0), line<P2>(f.p(1), f.p(2))))
//@ anchor geometrix/algorithm/distance/point_aabb_distance.hpp point_aabb_distance
A(pab, 2, point_aabb_distance_sqrd(f.p(0), axis_aligned_bounding_box<P2>(f.p(1), f.p(2))))
A(pabr, 1, point_aabb_distance(f.p(0), axis_aligned_bounding_box<P2>(f.p(1), f.p(2))))
A(aab, 2, aabb_aabb_distance_sqrd(axis_aligned_bounding_box<P2>(f.p(0), f.p(1)), axis_aligned_bounding_box<P2>(f.p(2), f.p(3))))
//@ anchor geometrix/algorithm/distance/segment_segment_distance.hpp segment_segment_distance
H(ssd2, 2, segment_segment_distance_sqrd(f.at(0,0), f.at(4,1), f.p(0), f.p(1), EXACT()))
H(ssd3, 2, segment_segment_distance_sqrd(f.at(0,0), f.at(4,0), f.at(1,3), f.p(0), EXACT()))
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection
AO(ssi, 1, 0, 1, { P2 x[2]; int r = segment_segment_intersection(f.p(0), f.p(1), f.p(2), f.p(3), x, EXACT()); I[0] = r; if (r) X[0] = x[0]; else H = false; })
HO(ssif, 1, 0, 1, { P2 x[2]; int r = segment_segment_intersection(f.at(0,0), f.at(4,1), f.p(0), f.p(1), x, EXACT()); I[0] = r; if (r && r != e_overlapping) X[0] = x[0]; else H = false; })
//@ anchor geometrix/algorithm/intersection/ray_segment_intersection.hpp ray_segment_intersection
HO(rsi, 1, 1, 1, { P2 x[2]; double t; int r = ray_segment_intersection(f.p(0), f.d(1), f.p(2), f.p(3), t, x, EXACT()); I[0] = r; if (r) { J[0] = t; X[0] = x[0]; } else H = false; })
//@ anchor geometrix/algorithm/line_intersection.hpp line_line_intersect
HO(lli, 3, 0, 1, { P2 x; double s = 0; double t = 0; int r = line_line_intersect(f.p(0), f.p(1), f.p(2), f.p(3), x, s, t, EXACT()); I[0] = r; if (r == e_crossing) { I[1] = s; I[2] = t; X[0] = x; } else H = false; })
HO(lsi, 1, 0, 1, { P2 x; int r = line_segment_intersect(f.p(0), f.p(1), f.p(2), f.p(3), x, EXACT()); I[0] = r; if (r == e_crossing || r == e_endpoint) X[0] = x; else H = false; })
//@ anchor geometrix/algorithm/bounding_box_intersection.hpp bounding_box_intersection
A(bbi, 0, bounding_box_intersection(f.p(0), f.p(1), f.p(2), f.p(3), EXACT()))
//@ anchor geometrix/algorithm/intersection/segment_sphere_intersection.hpp segment_sphere_intersection
HO(ssph, 2, 0, 1, { double t = 0; P2 x(0,0); bool z = segment_sphere_intersection(f.p(0), f.p(1), sphere<2,P2>(f.at(0,0), f.l(4)), t, x, EXACT()); I[0] = z; if (z) { I[1] = t; X[0] = x; } else H = false; })
//@ anchor geometrix/algorithm/orientation.hpp get_orientation
H(ori, 0, (int)get_orientation(f.p(0), f.p(1), f.p(2), EXACT()))
H(oriv, 0, (int)get_orientation(f.v(0), f.v(1), EXACT()))
//@ anchor geometrix/utility/utilities.hpp is_between
H(btw, 0, is_between(f.p(0), f.p(1), f.p(2), true, EXACT()) + 2*is_between(f.p(0), f.p(1), f.p(2), false, EXACT()))
H(coll, 0, is_collinear(f.p(0), f.p(1), f.p(2), EXACT()))
H(vbt, 0, is_vector_between(f.v(0), f.v(1), f.v(2), true, EXACT()))
//@ anchor geometrix/algorithm/is_segment_in_range.hpp is_segment_in_range_2d
H(rng, 0, is_segment_in_range_2d(f.g(0), f.v(2), f.v(3), f.at(0,0)))
//@ anchor geometrix/algorithm/segment_mid_point.hpp segment_mid_point
HO(smid, 0, 0, 1, { X[0] = segment_mid_point(f.g(0)); })
