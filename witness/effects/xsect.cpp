#include <geometrix/algorithm/euclidean_distance.hpp>
#include "q.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
typedef polygon<P2> G2; typedef polyline<P2> L2; typedef line<P2> N2; typedef plane<P3> N3; typedef sphere<2, P2> C2; typedef sphere<3, P3> C3;
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef oriented_bounding_box<P2, V2> O2; typedef std::size_t U;
//@ query geometrix/algorithm/line_intersection.hpp line_line_intersect
Q(int, llx, P2& a, P2& b, P2& c, P2& d, P2& out_x, TOL& t) { return line_line_intersect(a, b, c, d, out_x, t); }
Q(int, lsx, P2& a, P2& b, S2& s, P2& out_x, TOL& t) { return line_segment_intersect(a, b, s, out_x, t); }
//@ query geometrix/algorithm/bounding_box_intersection.hpp bounding_box_intersection
Q(bool, bbx, S2& a, S2& b, TOL& t) { return bounding_box_intersection(a, b, t); }
//@ query geometrix/algorithm/intersection/aabb_aabb_intersection.hpp aabb_aabb_intersection
Q(bool, ba2, B2& a, B2& b, TOL& t) { return aabb_aabb_intersection(a, b, t); }
Q(bool, ba3, B3& a, B3& b, TOL& t) { return aabb_aabb_intersection(a, b, t); }
//@ query geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection
Q(int, ssx, S2& a, S2& b, P2* out_x, TOL& t) { return segment_segment_intersection(a, b, out_x, t); }
Q(int, ssx4, P2& a, P2& b, P2& c, P2& d, P2* out_x, TOL& t) { return segment_segment_intersection(a, b, c, d, out_x, t); }
Q(int, ssx3, S3& a, S3& b, P3* out_x, TOL& t) { return segment_segment_intersection(a, b, out_x, t); }
Q(int, par, P2& a, P2& b, P2& c, P2& d, P2* out_x, TOL& t) { return segment_intersection_detail::parallel_intersection(a, b, c, d, out_x, t); }
//@ query geometrix/algorithm/intersection/ray_segment_intersection.hpp ray_segment_intersection
Q(int, rsx, P2& a, V2& v, S2& s, double& out_t, P2* out_x, TOL& t) { return ray_segment_intersection(a, v, s, out_t, out_x, t); }
Q(int, rsxb, P2& a, V2& v, S2& s, TOL& t) { return ray_segment_intersection(a, v, s, t); }
//@ query geometrix/algorithm/intersection/ray_line_intersection.hpp ray_line_intersection
Q(int, rlx, P2& a, V2& v, N2& l, double& out_t, P2& out_x, TOL& t) { return (int)(bool)ray_line_intersection(a, v, l, out_t, out_x, t).is_intersecting(); }
//@ query geometrix/algorithm/intersection/ray_sphere_intersection.hpp ray_sphere_intersection
Q(bool, rcx, P2& a, V2& v, C2& s, double& out_t, P2& out_x, TOL& t) { return ray_sphere_intersection(a, v, s, out_t, out_x, t); }
//@ query geometrix/algorithm/intersection/ray_aabb_intersection.hpp ray_aabb_intersection
Q(bool, rbx, P2& a, V2& v, B2& b, double& out_t, P2& out_x, TOL& t) { return ray_aabb_intersection(a, v, b, out_t, out_x, t).is_intersecting(); }
//@ query geometrix/algorithm/intersection/segment_aabb_intersection.hpp segment_aabb_intersection
Q(bool, sbx, P2& a, P2& b, B2& x) { return segment_aabb_intersection(a, b, x); }
Q(bool, sbx3, P3& a, P3& b, B3& x) { return segment_aabb_intersection(a, b, x); }
//@ query geometrix/algorithm/intersection/segment_plane_intersection.hpp segment_plane_intersection
Q(bool, spx, P3& a, P3& b, N3& n, double& out_t, P3& out_x) { return segment_plane_intersection(a, b, n, out_t, out_x); }
//@ query geometrix/algorithm/intersection/segment_sphere_intersection.hpp segment_sphere_intersection
Q(bool, scx, S2& s, C2& c, double& out_t, P2& out_x, TOL& t) { return segment_sphere_intersection(s, c, out_t, out_x, t); }
Q(bool, scxd, P2& a, V2& d, double& w, C2& c, double& out_t, P2& out_x, TOL& t) { return segment_sphere_intersection(a, d, w, c, out_t, out_x, t); }
Q(bool, scxe, P2& a, P2& b, C2& c, double& out_t, P2& out_x, TOL& t) { return segment_sphere_intersection(a, b, c, out_t, out_x, t); }
Q(bool, scx2, P2& a, P2& b, C2& c, double* out_t, P2* out_x, TOL& t) { return (bool)segment_sphere_intersection(a, b, c, out_t, out_x, t); }
//@ query geometrix/algorithm/intersection/segment_triangle_intersection.hpp segment_triangle_intersect
Q(U, stx, P2& a, P2& b, P2& c, P2& d, P2& e, P2* out_x, TOL& t) { return segment_triangle_intersect(a, b, c, d, e, out_x, t); }
//@ query geometrix/algorithm/intersection/segment_capsule_intersection.hpp segment_capsule_intersection
Q(bool, skx, P2& a, P2& b, P2& c, P2& d, double& r, double& out_t, P2& out_x, TOL& t) { return segment_capsule_intersection(a, b, c, d, r, out_t, out_x, t); }
//@ query geometrix/algorithm/intersection/segment_polygon_intersection.hpp segment_polygon_intersection
Q(bool, sgx, S2& s, G2& g, int& out_n, TOL& t) { return segment_polygon_border_intersect(s, g, [&out_n](int, U, U, P2, P2) { ++out_n; return false; }, t); }
//@ query geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp segment_projects_outside_polygon
Q(bool, spo, S2& s, G2& g, TOL& t) { return segment_projects_outside_polygon(s, g, t); }
//@ query geometrix/algorithm/intersection/segment_polyline_intersection.hpp segment_polyline_intersect
Q(bool, slx, S2& s, L2& g, int& out_n, TOL& t) { return segment_polyline_intersect(s, g, [&out_n](int, U, U, P2, P2) { ++out_n; return false; }, t); }
//@ query geometrix/algorithm/intersection/polyline_polyline_intersection.hpp polyline_polyline_intersect
Q(bool, plx, L2& s, L2& g, int& out_n, TOL& t) { return polyline_polyline_intersect(s, g, [&out_n](int, U, U, U, U, P2, P2) { ++out_n; return false; }, t); }
//@ query geometrix/algorithm/intersection/polygon_aabb_intersection.hpp polygon_aabb_intersection
Q(bool, gbx, G2& s, B2& g) { return polygon_aabb_intersection(s, g); }
//@ query geometrix/algorithm/intersection/polyline_aabb_intersection.hpp polyline_aabb_intersection
Q(bool, lbx, L2& s, B2& g) { return polyline_aabb_intersection(s, g); }
//@ query geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp convex_polygons_intersection
Q(bool, sat, G2& s, G2& g, TOL& t) { return convex_polygons_intersection(s, g, t); }
//@ query geometrix/algorithm/intersection/obb_obb_intersection.hpp obb_obb_intersection
Q(bool, oox, O2& s, O2& g, TOL& t) { return obb_obb_intersection(s, g, t); }
//@ query geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp moving_obb_obb_intersection
Q(bool, moo, O2& s, V2& v, O2& g, V2& w, double& m, double& out_a, double& out_b) { return moving_obb_obb_intersection(s, v, g, w, m, out_a, out_b); }
//@ query geometrix/algorithm/intersection/sphere_aabb_intersection.hpp sphere_aabb_intersection
Q(bool, cbx, C2& s, B2& b) { return sphere_aabb_intersection(s, b); }
Q(bool, cbxp, C2& s, B2& b, P2& out_p) { return sphere_aabb_intersection(s, b, out_p); }
//@ query geometrix/algorithm/intersection/sphere_obb_intersection.hpp sphere_obb_intersection
Q(bool, cox, C2& s, O2& b) { return sphere_obb_intersection(s, b); }
//@ query geometrix/algorithm/intersection/sphere_polyline_intersection.hpp sphere_polyline_intersect
Q(bool, clx, C2& s, L2& b, int& out_n, TOL& t) { return sphere_polyline_intersect(s, b, [&out_n](segment_sphere_intersection_result, U, U, double, P2, double, P2) { ++out_n; return false; }, t); }
//@ query geometrix/algorithm/intersection/sphere_sphere_intersection.hpp sphere_sphere_intersection
Q(int, ccx, C3& s, C3& b, P3& out_c, TOL& t) { auto r = sphere_sphere_intersection(s, b, t); return (int)r.State; }
//@ query geometrix/algorithm/intersection/circle_circle_intersection.hpp circle_circle_intersection
Q(int, c2x, C2& a, C2& b, TOL& t) { auto r = circle_circle_intersection(a, b, t); return (int)r.State; }
//@ query geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp moving_sphere_sphere_intersection
Q(bool, mcc, C2& s, C2& b, V2& v, V2& w, double& out_t, P2& out_x, TOL& t) { return moving_sphere_sphere_intersection(s, b, v, w, out_t, out_x, t); }
//@ query geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp moving_sphere_plane_intersection
Q(bool, mcp, C3& s, V3& v, N3& n, double& out_t, P3& out_x, TOL& t) { return moving_sphere_plane_intersection(s, v, n, out_t, out_x, t).is_intersecting(); }
//@ query geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp moving_sphere_segment_intersection
Q(bool, mcs, C2& s, V2& v, S2& n, double& out_t, P2& out_x, TOL& t) { return moving_sphere_segment_intersection(s, v, n, out_t, out_x, t).is_intersecting(); }
//@ query geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp moving_sphere_aabb_intersection
Q(bool, mcb, C2& s, V2& v, B2& n, double& out_t, P2& out_x, TOL& t) { return moving_sphere_aabb_intersection(s, v, n, out_t, out_x, t); }
//@ query geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp moving_sphere_obb_intersection
Q(bool, mco, C2& s, V2& v, O2& n, double& out_t, P2& out_x, TOL& t) { return moving_sphere_obb_intersection(s, v, n, out_t, out_x, t).is_intersecting(); }
//@ query geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp convex_polygon_polygon_intersection
Q(int, cgg, G2& a, G2& b, int& out_n, TOL& t) { return (int)convex_polygon_polygon_intersection(a, b, [&out_n](P2) { ++out_n; }, t); }
