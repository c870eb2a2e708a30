#include <geometrix/algorithm/euclidean_distance.hpp>
#include "q.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
typedef polygon<P2> G2; typedef polyline<P2> L2; typedef line<P2> N2; typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef oriented_bounding_box<P2, V2> O2; typedef std::tuple<std::size_t, std::size_t> SR; typedef std::size_t U;
//@ query geometrix/algorithm/distance/point_point_distance.hpp point_point_distance
Q(double, pp2, P2& a, P2& b) { return point_point_distance(a, b); }
Q(double, pp2s, P2& a, P2& b) { return point_point_distance_sqrd(a, b); }
Q(double, pp3, P3& a, P3& b) { return point_point_distance(a, b); }
//@ query geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance
Q(double, ps2, P2& p, S2& s) { return point_segment_distance(p, s); }
Q(double, ps2s, P2& p, P2& a, P2& b) { return point_segment_distance_sqrd(p, a, b); }
Q(double, ps3, P3& p, S3& s) { return point_segment_distance(p, s); }
//@ query geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point
Q(P2, pscp, P2& p, S2& s) { return point_segment_closest_point(p, s); }
Q(P3, pscp3, P3& p, S3& s) { return point_segment_closest_point(p, s); }
Q(P2, pscpt, P2& p, P2& a, P2& b, double& out_t) { return point_segment_closest_point_and_param(p, a, b, out_t); }
Q(P2, pscp_ab, P2& p, P2& a, P2& b) { return point_segment_closest_point(p, a, b); }
//@ query geometrix/algorithm/distance/point_line_distance.hpp point_line_distance
Q(double, pl, P2& p, N2& l) { return point_line_distance(p, l); }
Q(double, spl, P2& p, N2& l) { return signed_point_line_distance(p, l); }
//@ query geometrix/algorithm/distance/point_aabb_distance.hpp point_aabb_distance
Q(double, pb2, P2& p, B2& b) { return point_aabb_distance(p, b); }
Q(double, pb3, P3& p, B3& b) { return point_aabb_distance_sqrd(p, b); }
Q(P2, pbcp2, P2& p, B2& b) { return point_aabb_closest_point(p, b); }
Q(P3, pbcp3, P3& p, B3& b) { return point_aabb_closest_point(p, b); }
//@ query geometrix/algorithm/distance/point_obb_distance.hpp point_obb_distance
Q(double, po, P2& p, O2& b) { return point_obb_distance(p, b); }
Q(P2, pocp, P2& p, O2& b) { return point_obb_closest_point(p, b); }
//@ query geometrix/algorithm/distance/aabb_aabb_distance.hpp aabb_aabb_distance
Q(double, bb2, B2& a, B2& b) { return aabb_aabb_distance(a, b); }
Q(double, bb3, B3& a, B3& b) { return aabb_aabb_distance_sqrd(a, b); }
//@ query geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance
Q(double, pg, P2& p, G2& g) { return point_polygon_distance(p, g); }
//@ query geometrix/algorithm/distance/point_polyline_distance.hpp point_polyline_distance
Q(double, ply, P2& p, L2& g) { return point_polyline_distance(p, g); }
//@ query geometrix/algorithm/distance/point_polygon_closest_point.hpp point_polygon_closest_point
Q(P2, pgcp, P2& p, G2& g) { return point_polygon_closest_point(p, g); }
Q(P2, pgccp, P2& p, std::vector<G2>& g) { return point_polygon_collection_closest_point(p, g); }
//@ query geometrix/algorithm/distance/point_polyline_closest_point.hpp point_polyline_closest_point
Q(P2, plycp, P2& p, L2& g) { return point_polyline_closest_point(p, g); }
//@ query geometrix/algorithm/distance/segment_segment_distance.hpp segment_segment_distance
Q(double, ss, S2& a, S2& b, TOL& c) { return segment_segment_distance(a, b, c); }
Q(double, ss3, S3& a, S3& b, TOL& c) { return segment_segment_distance(a, b, c); }
Q(double, ss4, P2& a, P2& b, P2& c, P2& d, TOL& t) { return segment_segment_distance_sqrd(a, b, c, d, t); }
//@ query geometrix/algorithm/distance/segment_segment_closest_point.hpp segment_segment_closest_point
Q(double, sscp, P2& a, P2& b, P2& c, P2& d, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& cmp) { return segment_segment_closest_point(a, b, c, d, out_s, out_t, out_p, out_q, cmp); }
//@ query geometrix/algorithm/distance/eberly_segment_segment_distance.hpp eberly_segment_segment_distance_sqrd
Q(double, eb, S2& a, S2& b) { return eberly_segment_segment_distance_sqrd(a, b); }
//@ query geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance
Q(double, sg, S2& s, G2& g, TOL& c) { return segment_polygon_distance(s, g, c); }
Q(double, sgab, P2& a, P2& b, G2& g, TOL& c) { return segment_polygon_distance_sqrd(a, b, g, c); }
//@ query geometrix/algorithm/distance/segment_polygon_closest_point.hpp segment_polygon_closest_point
Q(double, sgcp, S2& s, G2& g, U& out_i, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return segment_polygon_closest_point(s, g, out_i, out_s, out_t, out_p, out_q, c); }
Q(double, sgcpr, S2& s, SR& r, G2& g, U& out_i, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return segment_polygon_closest_point(s, r, g, out_i, out_s, out_t, out_p, out_q, c); }
//@ query geometrix/algorithm/distance/segment_polyline_distance.hpp segment_polyline_distance
Q(double, sl, S2& s, L2& g, TOL& c) { return segment_polyline_distance(s, g, c); }
//@ query geometrix/algorithm/distance/segment_polyline_closest_point.hpp segment_polyline_closest_point
Q(double, slcp, S2& s, L2& g, U& out_i, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return segment_polyline_closest_point(s, g, out_i, out_s, out_t, out_p, out_q, c); }
Q(double, slcpr, S2& s, SR& r, L2& g, U& out_i, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return segment_polyline_closest_point(s, r, g, out_i, out_s, out_t, out_p, out_q, c); }
//@ query geometrix/algorithm/distance/polygon_polygon_distance.hpp polygon_polygon_distance
Q(double, gg, G2& a, G2& b, TOL& c) { return polygon_polygon_distance(a, b, c); }
Q(double, ggb, G2& a, G2& b, TOL& c) { return polygon_polygon_distance_sqrd_brute(a, b, c); }
//@ query geometrix/algorithm/distance/polygon_polygon_closest_point.hpp polygon_polygon_closest_point
Q(double, ggcp, G2& a, G2& b, U& out_i, U& out_j, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return polygon_polygon_closest_point(a, b, out_i, out_j, out_s, out_t, out_p, out_q, c); }
//@ query geometrix/algorithm/distance/polyline_polyline_distance.hpp polyline_polyline_distance
Q(double, ll, L2& a, L2& b, TOL& c) { return polyline_polyline_distance(a, b, c); }
Q(double, llb, L2& a, L2& b, TOL& c) { return polyline_polyline_distance_sqrd_brute(a, b, c); }
//@ query geometrix/algorithm/distance/polyline_polyline_closest_point.hpp polyline_polyline_closest_point
Q(double, llcp, L2& a, L2& b, U& out_i, U& out_j, double& out_s, double& out_t, P2& out_p, P2& out_q, TOL& c) { return polyline_polyline_closest_point(a, b, out_i, out_j, out_s, out_t, out_p, out_q, c); }
//@ query geometrix/algorithm/distance/segment_obb_distance.hpp segment_obb_distance
Q(double, so, S2& s, O2& b, TOL& c) { return segment_obb_distance(s, b, c); }
