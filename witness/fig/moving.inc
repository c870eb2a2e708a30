#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include "fig/fig.hpp"
typedef sphere<2,P2> C2; typedef sphere<3,P3> C3; typedef line<P2> L2; typedef plane<P3> PL3; typedef axis_aligned_bounding_box<P2> B2; typedef oriented_bounding_box<P2,V2> OB; typedef polyline<P2> PL;
typedef std::array<P2,3> T3; typedef std::array<P2,4> Q4;
static OB ob(const FIG& f, P2 p, double h, double w) { return OB(p, f.dir(1,0), f.dir(0,1), f.s*h, f.s*w); }
//@ anchor geometrix/algorithm/classify_simplex_to_plane.hpp classify_point_to_plane
H(clsl, 0, (int)classify_point_to_plane(f.p(0), L2(f.p(1), f.p(2)), EXACT()))
H(cls3, 0, (int)classify_point_to_plane(f.q(0), PL3(f.q(1), f.q(2), f.q(3)), EXACT()))
H(simp, 0, (int)classify_simplex_to_plane(f.g(0), L2(f.p(2), f.p(3)), EXACT()))
//@ anchor geometrix/algorithm/distance/point_obb_distance.hpp point_obb_distance
H(obb, 2, point_obb_distance_sqrd(f.p(0), OB(f.p(1), f.dir(1,0), f.dir(0,1), f.l(4), f.l(5))))
//@ anchor geometrix/algorithm/intersection/segment_plane_intersection.hpp segment_plane_intersection
HO(spl, 2, 0, 1, { double t = 0; P2 x(0,0); bool z = segment_plane_intersection(f.p(0), f.p(1), L2(f.p(2), f.p(3)), t, x); I[0] = z; if (z) { I[1] = t; X[0] = x; } else H = false; })
//@ anchor geometrix/algorithm/intersection/circle_circle_intersection.hpp circle_circle_intersection
H(cci, 0, (int)circle_circle_intersection(C2(f.at(0,0), f.l(0)), C2(f.p(1), f.l(1)), EXACT()).State)
H(ssi, 0, (int)sphere_sphere_intersection(C2(f.at(0,0), f.l(0)), C2(f.p(1), f.l(1)), EXACT()).State)
//@ anchor geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp moving_sphere_sphere_intersection
HO(mss, 2, 0, 0, { double t = 0; P2 x(0,0); bool z = moving_sphere_sphere_intersection(C2(f.at(0,0), f.l(8)), C2(f.p(0), f.l(9)), f.v(1), V2(0,0), t, x, EXACT()); I[0] = z; if (z) I[1] = t; })
//@ anchor geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp moving_sphere_plane_intersection
HO(msp, 2, 0, 1, { double t = 0; P2 x(0,0); auto z = moving_sphere_plane_intersection(C2(f.p(0), f.l(8)), f.v(1), L2(f.p(2), f.dir(0.6,0.8)), t, x, EXACT()); I[0] = bool(z); if (z) { I[1] = t; X[0] = x; } else H = false; })
//@ anchor geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp moving_sphere_segment_intersection
HO(msg, 2, 0, 0, { double t = 0; P2 x(0,0); auto z = moving_sphere_segment_intersection(C2(f.p(0), f.l(8)), f.v(1), S2(f.at(0,0), f.at(2,0)), t, x, EXACT()); I[0] = z.is_intersecting(); if (z.is_intersecting()) I[1] = t; })
//@ anchor geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp moving_sphere_aabb_intersection
AO(msb, 2, 0, 0, { double t = 0; P2 x(0,0); auto z = moving_sphere_aabb_intersection(C2(f.p(0), f.s), f.to(0,1), B2(f.at(0,0), f.at(4,2)), t, x, EXACT()); I[0] = bool(z); if (z) I[1] = t; })
//@ anchor geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp moving_obb_obb_intersection
HO(mbb, 1, 0, 0, { double a = 0; double b = 0; bool z = moving_obb_obb_intersection(ob(f, f.at(0,0), 2, 1), V2(0,0), ob(f, f.p(0), 1, 3), f.v(1), 5.0, a, b); I[0] = z; })
//@ anchor geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp convex_polygons_intersection
static T3 tri(const FIG& f, int o) { double x = f.a[2*o], y = f.a[2*o+1]; T3 r = {f.at(x,y), f.at(x+1,y), f.at(x,y+1)}; return r; }
static Q4 box(const FIG& f) { Q4 r = {f.at(0,0), f.at(4,0), f.at(4,2), f.at(0,2)}; return r; }
H(sat, 0, convex_polygons_intersection(box(f), tri(f,0), EXACT()))
//@ anchor geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp ramer_douglas_peucker_algorithm
static PL ch(const FIG& f) { PL r; r.push_back(f.at(0,0)); r.push_back(f.at(2,1)); r.push_back(f.p(0)); r.push_back(f.at(6,-1)); r.push_back(f.at(8,0)); return r; }
HO(rdp, 1, 0, 5, { auto r = ramer_douglas_peucker_algorithm(ch(f), f.s); I[0] = r.size(); for (int i = 0; i < 5; ++i) X[i] = i < (int)r.size() ? (P2)r[i] : f.at(0,0); })
