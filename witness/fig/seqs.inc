#include <boost/mpl/bool.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include "fig/fig.hpp"
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef sphere<2,P2> C2; typedef axis_aligned_bounding_box<P2> B2; typedef oriented_bounding_box<P2,V2> OB; typedef std::size_t U;
static const double HX[12] = {0,0, 6,-1, 9,4, 4,3, 5,8, -1,5}, ZG[10] = {0,0, 3,4, 8,4, 8,9, 14,1}, FR[6] = {12,1, 15,2, 11,6}, ROOM[16] = {0,0, 10,0, 10,6, 6,6, 6,3, 4,3, 4,6, 0,6};
// the first n listed corners, the k-th replaced by the moving point
template <typename S> static S sh(const FIG& f, const double* c, int n, int k) { S r; for (int i = 0; i < n; ++i) r.push_back(i == k ? f.p(0) : f.at(c[2*i], c[2*i+1])); return r; }
template <int N> static std::array<P2,N> arr(const FIG& f, const double* c, int k) { std::array<P2,N> r; for (int i = 0; i < N; ++i) r[i] = i == k ? f.p(0) : f.at(c[2*i], c[2*i+1]); return r; }
template <typename S> static void out(double* I, P2* X, const FIG& f, const S& r, int n) { I[0] = r.size(); for (int i = 0; i < n; ++i) X[i] = i < (int)r.size() ? (P2)r[i] : f.at(0,0); }
//@ anchor geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance
H(sgd, 2, segment_polygon_distance_sqrd(f.at(-2,-3), f.p(0), arr<3>(f,HX,9), EXACT()))
H(sgr, 1, segment_polygon_distance(S2(f.at(-2,-3), f.p(0)), arr<3>(f,HX,9), EXACT()))
H(sld, 2, segment_polyline_distance_sqrd(f.at(-2,-3), f.p(0), arr<3>(f,HX,9), EXACT()))
//@ anchor geometrix/algorithm/distance/polyline_polyline_distance.hpp polyline_polyline_distance
H(lld, 2, polyline_polyline_distance_sqrd(arr<3>(f,FR,0), arr<2>(f,HX,9), EXACT()))
//@ anchor geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp polygon_polygon_containment
template <typename S> static S slid(const FIG& f) { S r; r.push_back(f.at(f.a[0],1)); r.push_back(f.at(3,2)); r.push_back(f.at(1,5)); return r; }
A(pgc, 0, polygon_polygon_containment(slid<PG>(f), sh<PG>(f,ROOM,8,9), EXACT()))
A(plc, 0, polygon_polyline_containment(slid<PL>(f), sh<PG>(f,ROOM,8,9), EXACT()))
//@ anchor geometrix/algorithm/point_sequence/polyline_split.hpp polyline_split
HO(spl, 2, 0, 10, { auto r = polyline_split(sh<PL>(f,ZG,5,4), f.s*7); out(I, X, f, std::get<0>(r), 5); out(I+1, X+5, f, std::get<1>(r), 5); })
HO(pos, 1, 0, 1, { auto r = polyline_point_at_position(sh<PL>(f,ZG,5,2), f.s*9); I[0] = std::get<0>(r); if (std::get<1>(r)) X[0] = *std::get<1>(r); else H = false; })
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp clip_polyline_ends
HO(clf, 1, 0, 5, { out(I, X, f, clip_polyline_front(sh<PL>(f,ZG,5,2), f.s*7, EXACT()), 5); })
HO(clb, 1, 0, 5, { out(I, X, f, clip_polyline_back(sh<PL>(f,ZG,5,2), f.s*7, EXACT()), 5); })
HO(cle, 1, 0, 5, { out(I, X, f, clip_polyline_ends(sh<PL>(f,ZG,5,4), f.s*2, EXACT()), 5); })
HO(lns, 1, 4, 0, { auto v = polyline_segment_lengths(sh<PL>(f,ZG,5,2)); I[0] = v.size(); for (int i = 0; i < 4; ++i) J[i] = v[i]; })
//@ anchor geometrix/algorithm/split_segment.hpp split_segment
HO(sps, 1, 0, 3, { auto v = split_segment(S2(f.at(0,0), f.at(6,8)), f.s*3); I[0] = v.size(); X[0] = v[0].get_start(); X[1] = v[0].get_end(); X[2] = v.back().get_end(); })
//@ anchor geometrix/algorithm/point_sequence/find_subsequence.hpp find_closest_polygon_border_segment / polygon_subsequence
H(fcl, 0, (int)find_closest_polygon_border_segment(arr<4>(f,HX,9), f.p(0)))
A(fco, 0, (int)find_containing_or_closest_polygon_border_segment(arr<4>(f,HX,9), f.p(0), EXACT()))
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp inflection_points
HO(inf, 6, 0, 0, { auto r = inflection_points(sh<PL>(f,ZG,5,2)); I[0] = r.size(); for (int i = 0; i < 5; ++i) I[1+i] = i < (int)r.size() ? (int)r[i] : -1; })
H(ktt, 0, polyline_total_curvature(sh<PL>(f,ZG,4,2)))
H(kta, 0, polyline_total_absolute_curvature(sh<PL>(f,ZG,4,2)))
//@ anchor geometrix/algorithm/point_sequence/self_intersection.hpp polyline_self_intersection
HO(slf, 37, 0, 0, { I[36] = polyline_self_intersection(sh<PL>(f,HX,6,3), [&](U i, U j, intersection_type, P2, P2) { I[6*i+j]++; }, EXACT()); })
//@ anchor geometrix/algorithm/intersection/segment_polyline_intersection.hpp segment_polyline_intersect / polyline_polyline_intersect / sphere_polyline_intersect
HO(sgl, 6, 0, 0, { I[5] = segment_polyline_intersect(f.at(0,3), f.p(0), arr<5>(f,ZG,9), [&](intersection_type, U i, U j, const P2&, const P2&) { I[i]++; return false; }, EXACT()); })
HO(lpl, 13, 0, 0, { I[12] = polyline_polyline_intersect(arr<3>(f,FR,0), arr<5>(f,ZG,9), [&](intersection_type, U i, U j, U k, U l, const P2&, const P2&) { I[4*i+k]++; return false; }, EXACT()); })
HO(cpl, 6, 0, 0, { I[5] = sphere_polyline_intersect(C2(f.p(0), f.s*2), arr<5>(f,ZG,9), [&](segment_sphere_intersection_result, U i, U j, double, const P2&, double, const P2&) { I[i]++; return false; }, EXACT()); })
//@ anchor geometrix/algorithm/intersection/segment_triangle_intersection.hpp segment_triangle_intersect
H(stb, 0, segment_triangle_intersect(f.at(1,3), f.p(0), f.at(0,0), f.at(8,2), f.at(2,6)))
//@ anchor geometrix/algorithm/intersection/aabb_aabb_intersection.hpp aabb_aabb_intersection
A(aab, 0, aabb_aabb_intersection(B2(f.at(0,0), f.at(4,2)), B2(f.p(0), f.p(1)), EXACT()))
A(sab, 0, sphere_aabb_intersection(C2(f.p(0), f.l(4)), B2(f.at(0,0), f.at(4,2))))
// its guard against nearly parallel segments is an absolute length
M(sgb, 0, segment_aabb_intersection(f.at(1,-1), f.p(0), B2(f.at(0,0), f.at(4,2))))
A(pgb, 0, polygon_aabb_intersection(arr<3>(f,HX,2), B2(f.at(0,0), f.at(4,2))))
A(plb, 0, polyline_aabb_intersection(arr<3>(f,HX,2), B2(f.at(0,0), f.at(4,2))))
//@ anchor geometrix/algorithm/intersection/obb_obb_intersection.hpp obb_obb_intersection / sphere_obb_intersection
H(obb, 0, obb_obb_intersection(OB(f.at(0,0), f.dir(1,0), f.dir(0,1), f.s*2, f.s*1), OB(f.p(0), f.dir(0.28,0.96), f.dir(-0.96,0.28), f.s*3, f.s*1), EXACT()))
H(sob, 0, sphere_obb_intersection(C2(f.p(0), f.s*2), OB(f.at(0,0), f.dir(1,0), f.dir(0,1), f.s*2, f.s*1)))
//@ anchor geometrix/algorithm/cohen_sutherland_line_clipping.hpp cohen_sutherland_line_clip
AO(csc, 1, 0, 2, { P2 a = f.at(0,0), b = f.p(0), l = f.at(-1,-3), h = f.at(2,1); double x0 = a[0], y0 = a[1], x1 = b[0], y1 = b[1]; bool r = cohen_sutherland_line_clip(x0, y0, x1, y1, l[0], h[0], l[1], h[1], EXACT()); I[0] = r; if (r) { X[0] = P2(x0,y0); X[1] = P2(x1,y1); } else H = false; })
//@ anchor geometrix/algorithm/grid_traits.hpp grid_traits
static grid_traits<double> gr(const FIG& f) { P2 a = f.at(-1,-2), b = f.at(7,6); return grid_traits<double>(a[0], b[0], a[1], b[1], f.s*2); }
AO(gix, 3, 0, 0, { auto g = gr(f); P2 p = f.p(0); bool in = g.is_contained(p); I[0] = in; if (in) { I[1] = g.get_x_index(p[0]); I[2] = g.get_y_index(p[1]); } })
AO(gcc, 0, 0, 2, { auto g = gr(f); X[0] = g.get_cell_centroid(2, 1); X[1] = g.get_cell_corner1(2, 1); })
//@ anchor geometrix/algorithm/fast_voxel_grid_traversal.hpp fast_voxel_grid_traversal
AO(vox, 4, 0, 0, { auto g = gr(f); double u = f.a[0]; if (u > -1 && u < 7) fast_voxel_grid_traversal(g, S2(f.at(0,0.5), f.at(u,5)), [&](unsigned i, unsigned j) { I[0]++; I[1] += i; I[2] += j; I[3] += I[0]*(i+4*j); }, EXACT()); })
