#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
// two bodies named in either order, and both carried along at one more velocity
typedef sphere<2,P2> C2; typedef sphere<3,P3> C3; typedef axis_aligned_bounding_box<P2> B2; typedef oriented_bounding_box<P2,V2> OB; typedef std::array<P2,3> T3; typedef std::array<P2,4> Q4;
#define EQ(n, X, Y) LIB(double, n, const double* a) { return X; } REF(double, n, const double* a) { return Y; }
#define EQO(n, X, Y) LIB(void, n, double* o, const double* a) { X } REF(void, n, double* o, const double* a) { Y }
static P2 p(const double* a, int i) { return P2(a[2*i], a[2*i+1]); } static V2 v(const double* a, int i) { return V2(a[2*i], a[2*i+1]); }
//@ anchor geometrix/algorithm/intersection/sphere_sphere_intersection.hpp sphere_sphere_intersection / circle_circle_intersection
EQ(sss, (int)sphere_sphere_intersection(C2(p(a,0), a[4]), C2(p(a,1), a[5]), EXACT()).State, (int)sphere_sphere_intersection(C2(p(a,1), a[5]), C2(p(a,0), a[4]), EXACT()).State)
EQ(ccs, (int)circle_circle_intersection(C2(p(a,0), a[4]), C2(p(a,1), a[5]), EXACT()).State, (int)circle_circle_intersection(C2(p(a,1), a[5]), C2(p(a,0), a[4]), EXACT()).State)
//@ anchor geometrix/algorithm/intersection/aabb_aabb_intersection.hpp aabb_aabb_intersection
EQ(aab, aabb_aabb_intersection(B2(p(a,0), p(a,1)), B2(p(a,2), p(a,3)), EXACT()), aabb_aabb_intersection(B2(p(a,2), p(a,3)), B2(p(a,0), p(a,1)), EXACT()))
//@ anchor geometrix/algorithm/intersection/obb_obb_intersection.hpp obb_obb_intersection
static OB bx(P2 c, double x, double y, double h, double w) { return OB(c, V2(x,y), V2(-y,x), h, w); }
EQ(obs, obb_obb_intersection(bx(P2(1,2),1,0,a[2],a[3]), bx(p(a,0),0.6,0.8,a[4],a[5]), EXACT()), obb_obb_intersection(bx(p(a,0),0.6,0.8,a[4],a[5]), bx(P2(1,2),1,0,a[2],a[3]), EXACT())) PRE(obs, const double* a) { return a[2] > 0 && a[3] > 0 && a[4] > 0 && a[5] > 0; }
EQ(obt, obb_obb_intersection(bx(P2(1,2),1,0,2,1), bx(p(a,0),0.6,0.8,3,1), EXACT()), obb_obb_intersection(OB(P2(1,2),V2(0,1),V2(-1,0),1,2), OB(p(a,0),V2(-0.6,-0.8),V2(0.8,-0.6),3,1), EXACT()))
//@ anchor geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp moving_sphere_sphere_intersection
static void mss(double* o, const C2& s, const C2& t, const V2& u, const V2& w) { double h = 0; P2 x(0,0); bool z = moving_sphere_sphere_intersection(s, t, u, w, h, x, EXACT()); o[0] = z; o[1] = z ? h : 0; }
EQO(msss, mss(o, C2(P2(0,0),a[6]), C2(p(a,0),a[7]), v(a,1), v(a,2));, mss(o, C2(p(a,0),a[7]), C2(P2(0,0),a[6]), v(a,2), v(a,1));)
EQO(mssg, mss(o, C2(P2(0,0),a[6]), C2(p(a,0),a[7]), v(a,1), V2(0,0));, mss(o, C2(P2(0,0),a[6]), C2(p(a,0),a[7]), V2(a[2]+a[8],a[3]+a[9]), V2(a[8],a[9]));)
//@ anchor geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp moving_obb_obb_intersection
static void mob(double* o, const OB& s, const V2& u, const OB& t, const V2& w) { double h = 0; double k = 0; bool z = moving_obb_obb_intersection(s, u, t, w, 5.0, h, k); o[0] = z; o[1] = z ? h : 0; o[2] = z ? k : 0; }
EQO(mobs, mob(o, bx(P2(0,0),1,0,2,1), V2(0,0), bx(p(a,0),1,0,1,3), V2(a[2],1));, mob(o, bx(p(a,0),1,0,1,3), V2(a[2],1), bx(P2(0,0),1,0,2,1), V2(0,0));) 
EQO(mobg, mob(o, bx(P2(0,0),1,0,2,1), V2(0,0), bx(p(a,0),1,0,1,3), V2(a[2],1));, mob(o, bx(P2(0,0),1,0,2,1), V2(a[3],a[4]), bx(p(a,0),1,0,1,3), V2(a[2]+a[3],1+a[4]));) 
//@ anchor geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp moving_convex_polygons_intersection
static T3 tri(const double* a) { T3 r = {p(a,0), P2(a[0]+1,a[1]), P2(a[0],a[1]+1)}; return r; } static Q4 box() { Q4 r = {P2(0,0),P2(4,0),P2(4,2),P2(0,2)}; return r; }
template <typename A, typename B> static void mcp(double* o, const A& s, const V2& u, const B& t, const V2& w) { double h = 0; double k = 0; bool z = moving_convex_polygons_intersection(s, u, t, w, 9.0, h, k, EXACT()); o[0] = z; o[1] = z ? h : 0; o[2] = z ? k : 0; }
EQO(mcps, mcp(o, box(), V2(0,0), tri(a), V2(-1,2));, mcp(o, tri(a), V2(-1,2), box(), V2(0,0));)
EQO(mcpg, mcp(o, box(), V2(0,0), tri(a), V2(-1,2));, mcp(o, box(), V2(a[2],a[3]), tri(a), V2(a[2]-1,a[3]+2));)
//@ anchor geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp moving_sphere_segment_intersection
static void msg(double* o, const C2& s, const V2& u, const S2& g) { double h = 0; P2 x(0,0); auto z = moving_sphere_segment_intersection(s, u, g, h, x, EXACT()); o[0] = z.is_intersecting(); o[1] = o[0] != 0 ? h : 0; }
EQO(msge, msg(o, C2(p(a,0),1.0), v(a,1), S2(P2(0,0),P2(2,0)));, msg(o, C2(p(a,0),1.0), v(a,1), S2(P2(2,0),P2(0,0)));)
