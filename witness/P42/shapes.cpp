//@ flags -fno-builtin
#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
// the same shape listed from another corner, in the other direction, or held in another container
typedef polygon<P2> PG; typedef polyline<P2> PL;
static P2 p(const double* a, int i) { return P2(a[2*i], a[2*i+1]); }
template <typename S> static S seq(const double* a, int n, int o = 0, int k = 0, bool r = false) { S s; for (int i = 0; i < n; ++i) { int j = (i+k)%n; s.push_back(p(a, o+(r ? n-1-j : j))); } return s; }
#define PGN(n,o) seq<PG>(a,n,o)
#define ROT(n,o,k) seq<PG>(a,n,o,k)
#define REV(n,o) seq<PG>(a,n,o,0,true)
#define EQ(n, X, Y) LIB(double, n, const double* a) { return X; } REF(double, n, const double* a) { return Y; }
#define EQO(n, X, Y) LIB(void, n, double* o, const double* a) { X } REF(void, n, double* o, const double* a) { Y }
static void put(double* o, const P2& x) { o[0] = x[0]; o[1] = x[1]; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_area
EQ(area, get_area(PGN(4,0)), get_area(ROT(4,0,1)))
EQ(arear, get_area(PGN(4,0)), get_area(REV(4,0)))
EQ(sarea, get_signed_area(PGN(5,0)), get_signed_area(ROT(5,0,3)))
EQ(sarear, get_signed_area(PGN(5,0)), -get_signed_area(REV(5,0)))
EQO(cen, put(o, get_centroid(PGN(4,0)));, put(o, get_centroid(ROT(4,0,1)));)
EQO(cenr, put(o, get_centroid(PGN(4,0)));, put(o, get_centroid(REV(4,0)));)
EQ(std, get_signed_area(PGN(4,0)), get_signed_area(std::vector<P2>{p(a,0),p(a,1),p(a,2),p(a,3)}))
//@ anchor geometrix/algorithm/point_sequence/length.hpp polyline_length
EQ(len, polyline_length(seq<PL>(a,4)), polyline_length(seq<PL>(a,4,0,0,true)))
EQ(per, polygon_length(PGN(4,0)), polygon_length(ROT(4,0,1)))
EQ(perr, polygon_length(PGN(4,0)), polygon_length(REV(4,0)))
//@ anchor geometrix/algorithm/point_sequence/polyline_mid_point.hpp polyline_mid_point
static PL bend(const double* a, bool r) { P2 x(0,0), y(3,4), z(a[0],4); PL s; s.push_back(r ? z : x); s.push_back(y); s.push_back(r ? x : z); return s; }
EQO(mid, put(o, polyline_mid_point(bend(a,false)));, put(o, polyline_mid_point(bend(a,true)));) PRE(mid, double* o, const double* a) { return a[0] > 3 && a[0] < 30; }
EQO(midl, put(o, polyline_mid_point(bend(a,false)));, put(o, polyline_mid_point(bend(a,true)));) PRE(midl, double* o, const double* a) { return a[0] > -30 && a[0] < 3; }
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon
EQ(pip, point_in_polygon(p(a,0), PGN(4,1)), point_in_polygon(p(a,0), ROT(4,1,1)))
EQ(pipr, point_in_polygon(p(a,0), PGN(4,1)), point_in_polygon(p(a,0), REV(4,1)))
EQ(ptri, point_in_triangle(p(a,0), p(a,1), p(a,2), p(a,3), EXACT()), point_in_triangle(p(a,0), p(a,2), p(a,3), p(a,1), EXACT()))
//@ anchor geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance
static const double TRI[6] = {0,0, 5,1, 2,4};
static const double HEX[12] = {0,0, 6,-1, 9,4, 4,3, 5,8, -1,5}, FAR[6] = {12,1, 15,2, 11,6}, SQ[8] = {0,0, 4,0, 4,2, 0,2};
template <typename S> static S hex(const double* a, int k, int s = 0, bool rev = false) { S r; for (int i = 0; i < 6; ++i) { int j = (i+s)%6; if (rev) j = 5-j; r.push_back(j == k ? p(a,0) : P2(HEX[2*j], HEX[2*j+1])); } return r; }
//@ anchor geometrix/algorithm/point_sequence/is_polygon_simple.hpp is_polygon_simple
EQ(simr, is_polygon_simple(hex<PG>(a,3), EXACT()), is_polygon_simple(hex<PG>(a,3,2), EXACT()))
EQ(simv, is_polygon_simple(hex<PG>(a,3), EXACT()), is_polygon_simple(hex<PG>(a,3,0,true), EXACT()))
//@ anchor geometrix/algorithm/distance/polygon_polygon_distance.hpp polygon_polygon_distance
#define AT const double u[2] = {x,-1}; const double* a = u;
#define EX(n, X, Y) LIB(double, n, double x) { AT return X; } REF(double, n, double x) { AT return Y; } PRE(n, double x) { return x > -4 && x < 10; }
EX(ppd, sq(point_polygon_distance(P2(x,2), seq<PG>(TRI,3))), sq(point_polygon_distance(P2(x,2), seq<PG>(TRI,3,0,1,true))))
EX(pld, sq(point_polyline_distance(P2(x,2), seq<PL>(TRI,3))), sq(point_polyline_distance(P2(x,2), seq<PL>(TRI,3,0,0,true))))
static PG three(double x) { PG r; r.push_back(P2(0,0)); r.push_back(P2(x,-1)); r.push_back(P2(5,8)); return r; } static PG three2(double x) { PG r; r.push_back(P2(5,8)); r.push_back(P2(x,-1)); r.push_back(P2(0,0)); return r; }
static PL open3(double x) { PL r; r.push_back(P2(0,0)); r.push_back(P2(x,-1)); r.push_back(P2(5,8)); return r; } static PL open32(double x) { PL r; r.push_back(P2(5,8)); r.push_back(P2(x,-1)); r.push_back(P2(0,0)); return r; }
EX(pgg, polygon_polygon_distance(three(x), seq<PG>(FAR,3), EXACT()), polygon_polygon_distance(seq<PG>(FAR,3), three2(x), EXACT()))
EX(pll, polyline_polyline_distance(open3(x), seq<PL>(FAR,3), EXACT()), polyline_polyline_distance(seq<PL>(FAR,3), open32(x), EXACT()))
//@ anchor geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp convex_polygons_intersection
typedef std::array<P2,3> T3; typedef std::array<P2,4> Q4;
static T3 tri(const double* a, int k) { T3 r = {p(a,0), P2(a[0]+2,a[1]+1), P2(a[0],a[1]+3)}; T3 s = {r[k], r[(k+1)%3], r[(k+2)%3]}; return s; }
static Q4 box(int k) { Q4 r; for (int i = 0; i < 4; ++i) r[i] = p(SQ,(i+k)%4); return r; }
EQ(sats, convex_polygons_intersection(box(0), tri(a,0), EXACT()), convex_polygons_intersection(tri(a,0), box(0), EXACT()))
EQ(satr, convex_polygons_intersection(box(0), tri(a,0), EXACT()), convex_polygons_intersection(box(3), tri(a,2), EXACT()))
//@ anchor geometrix/primitive/point_sequence_utilities.hpp clean_polygon
static bool has(const PG& g, const P2& x) { bool r = false; for (auto const& y : g) r = r || (y[0] == x[0] && y[1] == x[1]); return r; }
static void kept(double* o, const PG& g, const double* a) { o[0] = (double)g.size(); for (int i = 0; i < 6; ++i) o[1+i] = has(g, i == 3 ? p(a,0) : p(HEX,i)); }
EQO(cleanr, kept(o, clean_polygon(hex<PG>(a,3), EXACT()), a);, kept(o, clean_polygon(hex<PG>(a,3,5), EXACT()), a);)
//@ anchor geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp ramer_douglas_peucker_algorithm
static PL ch(const double* a, bool rev) { P2 r[5] = {P2(0,0), P2(2,1), p(a,0), P2(6,-1), P2(8,0)}; PL s; for (int i = 0; i < 5; ++i) s.push_back(r[rev ? 4-i : i]); return s; }
static void pts(double* o, const PL& s, bool rev) { int n = (int)s.size(); o[0] = n; for (int i = 0; i < 5; ++i) if (i < n) put(o+1+2*i, s[rev ? n-1-i : i]); else put(o+1+2*i, P2(0,0)); }
EQO(rdp, pts(o, ramer_douglas_peucker_algorithm(ch(a,false), 1.5), false);, pts(o, ramer_douglas_peucker_algorithm(ch(a,true), 1.5), true);)
//@ anchor geometrix/algorithm/point_sequence/polyline_offset.hpp polyline_offset
static void pts6(double* o, const PL& s, bool rev) { int n = (int)s.size(); o[0] = n; for (int i = 0; i < 6; ++i) if (i < n) put(o+1+2*i, s[rev ? n-1-i : i]); else put(o+1+2*i, P2(0,0)); }
EQO(off, pts6(o, polyline_offset(hex<PL>(a,3), oriented_left, 0.5, EXACT()), false);, pts6(o, polyline_offset(hex<PL>(a,3,0,true), oriented_right, 0.5, EXACT()), true);) PRE(off, double* o, const double* a) { return turn(6,-1,9,4,a[0],a[1]) != 0 && turn(9,4,a[0],a[1],5,8) != 0 && turn(a[0],a[1],5,8,-1,5) != 0; }
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp polyline_signed_curvature_at_index
EQ(kap, polyline_signed_curvature_at_index(seq<PL>(a,3), 1), -polyline_signed_curvature_at_index(seq<PL>(a,3,0,0,true), 1))
