#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
typedef polyline<P2> PL; typedef polygon<P2> PG;
static double tr(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static double dt(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[0]-b[0]) + (b[1]-a[1])*(c[1]-b[1]); }
template <class S> static void dump(double* o, const S& g, int n) { o[0] = g.size(); for (int i = 0; i < n; ++i) { o[1+2*i] = i < (int)g.size() ? get<0>(g[i]) : 0; o[2+2*i] = i < (int)g.size() ? get<1>(g[i]) : 0; } }
// chains with one moving corner
#define CHAIN(X, Y) P2 g[6] = {P2(0,0), P2(2,0), P2(X,Y), P2(6,0), P2(6,3), P2(9,3)};
#define RING(X, Y) P2 g[6] = {P2(0,0), P2(4,-2), P2(X,Y), P2(10,4), P2(4,7), P2(-2,4)};
#define KEEP(NAME, CALL, SH, X, Y, N, COND) LIB(void, NAME, double* o, double u, double v) { SH(X,Y) dump(o, CALL, 7); } \
REF(void, NAME, double* o, double u, double v) { SH(X,Y) std::vector<P2> r; for (int i = 0; i < 6; ++i) if (COND) r.push_back(g[i]); dump(o, r, 7); } \
PRE(NAME, double* o, double u, double v) { SH(X,Y) bool ok = true; for (int i = 0; i < N; ++i) { P2 a = g[i], b = g[(i+1)%6], c = g[(i+2)%6]; ok = ok & (a[0] != b[0] | a[1] != b[1]) & (tr(a,b,c) != 0 | dt(a,b,c) > 0); } return ok; }
#define LINE(n, X, Y) KEEP(rcl##n, remove_collinear_points_polyline(PL(g,g+6), EXACT()), CHAIN, X, Y, 4, i == 0 || i == 5 || tr(g[i-1],g[i],g[i+1]) != 0) \
 KEEP(cll##n, clean_polyline(PL(g,g+6), EXACT()), CHAIN, X, Y, 4, i == 0 || i == 5 || tr(g[i-1],g[i],g[i+1]) != 0)
#define POLY(n, X, Y) KEEP(rcp##n, remove_collinear_points_polygon(PG(g,g+6), EXACT()), RING, X, Y, 6, i == 0 || tr(g[i-1],g[i],g[(i+1)%6]) != 0) \
 KEEP(clp##n, clean_polygon(PG(g,g+6), EXACT()), RING, X, Y, 6, i == 0 || tr(g[i-1],g[i],g[(i+1)%6]) != 0) \
LIB(void, icp##n, int* o, double u, double v) { RING(X,Y) auto s = identify_collinear_points_polygon(PG(g,g+6), EXACT()); for (int i = 0; i < 6; ++i) o[i] = s.count(i) != 0; } \
REF(void, icp##n, int* o, double u, double v) { RING(X,Y) for (int i = 0; i < 6; ++i) o[i] = i != 0 && tr(g[i-1],g[i],g[(i+1)%6]) == 0; } \
PRE(icp##n, int* o, double u, double v) { SH_OK(X,Y) }
#define SH_OK(X, Y) RING(X,Y) bool ok = true; for (int i = 0; i < 6; ++i) { P2 a = g[i], b = g[(i+1)%6], c = g[(i+2)%6]; ok = ok & (a[0] != b[0] | a[1] != b[1]) & (tr(a,b,c) != 0 | dt(a,b,c) > 0); } return ok;
//@ anchor geometrix/algorithm/point_sequence/remove_collinear_points.hpp remove_collinear_points_polyline / clean_polyline
LINE(a, u, 0.) LINE(b, 4., u) LINE(c, 6., u) LINE(d, u, v)
//@ anchor geometrix/algorithm/point_sequence/remove_collinear_points.hpp remove_collinear_points_polygon / identify_collinear_points_polygon / clean_polygon
POLY(a, u, 1.) POLY(b, 7., u) POLY(c, u, -2.) POLY(d, u, v)
#define RUN(NAME, CALL, X, Y) KEEP(NAME, CALL, LAST, X, Y, 6, i == 0 || tr(g[i-1],g[i],g[(i+1)%6]) != 0)
// the last corners lie on the edge that closes the ring
#define LAST(X, Y) P2 g[6] = {P2(0,0), P2(8,0), P2(8,6), P2(0,6), P2(X,Y), P2(0,2)};
RUN(rlpa, remove_collinear_points_polygon(PG(g,g+6), EXACT()), 0., u) RUN(rlpb, remove_collinear_points_polygon(PG(g,g+6), EXACT()), u, v) RUN(clra, clean_polygon(PG(g,g+6), EXACT()), u, 4.)
LIB(void, icla, int* o, double u) { LAST(u,4.) auto s = identify_collinear_points_polygon(PG(g,g+6), EXACT()); for (int i = 0; i < 6; ++i) o[i] = s.count(i) != 0; }
REF(void, icla, int* o, double u) { LAST(u,4.) for (int i = 0; i < 6; ++i) o[i] = i != 0 && tr(g[i-1],g[i],g[(i+1)%6]) == 0; }
// coincident neighbours are merged into one
#define SAME(NAME, CALL, SH, X, Y, COND) LIB(void, NAME, double* o, double u, double v) { SH(X,Y) dump(o, CALL, 7); } \
REF(void, NAME, double* o, double u, double v) { SH(X,Y) std::vector<P2> r; for (int i = 0; i < 6; ++i) if (COND) r.push_back(g[i]); dump(o, r, 7); }
#define eq(a, b) (g[a][0] == g[b][0] && g[a][1] == g[b][1])
#define CHAI2(X, Y) P2 g[6] = {P2(2,0), P2(2,0), P2(X,Y), P2(6,0), P2(6,0), P2(9,3)};
#define RIN2(X, Y) P2 g[6] = {P2(2,0), P2(4,-2), P2(X,Y), P2(6,4), P2(6,4), P2(2,0)};
#define RIN3(X, Y) P2 g[6] = {P2(2,0), P2(4,-2), P2(5,-2), P2(6,4), P2(6,6), P2(X,Y)};
//@ anchor geometrix/algorithm/point_sequence/remove_collinear_points.hpp coalesce_adjacent_points_polyline / coalesce_adjacent_points_polygon / identify_adjacent_points_polygon
#define COA(n, X, Y) SAME(cal##n, coalesce_adjacent_points_polyline(PL(g,g+6), EXACT()), CHAI2, X, Y, i == 0 || !eq(i,i-1)) \
SAME(cap##n, coalesce_adjacent_points_polygon(PG(g,g+6), EXACT()), RIN2, X, Y, i == 0 || (!eq(i,i-1) && (i < 5 || !eq(i,0)))) SAME(caq##n, coalesce_adjacent_points_polygon(PG(g,g+6), EXACT()), RIN3, X, Y, i == 0 || (!eq(i,i-1) && (i < 5 || !eq(i,0)))) \
LIB(void, cai##n, int* o, double u, double v) { RIN3(X,Y) auto s = identify_adjacent_points_polygon(PG(g,g+6), EXACT()); for (int i = 0; i < 6; ++i) o[i] = s.count(i) != 0; } \
REF(void, cai##n, int* o, double u, double v) { RIN3(X,Y) for (int i = 0; i < 6; ++i) o[i] = !(i == 0 || (!eq(i,i-1) && (i < 5 || !eq(i,0)))); }
COA(a, u, 0.) COA(b, 6., u) COA(c, u, 4.) COA(d, u, v) COA(e, 2., u)
// where a point on a chain lies: length before it, length after it, number of its piece (the first that has it)
#define LC(n, X, Y) LIB(void, lch##n, double* o, double u, double v) { P2 g[4] = {P2(0,0), P2(8,0), P2(8,6), P2(0,6)}; auto r = point_on_polyline_length_characteristics(PL(g,g+4), P2(X,Y), EXACT()); o[0] = std::get<0>(r).value(); o[1] = std::get<1>(r).value(); o[2] = (int)std::get<2>(r).value(); } \
REF(void, lch##n, double* o, double u, double v) { double x = X, y = Y; if (y == 0 && x >= 0 && x <= 8) { o[0] = x; o[2] = 0; } else if (x == 8 && y >= 0 && y <= 6) { o[0] = 8+y; o[2] = 1; } else if (y == 6 && x >= 0 && x <= 8) { o[0] = 14+8-x; o[2] = 2; } else { o[0] = 22; o[1] = 0; o[2] = -1; return; } o[1] = 22 - o[0]; }
//@ anchor geometrix/algorithm/point_sequence/length.hpp point_on_polyline_length_characteristics
LC(a, u, 0.) LC(b, 8., u) LC(c, u, 6.) LC(d, u, u)
// the shortest rings and chains that are edited
#define KEP4(NAME, CALL, N, COND, SAFE, ...) LIB(void, NAME, double* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; dump(o, CALL, N+1); } \
REF(void, NAME, double* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; std::vector<P2> r; for (int i = 0; i < N; ++i) if (COND) r.push_back(g[i]); dump(o, r, N+1); } \
PRE(NAME, double* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; return SAFE; }
#define IDX4(NAME, CALL, N, COND, SAFE, ...) LIB(void, NAME, int* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; auto s = CALL; for (int i = 0; i < N; ++i) o[i] = s.count(i) != 0; } \
REF(void, NAME, int* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; for (int i = 0; i < N; ++i) o[i] = COND; } \
PRE(NAME, int* o, double u, double v) { P2 g[N] = {__VA_ARGS__}; return SAFE; }
#define FLAT(n, i, j, k) (tr(g[i],g[j],g[k]) == 0)
KEP4(rc4a, remove_collinear_points_polygon(PG(g,g+4), EXACT()), 4, i == 0 || !FLAT(4,(i+3)%4,i,(i+1)%4), (u > 0) & (u < 8), P2(0,0), P2(8,0), P2(8-u,v > 0 ? v : u), P2(0,8))
KEP4(rc4b, remove_collinear_points_polygon(PG(g,g+4), EXACT()), 4, i == 0 || !FLAT(4,(i+3)%4,i,(i+1)%4), (u > 0) & (u < 8), P2(0,0), P2(u,v > 0 ? v : 0.), P2(8,0), P2(0,8))
IDX4(ic4a, identify_collinear_points_polygon(PG(g,g+4), EXACT()), 4, !(i == 0 || !FLAT(4,(i+3)%4,i,(i+1)%4)), (u > 0) & (u < 8), P2(0,0), P2(8,0), P2(8-u,v > 0 ? v : u), P2(0,8))
KEP4(rc3a, remove_collinear_points_polygon(PG(g,g+3), EXACT()), 3, true, true, P2(0,0), P2(8,0), P2(u,v))
KEP4(rl3a, remove_collinear_points_polyline(PL(g,g+3), EXACT()), 3, i != 1 || !FLAT(3,0,1,2), (u > 0) & (u < 8), P2(0,0), P2(u,v), P2(8,4))
KEP4(cp4a, coalesce_adjacent_points_polygon(PG(g,g+4), EXACT()), 4, i == 0 || (!eq(i,i-1) && (i < 3 || !eq(i,0))), true, P2(0,0), P2(8,0), P2(u,v), P2(0,8))
KEP4(cp4b, coalesce_adjacent_points_polygon(PG(g,g+4), EXACT()), 4, i == 0 || (!eq(i,i-1) && (i < 3 || !eq(i,0))), true, P2(0,0), P2(8,0), P2(8,8), P2(u,v))
IDX4(ci4a, identify_adjacent_points_polygon(PG(g,g+4), EXACT()), 4, !(i == 0 || (!eq(i,i-1) && (i < 3 || !eq(i,0)))), true, P2(0,0), P2(8,0), P2(u,v), P2(0,8))
IDX4(ci4b, identify_adjacent_points_polygon(PG(g,g+4), EXACT()), 4, !(i == 0 || (!eq(i,i-1) && (i < 3 || !eq(i,0)))), true, P2(0,0), P2(8,0), P2(8,8), P2(u,v))
KEP4(cl3a, coalesce_adjacent_points_polyline(PL(g,g+3), EXACT()), 3, i == 0 || !eq(i,i-1), true, P2(0,0), P2(u,v), P2(8,4))
