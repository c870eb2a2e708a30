#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
static double tr(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static bool on(const P2& a, const P2& b, const P2& p) { return tr(a,b,p) == 0 && (p[0]-a[0])*(p[0]-b[0]) <= 0 && (p[1]-a[1])*(p[1]-b[1]) <= 0; }
static bool meet(const P2& a, const P2& b, const P2& c, const P2& d) { double p = tr(a,b,c), q = tr(a,b,d), r = tr(c,d,a), s = tr(c,d,b);
  return (((p < 0 && q > 0) || (p > 0 && q < 0)) && ((r < 0 && s > 0) || (r > 0 && s < 0))) || on(a,b,c) || on(a,b,d) || on(c,d,a) || on(c,d,b); }
// the corners of a 7-sided closed chain with corner 3 at (X, Y)
#define SHAPE(X, Y) P2 g[7] = {P2(0,0), P2(6,0), P2(6,5), P2(X,Y), P2(2,5), P2(2,2), P2(0,4)};
#define SIM(n, X, Y) LIB(bool, sim##n, double u, double v) { SHAPE(X,Y) polygon<P2> p(g, g+7); return is_polygon_simple(p, EXACT()); } \
LIB(bool, smm##n, double u, double v) { SHAPE(X,Y) polygon<P2> p(g, g+7); return is_polygon_simple_memoized(p, EXACT()); } \
LIB(bool, smh##n, double u, double v) { SHAPE(X,Y) polygon<P2> p(g, g+7); return is_polygon_with_holes_simple(polygon_with_holes<P2>(p), EXACT()); } \
static bool ref##n(double u, double v) { SHAPE(X,Y) bool r = true; for (int i = 0; i < 7; ++i) for (int j = i+2; j < 7; ++j) if (!(i == 0 && j == 6)) r = r && !meet(g[i], g[(i+1)%7], g[j], g[(j+1)%7]); return r; } \
REF(bool, sim##n, double u, double v) { return ref##n(u,v); } REF(bool, smm##n, double u, double v) { return ref##n(u,v); } REF(bool, smh##n, double u, double v) { return ref##n(u,v); }
//@ anchor geometrix/algorithm/point_sequence/is_polygon_simple.hpp is_polygon_simple / is_polygon_simple_memoized / is_polygon_with_holes_simple
SIM(a, u, 1.) SIM(b, u, 3.) SIM(c, 4., u) SIM(d, u, 6.) SIM(e, 1., u) SIM(f, u, u) SIM(g, u, 0.) SIM(h, -1., u) SIM(i, 6., u)
// every self meeting of a chain is reported once, with the numbers of the two pieces, and nothing else is
#define SELF(n, X, Y) LIB(void, slf##n, int* o, double u, double v) { SHAPE(X,Y) polyline<P2> p(g, g+7); for (int i = 0; i < 37; ++i) o[i] = 0; o[36] = polyline_self_intersection(p, [&](std::size_t i, std::size_t j, intersection_type, P2, P2) { o[6*i+j]++; }, EXACT()); } \
REF(void, slf##n, int* o, double u, double v) { SHAPE(X,Y) int r = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { bool m = j > i + 1 && meet(g[i],g[i+1],g[j],g[j+1]); if (j == i+1) m = tr(g[i],g[i+1],g[i+2]) == 0 && (g[i][0]-g[i+1][0])*(g[i+2][0]-g[i+1][0]) + (g[i][1]-g[i+1][1])*(g[i+2][1]-g[i+1][1]) > 0; o[6*i+j] = m; if (m) r = 1; } o[36] = r; }
//@ anchor geometrix/algorithm/point_sequence/self_intersection.hpp polyline_self_intersection
SELF(a, u, 1.) SELF(b, u, 3.) SELF(c, 4., u) SELF(d, u, 5.) SELF(e, 1., u) SELF(f, u, u) SELF(g, u, 0.) SELF(h, 6., u)
// the side of a chain a point lies on: that of the nearest piece; nearest a corner, the outer side of that corner; beyond an end, that of the end piece's line
static int sgn3(double t) { return t > 0 ? oriented_left : t < 0 ? oriented_right : oriented_collinear; }
static const double CH[12] = {0,0, 6,0, 6,5, 10,5, 14,9, 16,11};
#define ORI(n, X, Y) LIB(int, ori##n, double u, double v) { polyline<P2> p; for (int i = 0; i < 6; ++i) p.push_back(P2(CH[2*i],CH[2*i+1])); return point_polyline_orientation(P2(X,Y), p, EXACT()); } \
REF(int, ori##n, double u, double v) { P2 g[6]; for (int i = 0; i < 6; ++i) g[i] = P2(CH[2*i],CH[2*i+1]); P2 p(X,Y); double m = 0; int at = 0, side = 0; for (int i = 0; i < 5; ++i) { double dx = g[i+1][0]-g[i][0], dy = g[i+1][1]-g[i][1], l = dx*dx+dy*dy, t = (p[0]-g[i][0])*dx + (p[1]-g[i][1])*dy, c = tr(g[i],g[i+1],p); \
  double d = t <= 0 ? sq(p[0]-g[i][0]) + sq(p[1]-g[i][1]) : t >= l ? sq(p[0]-g[i+1][0]) + sq(p[1]-g[i+1][1]) : c*c/l; int s = sgn3(c); \
  if (t <= 0 && i > 0) { double k = tr(g[i-1],g[i],g[i+1]); if (k != 0) s = k > 0 ? oriented_right : oriented_left; } if (t >= l && i < 4) { double k = tr(g[i],g[i+1],g[i+2]); if (k != 0) s = k > 0 ? oriented_right : oriented_left; } \
  if (d == 0) s = oriented_collinear; if (i == 0 || d < m) { m = d; side = s; } } return side; }
//@ anchor geometrix/algorithm/point_sequence/point_polyline_orientation.hpp point_polyline_orientation
ORI(a, u, 1.) ORI(b, u, 6.) ORI(c, u, -1.) ORI(d, 5., u) ORI(e, 7., u) ORI(f, u, 5.) ORI(g, u, u) ORI(h, 12., u) ORI(i, -1., u) ORI(j, u, 0.) ORI(k, 17., u) ORI(l, 6., u)
// the shortest chains: two points never meet themselves, three only by folding back, four by the last piece meeting the first
LIB(int, slw2, double u, double v) { P2 g[2] = {P2(0,0),P2(u,v)}; polyline<P2> p(g,g+2); int k = 0; bool r = polyline_self_intersection(p, [&](std::size_t, std::size_t, intersection_type, P2, P2) { ++k; }, EXACT()); return 10*k + r; } REF(int, slw2, double u, double v) { return 0; }
LIB(int, slw3, double u, double v) { P2 g[3] = {P2(0,0),P2(4,0),P2(u,v)}; polyline<P2> p(g,g+3); int k = 0; bool r = polyline_self_intersection(p, [&](std::size_t, std::size_t, intersection_type, P2, P2) { ++k; }, EXACT()); return 10*k + r; }
REF(int, slw3, double u, double v) { return v == 0 && u < 4 ? 11 : 0; } PRE(slw3, double u, double v) { return (v != 0) | (u != 4); }
LIB(int, slw4, double u) { P2 g[4] = {P2(0,0),P2(6,0),P2(u,4),P2(u,-4)}; polyline<P2> p(g,g+4); int k = 0; bool r = polyline_self_intersection(p, [&](std::size_t i, std::size_t j, intersection_type, P2, P2) { k += 1 + 2*i + 5*j; }, EXACT()); return 100*k + r; }
REF(int, slw4, double u) { return u >= 0 && u < 6 ? 1101 : 0; } PRE(slw4, double u) { return u != 6; }
// a polygon with holes is simple when each of its rings is and no two of them meet
static polygon<P2> box4(double x, double y, double w, double h) { P2 g[4] = {P2(x,y),P2(x+w,y),P2(x+w,y+h),P2(x,y+h)}; return polygon<P2>(g, g+4); }
static polygon_with_holes<P2> cheese(const polygon<P2>& a, const polygon<P2>& b) { return polygon_with_holes<P2>(box4(0,0,20,12), {a, b}); }
#define CHZ(n, A, B, COND) LIB(bool, chz##n, double u) { return is_polygon_with_holes_simple(cheese(A, B), EXACT()); } REF(bool, chz##n, double u) { return COND; }
static polygon<P2> dart(double u) { P2 g[4] = {P2(3,3),P2(7,3),P2(7,7),P2(u,5)}; return polygon<P2>(g, g+4); }
//@ anchor geometrix/algorithm/point_sequence/is_polygon_simple.hpp is_polygon_with_holes_simple
CHZ(a, box4(3,3,4,4), box4(u,4,3,2), (u > 20 || u+3 < 20) && (u > 0 || u+3 < 0) && (u > 7 || u+3 < 3 || (u > 3 && u+3 < 7)))
CHZ(b, box4(u,4,3,2), box4(12,3,4,4), (u > 20 || u+3 < 20) && (u > 0 || u+3 < 0) && (u > 16 || u+3 < 12 || (u > 12 && u+3 < 16)))
CHZ(c, dart(u), box4(12,3,4,4), u > 0 && u < 7) CHZ(d, box4(12,3,4,4), dart(u), u > 0 && u < 7)
