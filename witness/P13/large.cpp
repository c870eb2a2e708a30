#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <array>
// Fixed shapes of eight corners whose edges alternate near and far; the query moves freely along a line, so every run of
// "nearer / farther" among the edges that the shape admits is decided, and no edge can be skipped, wrapped wrongly or forgotten.
typedef std::array<P2,8> A8;
static A8 comb() { A8 a = {P2(0,0), P2(64,0), P2(64,-8), P2(4,-2), P2(60,-16), P2(2,-24), P2(-32,-20), P2(-4,-1)}; return a; }
static A8 star() { A8 a = {P2(16,0), P2(4,4), P2(0,16), P2(-4,4), P2(-16,0), P2(-4,-4), P2(0,-16), P2(4,-4)}; return a; }
static double sq1(double x) { return x*x; }
// squared distance from (x,y) to the segment a-b, written out
static double e2(double x, double y, const P2& a, const P2& b) { double dx = b[0]-a[0], dy = b[1]-a[1], l = dx*dx+dy*dy, s = (x-a[0])*dx + (y-a[1])*dy;
  if (s <= 0) return sq1(x-a[0]) + sq1(y-a[1]); if (s >= l) return sq1(x-b[0]) + sq1(y-b[1]); double c = (x-a[0])*dy - (y-a[1])*dx; return c*c/l; }
static double all(double x, double y, const A8& g, bool closed) { double m = e2(x, y, g[0], g[1]); for (int i = 1; i < (closed ? 8 : 7); ++i) { double d = e2(x, y, g[i], g[(i+1)&7]); m = d < m ? d : m; } return m; }
#define LN(n, SHAPE, X, Y) \
LIB(double, pg##n, double t) { return point_polygon_distance_sqrd(P2(X,Y), SHAPE()); } REF(double, pg##n, double t) { return all(X, Y, SHAPE(), true); } \
LIB(double, pr##n, double t) { auto d = point_polygon_distance(P2(X,Y), SHAPE()); return d*d; } REF(double, pr##n, double t) { return all(X, Y, SHAPE(), true); } \
LIB(double, pl##n, double t) { return point_polyline_distance_sqrd(P2(X,Y), SHAPE()); } REF(double, pl##n, double t) { return all(X, Y, SHAPE(), false); } \
LIB(double, gc##n, double t) { auto q = point_polygon_closest_point(P2(X,Y), SHAPE()); return sq1(q[0]-(X)) + sq1(q[1]-(Y)); } REF(double, gc##n, double t) { return all(X, Y, SHAPE(), true); } \
LIB(double, lc##n, double t) { auto q = point_polyline_closest_point(P2(X,Y), SHAPE()); return sq1(q[0]-(X)) + sq1(q[1]-(Y)); } REF(double, lc##n, double t) { return all(X, Y, SHAPE(), false); }
//@ anchor geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance, point_polyline_distance and closest points on eight-cornered shapes
LN(0, comb, t, 4.) LN(1, comb, t, -12.) LN(2, comb, 3., t) LN(3, comb, -8., t) LN(5, star, t, 12.) LN(6, star, t, t) LN(7, star, t, -2.*t)
LN(8, comb, t, -3.) LN(9, comb, 20., t) LN(a, comb, t, -.25*t) LN(b, comb, 40., t) LN(c, comb, -3., t)
// here the edge distance is the library's own segment-segment distance, which P12 decides
typedef std::array<P2,5> A5;
static A5 zig() { A5 a = {P2(0,0), P2(64,0), P2(64,-8), P2(4,-2), P2(60,-16)}; return a; }
static A5 hook() { A5 a = {P2(-8,0), P2(0,4), P2(8,0), P2(2,-24), P2(-2,-1)}; return a; }
static double s2(const P2& a, const P2& b, const P2& c, const P2& d) { return segment_segment_distance_sqrd(a, b, c, d, EXACT()); }
static double alls(const P2& a, const P2& b, const A5& g, bool closed) { double m = s2(a, b, g[0], g[1]); for (int i = 1; i < (closed ? 5 : 4); ++i) { double d = s2(a, b, g[i], g[(i+1)%5]); m = d < m ? d : m; } return m; }
#define SG(n, SHAPE, X, Y, U, W) LIB(double, sg##n, double t) { return segment_polygon_distance_sqrd(P2(X,Y), P2((X)+(U),(Y)+(W)), SHAPE(), EXACT()); } REF(double, sg##n, double t) { return alls(P2(X,Y), P2((X)+(U),(Y)+(W)), SHAPE(), true); }
#define SL(n, SHAPE, X, Y, U, W) LIB(double, sl##n, double t) { return segment_polyline_distance_sqrd(P2(X,Y), P2((X)+(U),(Y)+(W)), SHAPE(), EXACT()); } REF(double, sl##n, double t) { return alls(P2(X,Y), P2((X)+(U),(Y)+(W)), SHAPE(), false); }
//@ anchor geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance and segment_polyline_distance on five-cornered shapes
SG(0, zig, t, 4., 3., 0.) SG(5, zig, -8., t, 0., 1.) SG(3, hook, -8., t, 0., 1.) SG(6, hook, t, 12., 3., 0.) SG(7, zig, t, -32., 3., 0.)
SL(0, zig, t, 4., 3., 0.) SL(1, zig, t, -12., 4., -3.) SL(2, zig, 3., t, 4., 3.) SL(3, hook, -8., t, 0., 1.) SL(4, hook, t, 12., 4., 3.)
