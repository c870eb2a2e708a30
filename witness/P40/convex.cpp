#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <array>
// the common part of two convex polygons: its kind and the points handed to the visitor
typedef std::array<P2,4> Q4; typedef std::array<P2,3> T3; typedef std::array<P2,5> F5;
struct Vis { double* o; int* k; void operator()(const P2& p) const { if (*k < 9) { o[2+2**k] = get<0>(p); o[3+2**k] = get<1>(p); } ++*k; } };
template <class A, class B> static void go(double* o, const A& a, const B& b) { for (int i = 2; i < 20; ++i) o[i] = 0; int k = 0; Vis v = { o, &k }; o[0] = (int)convex_polygon_polygon_intersection(a, b, v, EXACT()); o[1] = k; }
static Q4 box(double x, double y, double w, double h) { Q4 q = {{P2(x,y), P2(x+w,y), P2(x+w,y+h), P2(x,y+h)}}; return q; }
static T3 tri(double x, double y) { T3 t = {{P2(x,y), P2(x+2,y), P2(x+1,y+1)}}; return t; }
static F5 five(double x, double y) { F5 t = {{P2(x,y), P2(x+2,y), P2(x+3,y+1), P2(x+1,y+2), P2(x-1,y+1)}}; return t; }
template <class A> static void all(double* o, const A& a) { for (int i = 2; i < 20; ++i) o[i] = 0; o[0] = 3; o[1] = a.size(); for (std::size_t i = 0; i < a.size(); ++i) { o[2+2*i] = get<0>(a[i]); o[3+2*i] = get<1>(a[i]); } }
//@ anchor geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp convex_polygon_polygon_intersection of one inside the other
LIB(void, in34, double* o, double x, double y) { go(o, tri(x,y), box(0,0,10,10)); } REF(void, in34, double* o, double x, double y) { all(o, tri(x,y)); } PRE(in34, double*, double x, double y) { return x > 0 && x < 8 && y > 0 && y < 9; }
LIB(void, in43, double* o, double x, double y) { go(o, box(0,0,10,10), tri(x,y)); } REF(void, in43, double* o, double x, double y) { all(o, tri(x,y)); } PRE(in43, double*, double x, double y) { return x > 0 && x < 8 && y > 0 && y < 9; }
LIB(void, in54, double* o, double x, double y) { go(o, five(x,y), box(0,0,10,10)); } REF(void, in54, double* o, double x, double y) { all(o, five(x,y)); } PRE(in54, double*, double x, double y) { return x > 1 && x < 7 && y > 0 && y < 8; }
LIB(void, in45, double* o, double x, double y) { go(o, box(0,0,10,10), five(x,y)); } REF(void, in45, double* o, double x, double y) { all(o, five(x,y)); } PRE(in45, double*, double x, double y) { return x > 1 && x < 7 && y > 0 && y < 8; }
//@ anchor geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp convex_polygon_polygon_intersection of disjoint ones
LIB(void, apart, double* o, double x, double y) { go(o, tri(x,y), box(0,0,4,4)); } REF(void, apart, double* o, double x, double y) { for (int i = 0; i < 20; ++i) o[i] = 0; } PRE(apart, double*, double x, double y) { return x > 4 && y > 4; }
LIB(void, left, double* o, double x, double y) { go(o, tri(x,y), box(0,0,4,4)); } REF(void, left, double* o, double x, double y) { for (int i = 0; i < 20; ++i) o[i] = 0; } PRE(left, double*, double x, double y) { return x < -2 && y > 1 && y < 2; }
LIB(void, sq2, double* o, double x, double y) { go(o, box(x,y,1,1), box(0,0,4,4)); } REF(void, sq2, double* o, double x, double y) { for (int i = 0; i < 20; ++i) o[i] = 0; } PRE(sq2, double*, double x, double y) { return (x < -1 || x > 4 || y < -1 || y > 4) && x > -30 && x < 30 && y > -30 && y < 30; }
//@ anchor geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp convex_polygon_polygon_intersection of overlapping ones
LIB(void, over, double* o, double x, double y) { double t[20]; go(t, box(x,y,4,4), box(0,0,4,4)); o[0] = t[0]; double lx = t[2], hx = t[2], ly = t[3], hy = t[3]; for (int i = 1; i < 4; ++i) { lx = std::fmin(lx, t[2+2*i]); hx = std::fmax(hx, t[2+2*i]); ly = std::fmin(ly, t[3+2*i]); hy = std::fmax(hy, t[3+2*i]); } o[1] = lx; o[2] = hx; o[3] = ly; o[4] = hy; }
REF(void, over, double* o, double x, double y) { o[0] = 3; o[1] = std::fmax(x, 0); o[2] = std::fmin(x, 0) + 4; o[3] = std::fmax(y, 0); o[4] = std::fmin(y, 0) + 4; } PRE(over, double*, double x, double y) { return x > -4 && x < 4 && x != 0 && y > -4 && y < 4 && y != 0; }
static void ext(double* o, const double* t) { o[0] = t[0]; int k = (int)t[1]; o[1] = k; double lx = t[2], hx = t[2], ly = t[3], hy = t[3]; for (int i = 1; i < 6; ++i) if (i < k) { lx = std::fmin(lx, t[2+2*i]); hx = std::fmax(hx, t[2+2*i]); ly = std::fmin(ly, t[3+2*i]); hy = std::fmax(hy, t[3+2*i]); } o[2] = lx; o[3] = hx; o[4] = ly; o[5] = hy; }
static void corners(double* o, const P2* t, int n) { o[0] = 3; o[1] = n; o[2] = o[3] = get<0>(t[0]); o[4] = o[5] = get<1>(t[0]); for (int i = 1; i < n; ++i) { o[2] = std::fmin(o[2], get<0>(t[i])); o[3] = std::fmax(o[3], get<0>(t[i])); o[4] = std::fmin(o[4], get<1>(t[i])); o[5] = std::fmax(o[5], get<1>(t[i])); } }
#define BOTH(n, A, B, P) LIB(void, n, double* o, double x, double y) { double t[20]; go(t, A, B); ext(o, t); } LIB(void, n##r, double* o, double x, double y) { double t[20]; go(t, B, A); ext(o, t); } PRE(n, double*, double x, double y) { return P; } PRE(n##r, double*, double x, double y) { return P; }
#define WAS(n, k, ...) REF(void, n, double* o, double x, double y) { P2 t[k] = { __VA_ARGS__ }; corners(o, t, k); } REF(void, n##r, double* o, double x, double y) { P2 t[k] = { __VA_ARGS__ }; corners(o, t, k); }
BOTH(poke3, tri(x,y), box(0,0,4,4), x > 3 && x < 4 && y > 0 && y < 3) WAS(poke3, 3, P2(x,y), P2(4,y), P2(4,y+4-x))
BOTH(poke4, tri(x,y), box(0,0,4,4), x > 2 && x < 3 && y > 0 && y < 3) WAS(poke4, 4, P2(x,y), P2(4,y), P2(4,y+x-2), P2(x+1,y+1))
BOTH(tip, tri(x,y), box(0,0,4,4), x > 0 && x < 2 && y > -1 && y < 0) WAS(tip, 3, P2(x-y,0), P2(x+2+y,0), P2(x+1,y+1))
BOTH(thru, box(x,-1,1,6), box(0,0,4,4), x > 0 && x < 3 && y > 0 && y < 1) WAS(thru, 4, P2(x,0), P2(x+1,0), P2(x+1,4), P2(x,4))
BOTH(side, box(4,y,2,2), box(0,0,4,4), y > 0 && y < 2 && x > 0 && x < 1) REF(void, side, double* o, double x, double y) { o[0] = 1; o[1] = 2; o[2] = o[3] = 4; o[4] = y; o[5] = y + 2; } REF(void, sider, double* o, double x, double y) { o[0] = 1; o[1] = 2; o[2] = o[3] = 4; o[4] = y; o[5] = y + 2; }
