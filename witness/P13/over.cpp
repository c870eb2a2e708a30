#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <array>
#include <vector>
// overloads taking a segment, a sub range or a collection say what the basic ones (decided elsewhere) say
typedef std::array<P2,4> A4;
static A4 ring(double u) { A4 a = {{P2(2,3), P2(9,u), P2(6,8), P2(-1,5)}}; return a; }
struct O { std::size_t i; double s, t; P2 c1, c2; O() : i(9), s(0), t(0), c1(0,0), c2(0,0) {} };
static void put(double* o, double d, const O& r) { o[0] = d; o[1] = r.i; o[2] = r.s; o[3] = r.t; o[4] = get<0>(r.c1); o[5] = get<1>(r.c1); o[6] = get<0>(r.c2); o[7] = get<1>(r.c2); }
static void edge(double* o, const A4& a, double w, int lo, int hi, bool wrap) { double best = 0; bool any = false; if (wrap) { O r; double d = segment_segment_closest_point(P2(0,0), P2(w,0), a[3], a[0], r.s, r.t, r.c1, r.c2, EXACT()); r.i = 3; put(o, d, r); best = d; any = true; }
  for (int k = lo; k < hi; ++k) { O r; double d = segment_segment_closest_point(P2(0,0), P2(w,0), a[k], a[k+1], r.s, r.t, r.c1, r.c2, EXACT()); r.i = k; if (!any || d < best) { put(o, d, r); best = d; any = true; } } }
#define PW PREW
//@ anchor geometrix/algorithm/distance/segment_polygon_closest_point.hpp segment and sub range overloads
LIB(void, gseg, double* o, double u, double w) { O r; double d = segment_polygon_closest_point(S2(P2(0,0), P2(w,0)), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, gseg, double* o, double u, double w) { edge(o, ring(u), w, 0, 3, true); } PRE(gseg, double*, double u, double w) { return w > 0 && u > 3; }
LIB(void, gsub, double* o, double u, double w) { O r; double d = segment_polygon_closest_point(S2(P2(0,0), P2(w,0)), std::make_tuple((std::size_t)1, (std::size_t)3), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, gsub, double* o, double u, double w) { edge(o, ring(u), w, 1, 3, false); } PRE(gsub, double*, double u, double w) { return w > 0 && u > 3; }
LIB(void, gsub0, double* o, double u, double w) { O r; double d = segment_polygon_closest_point(P2(0,0), P2(w,0), std::make_tuple((std::size_t)0, (std::size_t)1), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, gsub0, double* o, double u, double w) { edge(o, ring(u), w, 0, 1, false); } PRE(gsub0, double*, double u, double w) { return w > 0 && u > 3; }
LIB(void, gwrap, double* o, double u, double w) { O r; double d = segment_polygon_closest_point(P2(0,0), P2(w,0), std::make_tuple((std::size_t)3, (std::size_t)0), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, gwrap, double* o, double u, double w) { edge(o, ring(u), w, 0, 0, true); } PRE(gwrap, double*, double u, double w) { return w > 0 && u > 3; }
//@ anchor geometrix/algorithm/distance/segment_polyline_closest_point.hpp segment and sub range overloads
LIB(void, lseg, double* o, double u, double w) { O r; double d = segment_polyline_closest_point(S2(P2(0,0), P2(w,0)), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, lseg, double* o, double u, double w) { edge(o, ring(u), w, 0, 3, false); } PRE(lseg, double*, double u, double w) { return w > 0 && u > 3; }
LIB(void, lsub, double* o, double u, double w) { O r; double d = segment_polyline_closest_point(S2(P2(0,0), P2(w,0)), std::make_tuple((std::size_t)1, (std::size_t)3), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, lsub, double* o, double u, double w) { edge(o, ring(u), w, 1, 3, false); } PRE(lsub, double*, double u, double w) { return w > 0 && u > 3; }
LIB(void, lsub2, double* o, double u, double w) { O r; double d = segment_polyline_closest_point(P2(0,0), P2(w,0), std::make_tuple((std::size_t)2, (std::size_t)3), ring(u), r.i, r.s, r.t, r.c1, r.c2, EXACT()); put(o, d, r); } REF(void, lsub2, double* o, double u, double w) { edge(o, ring(u), w, 2, 3, false); } PRE(lsub2, double*, double u, double w) { return w > 0 && u > 3; }
//@ anchor geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance
LIB(void, gdist, double* o, double u, double w) { double d = segment_polygon_distance(P2(0,0), P2(w,0), ring(u), EXACT()), e = segment_polygon_distance(S2(P2(0,0), P2(w,0)), ring(u), EXACT()); o[0] = d*d; o[1] = e*e; o[2] = d >= 0; } REF(void, gdist, double* o, double u, double w) { double b[8]; edge(b, ring(u), w, 0, 3, true); o[0] = o[1] = b[0]; o[2] = 1; } PRE(gdist, double*, double u, double w) { return w > 0 && u > 3; }
//@ anchor geometrix/algorithm/distance/segment_polyline_distance.hpp segment_polyline_distance
LIB(void, ldist, double* o, double u, double w) { double d = segment_polyline_distance(P2(0,0), P2(w,0), ring(u), EXACT()), e = segment_polyline_distance(S2(P2(0,0), P2(w,0)), ring(u), EXACT()); o[0] = d*d; o[1] = e*e; o[2] = d >= 0; } REF(void, ldist, double* o, double u, double w) { double b[8]; edge(b, ring(u), w, 0, 3, false); o[0] = o[1] = b[0]; o[2] = 1; } PRE(ldist, double*, double u, double w) { return w > 0 && u > 3; }
//@ anchor geometrix/algorithm/distance/point_polygon_closest_point.hpp point_polygon_collection_closest_point
static polygon<P2> sqr(double x, double y) { return polygon<P2>{P2(x,y), P2(x+2,y), P2(x+2,y+2), P2(x,y+2)}; }
#define COL(n, PX, PY) LIB(void, col##n, double* o, double u) { std::vector<polygon<P2>> v{sqr(0,0), sqr(5,1), sqr(2,6)}; P2 q = point_polygon_collection_closest_point(P2(PX,PY), v); o[0] = sq(get<0>(q)-(PX))+sq(get<1>(q)-(PY)); bool on = false; for (auto& g : v) on = on || point_polygon_distance_sqrd(q, g) == 0; o[1] = on; } \
REF(void, col##n, double* o, double u) { std::vector<polygon<P2>> v{sqr(0,0), sqr(5,1), sqr(2,6)}; double m = 0; for (int k = 0; k < 3; ++k) { double d = point_polygon_distance_sqrd(P2(PX,PY), v[k]); if (k == 0 || d < m) m = d; } o[0] = m; o[1] = 1; }
//@ anchor geometrix/algorithm/distance/point_point_distance.hpp four dimensions
LIB(double, pp4, const double* p) { typedef point<double,4> P4; return point_point_distance_sqrd(P4(p[0],p[1],p[2],p[3]), P4(p[4],p[5],p[6],p[7])); } REF(double, pp4, const double* p) { return sq(p[4]-p[0])+sq(p[5]-p[1])+sq(p[6]-p[2])+sq(p[7]-p[3]); }
//X LIB(double, pp1, const double* p) { typedef point<double,1> Q; return point_point_distance_sqrd(Q(p[0]), Q(p[1])); } REF(double, pp1, const double* p) { return sq(p[1]-p[0]); }
