//@ grow geometrix/primitive/point_sequence_utilities.hpp geometrix/algorithm/polygon_with_holes_as_segment_range.hpp geometrix/primitive/polygon_with_holes.hpp
#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include "grow.hpp"
// the edges of long sequences
static void segs(double* o, const std::vector<S2>& v) { *o++ = v.size(); for (std::size_t i = 0; i < v.size(); ++i) { *o++ = get<0>(v[i].get_start()); *o++ = get<1>(v[i].get_start()); *o++ = get<0>(v[i].get_end()); *o++ = get<1>(v[i].get_end()); } }
static double* edges(double* o, const double* p, int n, int m) { for (int i = 0; i < m; ++i) { int j = i == n-1 ? 0 : i+1; *o++ = p[2*i]; *o++ = p[2*i+1]; *o++ = p[2*j]; *o++ = p[2*j+1]; } return o; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp next_index
LIB(void, gni, double* o, const double* p) { auto s = arr(p); auto v = fillp<polygon<P2>>(p); for (int i = 0; i < SZ; ++i) { *o++ = next_index(s, i); *o++ = prev_index(s, i); *o++ = next_index(v, i); *o++ = prev_index(v, i); } }
REF(void, gni, double* o, const double* p) { for (int i = 0; i < SZ; ++i) { int n = i == SZ-1 ? 0 : i+1, q = i ? i-1 : SZ-1; *o++ = n; *o++ = q; *o++ = n; *o++ = q; } }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp polygon_as_segment_range
LIB(void, gpg, double* o, const double* p) { segs(o, polygon_as_segment_range<S2>(fillp<polygon<P2>>(p))); } REF(void, gpg, double* o, const double* p) { o[0] = SZ; edges(o+1, p, SZ, SZ); }
LIB(void, gpl, double* o, const double* p) { segs(o, polyline_as_segment_range<S2>(fillp<polyline<P2>>(p))); } REF(void, gpl, double* o, const double* p) { o[0] = SZ-1; edges(o+1, p, SZ, SZ-1); }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp is_point_concave
LIB(void, gcv, double* o, const double* p) { auto s = arr(p); for (int i = 0; i < SZ; ++i) o[i] = is_point_concave(s, i); }
REF(void, gcv, double* o, const double* p) { for (int i = 0; i < SZ; ++i) { const double *a = p+2*(i ? i-1 : SZ-1), *b = p+2*i, *c = p+2*(i == SZ-1 ? 0 : i+1); o[i] = turn(a[0],a[1],b[0],b[1],c[0],c[1]) <= 0; } }
//@ anchor geometrix/algorithm/polygon_with_holes_as_segment_range.hpp polygon_with_holes_as_segment_range
LIB(void, gwo, double* o, const double* p, const double* q) { polygon_with_holes<P2> h(fillp<polygon<P2>>(p)); polygon<P2> t{P2(q[0],q[1]), P2(q[2],q[3]), P2(q[4],q[5])}; h.add_hole(t); segs(o, polygon_with_holes_as_segment_range<S2>(h)); }
REF(void, gwo, double* o, const double* p, const double* q) { o[0] = SZ+3; edges(edges(o+1, p, SZ, SZ), q, 3, 3); }
LIB(void, gwi, double* o, const double* p, const double* q) { polygon<P2> t{P2(q[0],q[1]), P2(q[2],q[3]), P2(q[4],q[5])}; polygon_with_holes<P2> h(t); h.add_hole(fillp<polygon<P2>>(p)); segs(o, polygon_with_holes_as_segment_range<S2>(h)); }
REF(void, gwi, double* o, const double* p, const double* q) { o[0] = SZ+3; edges(edges(o+1, q, 3, 3), p, SZ, SZ); }
LIB(void, gwn, double* o, const double* p) { polygon<P2> t{P2(p[0],p[1]), P2(p[2],p[3]), P2(p[4],p[5])}; polygon_with_holes<P2> h(t); for (int i = 0; i < SZ; ++i) { polygon<P2> u{P2(i,i), P2(i+1,i), P2(i,i+1)}; h.add_hole(u); } segs(o, polygon_with_holes_as_segment_range<S2>(h)); }
REF(void, gwn, double* o, const double* p) { o[0] = 3*SZ+3; o = edges(o+1, p, 3, 3); for (int i = 0; i < SZ; ++i) { double d = i, t[6] = {d,d,d+1,d,d,d+1}; o = edges(o, t, 3, 3); } }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp number_vertices / get_vertex
LIB(void, gvx, double* o, const double* p) { auto s = arr(p); o[0] = number_vertices(s); for (int i = 0; i < SZ; ++i) { P2 a = get_vertex(s, i); o[1+2*i] = get<0>(a); o[2+2*i] = get<1>(a); } }
REF(void, gvx, double* o, const double* p) { o[0] = SZ; for (int i = 0; i < 2*SZ; ++i) o[1+i] = p[i]; }
//@ anchor geometrix/primitive/polygon.hpp reverse
LIB(void, grv, double* o, const double* p) { auto a = geometrix::reverse(fillp<polygon<P2>>(p)); auto b = geometrix::reverse(fillp<polyline<P2>>(p)); for (int i = 0; i < SZ; ++i) { *o++ = get<0>(a[i]); *o++ = get<1>(a[i]); *o++ = get<0>(b[i]); *o++ = get<1>(b[i]); } }
REF(void, grv, double* o, const double* p) { for (int i = SZ-1; i >= 0; --i) for (int k = 0; k < 2; ++k) { *o++ = p[2*i]; *o++ = p[2*i+1]; } }
