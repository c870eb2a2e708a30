#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
template <int N> static std::array<P2,N> seq2(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
static polygon<P2> pg(const double* p, int n) { polygon<P2> a; a.reserve(n); for (int i = 0; i < n; ++i) a.push_back(P2(p[2*i],p[2*i+1])); return a; }
static polyline<P2> pl(const double* p, int n) { polyline<P2> a; a.reserve(n); for (int i = 0; i < n; ++i) a.push_back(P2(p[2*i],p[2*i+1])); return a; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp next_index
LIB(void, next, double* o, const double* p) { auto s = seq2<4>(p); for (int i = 0; i < 4; ++i) { o[i] = next_index(s, i); o[4+i] = prev_index(s, i); } }
REF(void, next, double* o, const double* p) { for (int i = 0; i < 4; ++i) { o[i] = (i+1)%4; o[4+i] = (i+3)%4; } }
LIB(void, nextv, double* o, const double* p) { auto s = pg(p, 3); for (int i = 0; i < 3; ++i) { o[i] = next_index(s, i); o[3+i] = prev_index(s, i); } }
REF(void, nextv, double* o, const double* p) { for (int i = 0; i < 3; ++i) { o[i] = (i+1)%3; o[3+i] = (i+2)%3; } }
LIB(void, next1, double* o, const double* p) { auto s = seq2<1>(p); o[0] = next_index(s, 0); o[1] = prev_index(s, 0); }
REF(void, next1, double* o, const double* p) { o[0] = o[1] = 0; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp is_point_concave
LIB(void, concave, double* o, const double* p) { auto s = seq2<4>(p); for (int i = 0; i < 4; ++i) o[i] = is_point_concave(s, i); }
REF(void, concave, double* o, const double* p) { for (int i = 0; i < 4; ++i) { const double *a = p+2*((i+3)%4), *b = p+2*i, *c = p+2*((i+1)%4); o[i] = turn(a[0],a[1],b[0],b[1],c[0],c[1]) <= 0; } }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp polygon_as_segment_range
static void segs(double* o, const std::vector<S2>& v) { o[0] = v.size(); for (std::size_t i = 0; i < v.size(); ++i) { o[4*i+1] = get<0>(v[i].get_start()); o[4*i+2] = get<1>(v[i].get_start()); o[4*i+3] = get<0>(v[i].get_end()); o[4*i+4] = get<1>(v[i].get_end()); } }
static int rsegs(double* o, int k, const double* p, int n, int m) { for (int i = 0; i < m; ++i, ++k) { int j = (i+1)%n; o[4*k+1] = p[2*i]; o[4*k+2] = p[2*i+1]; o[4*k+3] = p[2*j]; o[4*k+4] = p[2*j+1]; } return k; }
#define SR(N) LIB(void, pgs##N, double* o, const double* p) { segs(o, polygon_as_segment_range<S2>(seq2<N>(p))); } REF(void, pgs##N, double* o, const double* p) { o[0] = N; rsegs(o, 0, p, N, N); } \
LIB(void, pls##N, double* o, const double* p) { segs(o, polyline_as_segment_range<S2>(seq2<N>(p))); } REF(void, pls##N, double* o, const double* p) { o[0] = N-1; rsegs(o, 0, p, N, N-1); }
SR(2) SR(3) SR(4) SR(5)
LIB(void, pgsv, double* o, const double* p) { segs(o, polygon_as_segment_range<S2>(pg(p,4))); } REF(void, pgsv, double* o, const double* p) { o[0] = 4; rsegs(o, 0, p, 4, 4); }
LIB(void, plsv, double* o, const double* p) { segs(o, polyline_as_segment_range<S2>(pl(p,4))); } REF(void, plsv, double* o, const double* p) { o[0] = 3; rsegs(o, 0, p, 4, 3); }
//@ anchor geometrix/algorithm/polygon_with_holes_as_segment_range.hpp polygon_with_holes_as_segment_range
LIB(void, pwh, double* o, const double* p, const double* q, const double* r) { polygon_with_holes<P2> h(pg(p,4)); h.add_hole(pg(q,3)); h.add_hole(pg(r,4)); segs(o, polygon_with_holes_as_segment_range<S2>(h)); }
REF(void, pwh, double* o, const double* p, const double* q, const double* r) { o[0] = 11; int k = rsegs(o, 0, p, 4, 4); k = rsegs(o, k, q, 3, 3); rsegs(o, k, r, 4, 4); }
LIB(void, pwh0, double* o, const double* p) { polygon_with_holes<P2> h(pg(p,4)); segs(o, polygon_with_holes_as_segment_range<S2>(h)); }
REF(void, pwh0, double* o, const double* p) { o[0] = 4; rsegs(o, 0, p, 4, 4); }
//@ anchor geometrix/primitive/polygon_with_holes.hpp add_hole
static void dump(double* o, const polygon<P2>& g) { o[0] = g.size(); for (std::size_t i = 0; i < g.size(); ++i) { o[1+2*i] = get<0>(g[i]); o[2+2*i] = get<1>(g[i]); } }
static void rdump(double* o, const double* p, int n) { o[0] = n; for (int i = 0; i < 2*n; ++i) o[1+i] = p[i]; }
LIB(void, hole, double* o, const double* p, const double* q) { polygon_with_holes<P2> h(pg(p,3)); polygon<P2> x = pg(q,3); const polygon<P2>& cx = x; h.add_hole(cx); dump(o, x); dump(o+8, h.get_outer()); o[16] = h.get_holes().size(); dump(o+17, h.get_holes()[0]); }
REF(void, hole, double* o, const double* p, const double* q) { rdump(o, q, 3); rdump(o+8, p, 3); o[16] = 1; rdump(o+17, q, 3); }
LIB(void, holel, double* o, const double* p, const double* q) { polygon_with_holes<P2> h(pg(p,3)); polygon<P2> x = pg(q,3); h.add_hole(x); dump(o, x); dump(o+8, h.get_outer()); o[16] = h.get_holes().size(); dump(o+17, h.get_holes()[0]); }
REF(void, holel, double* o, const double* p, const double* q) { rdump(o, q, 3); rdump(o+8, p, 3); o[16] = 1; rdump(o+17, q, 3); }
LIB(void, outer, double* o, const double* p, const double* q) { polygon_with_holes<P2> h(pg(p,3)); h.add_hole(pg(q,3)); const polygon<P2> x = pg(q,4); h.set_outer(x); dump(o, h.get_outer()); o[16] = h.get_holes().size(); dump(o+17, h.get_holes()[0]); }
REF(void, outer, double* o, const double* p, const double* q) { rdump(o, q, 4); o[16] = 1; rdump(o+17, q, 3); }
LIB(void, outerl, double* o, const double* p, const double* q) { polygon_with_holes<P2> h(pg(p,3)); polygon<P2> x = pg(q,4); h.set_outer(x); dump(o, h.get_outer()); dump(o+10, x); o[20] = h.get_holes().size(); }
REF(void, outerl, double* o, const double* p, const double* q) { rdump(o, q, 4); rdump(o+10, q, 4); o[20] = 0; }
LIB(void, ctors, double* o, const double* p, const double* q) { polygon<P2> a = pg(p,3); std::vector<polygon<P2>> hs; hs.push_back(pg(q,3)); polygon_with_holes<P2> h(a, hs); polygon_with_holes<P2> c(h), m(std::move(c)), e; e = h; dump(o, m.get_outer()); dump(o+10, m.get_holes()[0]); dump(o+20, e.get_outer()); dump(o+30, e.get_holes()[0]); dump(o+40, h.get_outer()); o[50] = h.get_holes().size(); dump(o+51, a); o[60] = hs.size(); }
REF(void, ctors, double* o, const double* p, const double* q) { rdump(o, p, 3); rdump(o+10, q, 3); rdump(o+20, p, 3); rdump(o+30, q, 3); rdump(o+40, p, 3); o[50] = 1; rdump(o+51, p, 3); o[60] = 1; }
//@ anchor geometrix/primitive/polygon.hpp polygon
LIB(void, pctor, double* o, const double* p) { polygon<P2> a = pg(p,3), b(a), c(std::move(b)), d; d = a; polygon<P2> e; e = std::move(d); std::vector<P2> v(a.begin(), a.end()); polygon<P2> f(v), g(a.begin(), a.end()), h = {a[0],a[1],a[2]}; dump(o, a); dump(o+7, c); dump(o+14, e); dump(o+21, f); dump(o+28, g); dump(o+35, h); }
REF(void, pctor, double* o, const double* p) { for (int i = 0; i < 6; ++i) rdump(o+7*i, p, 3); }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp reverse
LIB(void, rev, double* o, const double* p) { polygon<P2> a = pg(p,4); dump(o, geometrix::reverse(a)); dump(o+9, a); }
REF(void, rev, double* o, const double* p) { double r[8]; for (int i = 0; i < 4; ++i) { r[2*i] = p[2*(3-i)]; r[2*i+1] = p[2*(3-i)+1]; } rdump(o, r, 4); rdump(o+9, p, 4); }
//@ anchor geometrix/primitive/point_sequence_traits.hpp get_vertex
LIB(void, verts, double* o, const double* p) { auto s = seq2<4>(p); polygon<P2> g = pg(p,4); o[0] = number_vertices(s); o[1] = number_vertices(g); for (int i = 0; i < 4; ++i) { P2 a = get_vertex(s, i), b = get_vertex(g, i); o[2+4*i] = a[0]; o[3+4*i] = a[1]; o[4+4*i] = b[0]; o[5+4*i] = b[1]; } }
REF(void, verts, double* o, const double* p) { o[0] = o[1] = 4; for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) o[2+4*i+k] = p[2*i+k%2]; }
