#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <boost/optional.hpp>
typedef polyline<P2> PL; typedef polygon<P2> PG;
static PL pl(const double* p, int n) { PL a; a.reserve(n); for (int i = 0; i < n; ++i) a.push_back(P2(p[2*i],p[2*i+1])); return a; }
// a three-edge path with edges along (3,4), (0,1), (-1,0): lengths 5a, 5b, 5c
static void path(double* v, double x, double y, double a, double b, double c) { double r[8] = {x, y, x+3*a, y+4*a, x+3*a, y+4*a+5*b, x+3*a-5*c, y+4*a+5*b}; for (int i = 0; i < 8; ++i) v[i] = r[i]; }
static PL zz(double x, double y, double a, double b, double c) { double v[8]; path(v, x, y, a, b, c); return pl(v, 4); }
// point of the path at arc length 5h
static void at(double* o, double x, double y, double a, double b, double c, double h) { if (h <= a) { o[0] = x+3*h; o[1] = y+4*h; } else if (h <= a+b) { o[0] = x+3*a; o[1] = y+4*a+5*(h-a); } else { o[0] = x+3*a-5*(h-a-b); o[1] = y+4*a+5*b; } }
template <class S> static void dump(double* o, const S& g) { o[0] = g.size(); for (std::size_t i = 0; i < g.size(); ++i) { o[1+2*i] = get<0>(g[i]); o[2+2*i] = get<1>(g[i]); } }
struct ov { double* o; int n; ov(double* o) : o(o), n(0) {} void add(double x, double y) { o[1+2*n] = x; o[2+2*n] = y; ++n; o[0] = n; } };
#define ARGS double* o, double x, double y, double a, double b, double c, double h
#define POS (a > 0 && b > 0 && c > 0)
static int seg(double a, double b, double h) { return h < a ? 0 : h < a+b ? 1 : 2; }
//@ anchor geometrix/algorithm/point_sequence/polyline_split.hpp polyline_point_at_position
LIB(void, pos, ARGS) { auto r = polyline_point_at_position(zz(x,y,a,b,c), 5*h); o[0] = std::get<0>(r); o[1] = bool(std::get<1>(r)); o[2] = o[3] = 0; if (std::get<1>(r)) { o[2] = get<0>(*std::get<1>(r)); o[3] = get<1>(*std::get<1>(r)); } }
REF(void, pos, ARGS) { o[0] = seg(a, b, h); bool at_vertex = h == 0 || h == a || h == a+b || h >= a+b+c; o[1] = !at_vertex; o[2] = o[3] = 0; if (!at_vertex) at(o+2, x, y, a, b, c, h); }
PRE(pos, ARGS) { return POS && h >= 0; }
//@ anchor geometrix/algorithm/point_sequence/polyline_split.hpp polyline_split
#define SPLIT(NAME, COND) LIB(void, NAME, ARGS) { auto r = polyline_split(zz(x,y,a,b,c), 5*h); dump(o, std::get<0>(r)); dump(o+12, std::get<1>(r)); } \
REF(void, NAME, ARGS) { double v[8], m[2]; path(v, x, y, a, b, c); double hh = h > a+b+c ? a+b+c : h; at(m, x, y, a, b, c, hh); ov f(o), s(o+12); double L[4] = {0, a, a+b, a+b+c}; \
  for (int i = 0; i < 4; ++i) if (L[i] < hh) f.add(v[2*i], v[2*i+1]); f.add(m[0], m[1]); s.add(m[0], m[1]); for (int i = 0; i < 4; ++i) if (L[i] > hh) s.add(v[2*i], v[2*i+1]); } \
PRE(NAME, ARGS) { return POS && (COND); }
SPLIT(spl0, h == 0) SPLIT(spl1, h > 0 && h < a) SPLIT(splv1, h == a) SPLIT(spl2, h > a && h < a+b) SPLIT(splv2, h == a+b) SPLIT(spl3, h > a+b && h < a+b+c) SPLIT(splend, h >= a+b+c)
LIB(void, spl_one, double* o, const double* p, double h) { auto r = polyline_split(pl(p,2), h); o[0] = std::get<0>(r).size(); o[1] = std::get<1>(r).size(); }
REF(void, spl_one, double* o, const double* p, double h) { double l = std::sqrt(d2sq(p[0],p[1],p[2],p[3])); o[0] = h == 0 ? 1 : 2; o[1] = h >= l ? 1 : 2; }
PRE(spl_one, double*, const double* p, double h) { return h >= 0 && d2sq(p[0],p[1],p[2],p[3]) > 0; }
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp clip_polyline_front
#define CLIPF(NAME, COND) LIB(void, NAME, ARGS) { auto r = clip_polyline_front(zz(x,y,a,b,c), 5*h, EXACT()); dump(o, r); } \
REF(void, NAME, ARGS) { double v[8], m[2]; path(v, x, y, a, b, c); o[0] = 0; if (h >= a+b+c) return; at(m, x, y, a, b, c, h); ov s(o); double L[4] = {0, a, a+b, a+b+c}; s.add(m[0], m[1]); for (int i = 0; i < 4; ++i) if (L[i] > h) s.add(v[2*i], v[2*i+1]); } \
PRE(NAME, ARGS) { return POS && (COND); }
CLIPF(cf0, h == 0) CLIPF(cf1, h > 0 && h < a) CLIPF(cfv1, h == a) CLIPF(cf2, h > a && h < a+b) CLIPF(cfv2, h == a+b) CLIPF(cf3, h > a+b && h < a+b+c) CLIPF(cfend, h >= a+b+c)
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp clip_polyline_back
#define CLIPB(NAME, COND) LIB(void, NAME, ARGS) { auto r = clip_polyline_back(zz(x,y,a,b,c), 5*h, EXACT()); dump(o, r); } \
REF(void, NAME, ARGS) { double v[8], m[2]; path(v, x, y, a, b, c); o[0] = 0; double g = a+b+c-h; if (g <= 0) return; at(m, x, y, a, b, c, g); ov s(o); double L[4] = {0, a, a+b, a+b+c}; for (int i = 0; i < 4; ++i) if (L[i] < g) s.add(v[2*i], v[2*i+1]); s.add(m[0], m[1]); } \
PRE(NAME, ARGS) { return POS && (COND); }
CLIPB(cb0, h == 0) CLIPB(cb1, h > 0 && h < c) CLIPB(cbv1, h == c) CLIPB(cb2, h > c && h < b+c) CLIPB(cb3, h > b+c && h < a+b+c) CLIPB(cbend, h >= a+b+c)
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp clip_polyline_ends
LIB(void, ce, ARGS) { auto r = clip_polyline_ends(zz(x,y,a,b,c), 5*h, EXACT()); dump(o, r); }
REF(void, ce, ARGS) { ov s(o); s.add(x+3*h, y+4*h); s.add(x+3*a, y+4*a); s.add(x+3*a, y+4*a+5*b); s.add(x+3*a-5*(c-h), y+4*a+5*b); }
PRE(ce, ARGS) { return POS && h > 0 && h < a && h < c; }
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp polyline_segment_lengths
LIB(void, lens, double* o, double x, double y, double a, double b, double c) { auto v = polyline_segment_lengths(zz(x,y,a,b,c)); o[0] = v.size(); for (std::size_t i = 0; i < v.size(); ++i) o[i+1] = v[i]; }
REF(void, lens, double* o, double x, double y, double a, double b, double c) { o[0] = 3; o[1] = 5*a; o[2] = 5*(a+b); o[3] = 5*(a+b+c); } PRE(lens, double* o, double x, double y, double a, double b, double c) { return POS; }
//@ anchor geometrix/algorithm/point_sequence/length.hpp point_on_polyline_length_characteristics
LIB(void, chr, double* o, double a, double b, double c, double h) { double q[2]; at(q, 0, 0, a, b, c, h); auto r = point_on_polyline_length_characteristics(zz(0,0,a,b,c), P2(q[0],q[1]), EXACT()); o[0] = std::get<0>(r).value(); o[1] = std::get<1>(r).value(); o[2] = std::get<2>(r).value(); }
REF(void, chr, double* o, double a, double b, double c, double h) { o[0] = 5*h; o[1] = 5*(a+b+c-h); o[2] = h <= a ? 0 : h <= a+b ? 1 : 2; }
PRE(chr, double*, double a, double b, double c, double h) { return POS && h >= 0 && h <= a+b+c && 3*a < 5*c; }
//@ anchor geometrix/algorithm/split_segment.hpp split_segment
// every piece is at most the asked length and the pieces join up
LIB(void, split, double* o, double x, double y, double l, double m) { auto v = split_segment(S2(P2(x,y), P2(x+3*l,y+4*l)), m); o[0] = v.size(); for (std::size_t i = 0; i < v.size(); ++i) { o[4*i+1] = get<0>(v[i].get_start()); o[4*i+2] = get<1>(v[i].get_start()); o[4*i+3] = get<0>(v[i].get_end()); o[4*i+4] = get<1>(v[i].get_end()); } }
REF(void, split, double* o, double x, double y, double l, double m) { int n = 5*l <= m ? 1 : 5*l <= 2*m ? 2 : 4; o[0] = n; for (int i = 0; i < n; ++i) { o[4*i+1] = x+3*l*i/n; o[4*i+2] = y+4*l*i/n; o[4*i+3] = x+3*l*(i+1)/n; o[4*i+4] = y+4*l*(i+1)/n; } }
PRE(split, double*, double, double, double l, double m) { return l > 0 && m > 0 && 5*l <= 4*m; }
