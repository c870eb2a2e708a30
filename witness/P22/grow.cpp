//@ grow geometrix/algorithm/point_sequence/polyline_split.hpp geometrix/algorithm/point_sequence/clip_polyline_ends.hpp geometrix/algorithm/point_sequence/length.hpp geometrix/primitive/point_sequence_utilities.hpp
#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <boost/optional.hpp>
#include "grow.hpp"
// long polylines: unit steps, alternately along x and y
typedef polyline<P2> PL;
static P2 stair(int k) { return P2((k+1)/2, k/2); }
static P2 at(double h) { int k = 0; while (k < SZ-2 && h > k+1) ++k; double f = h - k; P2 a = stair(k), b = stair(k+1); return P2(a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])); }
static void dump(double* o, const PL& g) { o[0] = g.size(); for (std::size_t i = 0; i < SZ+1; ++i) { o[1+2*i] = i < g.size() ? get<0>(g[i]) : -1; o[2+2*i] = i < g.size() ? get<1>(g[i]) : -1; } }
static void part(double* o, bool from, P2 a, int lo, int hi, bool to, P2 b) { int k = 0; double* e = o+1; if (from) { *e++ = a[0]; *e++ = a[1]; ++k; } for (int i = lo; i <= hi; ++i, ++k) { *e++ = stair(i)[0]; *e++ = stair(i)[1]; } if (to) { *e++ = b[0]; *e++ = b[1]; ++k; } o[0] = k; for (; k < SZ+1; ++k) { *e++ = -1; *e++ = -1; } }
#define AT(n, K) \
LIB(void, gps##n, double* o, double f) { auto r = polyline_point_at_position(fillf<PL>(stair), K + f); o[0] = std::get<0>(r); o[1] = bool(std::get<1>(r)); P2 p = std::get<1>(r) ? *std::get<1>(r) : P2(0,0); o[2] = p[0]; o[3] = p[1]; } REF(void, gps##n, double* o, double f) { o[0] = K; o[1] = 1; P2 p = at(K + f); o[2] = p[0]; o[3] = p[1]; } PRE(gps##n, double*, double f) { return (f > 0) & (f < 1); } \
LIB(void, gsp##n, double* o, double f) { auto r = polyline_split(fillf<PL>(stair), K + f); dump(o, std::get<0>(r)); dump(o+2*SZ+3, std::get<1>(r)); } REF(void, gsp##n, double* o, double f) { P2 m = at(K + f); part(o, false, m, 0, K, true, m); part(o+2*SZ+3, true, m, K+1, SZ-1, false, m); } PRE(gsp##n, double*, double f) { return (f > 0) & (f < 1); } \
LIB(void, gcf##n, double* o, double f) { dump(o, clip_polyline_front(fillf<PL>(stair), K + f, EXACT())); } REF(void, gcf##n, double* o, double f) { P2 m = at(K + f); part(o, true, m, K+1, SZ-1, false, m); } PRE(gcf##n, double*, double f) { return (f > 0) & (f < 1); } \
LIB(void, gcb##n, double* o, double f) { dump(o, clip_polyline_back(fillf<PL>(stair), SZ-1 - (K + f), EXACT())); } REF(void, gcb##n, double* o, double f) { P2 m = at(K + f); part(o, false, m, 0, K, true, m); } PRE(gcb##n, double*, double f) { return (f > 0) & (f < 1); }
//@ anchor geometrix/algorithm/point_sequence/polyline_split.hpp polyline_split
AT(0, 0) AT(h, (SZ/2)) AT(l, (SZ-2))
//@ anchor geometrix/algorithm/point_sequence/clip_polyline_ends.hpp polyline_segment_lengths
LIB(void, gln, double* o, double a) { PL g; for (int i = 0; i < SZ; ++i) g.push_back(P2(a + i, 2*a)); auto v = polyline_segment_lengths(g); o[0] = v.size(); for (std::size_t i = 0; i < SZ; ++i) o[1+i] = i < v.size() ? v[i] : -1; } REF(void, gln, double* o, double a) { o[0] = SZ-1; for (int i = 0; i < SZ; ++i) o[1+i] = i < SZ-1 ? i+1 : -1; }
//@ anchor geometrix/algorithm/point_sequence/length.hpp point_on_polyline_length_characteristics
#define CHR(n, K) LIB(void, gch##n, double* o, double f) { P2 m = at(K + f); auto r = point_on_polyline_length_characteristics(fillf<PL>(stair), m, EXACT()); o[0] = std::get<0>(r).value(); o[1] = std::get<1>(r).value(); o[2] = std::get<2>(r).value(); } REF(void, gch##n, double* o, double f) { o[0] = K + f; o[1] = SZ-1 - (K + f); o[2] = K; } PRE(gch##n, double*, double f) { return (f > 0) & (f < 1); }
CHR(0, 0) CHR(h, (SZ/2)) CHR(l, (SZ-2))
