#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
template <int N> static std::array<P2,N> seq2(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
template <int N> static std::array<P3,N> seq3(const double* p) { std::array<P3,N> a; for (int i = 0; i < N; ++i) a[i] = P3(p[3*i],p[3*i+1],p[3*i+2]); return a; }
template <class S> static S vec2(const double* p, int n) { S a; a.reserve(n); for (int i = 0; i < n; ++i) a.push_back(P2(p[2*i],p[2*i+1])); return a; }
// twice the signed area as the sum of the fan triangles at the first vertex
static double fan(const double* p, int n) { double s = 0; for (int i = 1; i + 1 < n; ++i) s += turn(p[0],p[1],p[2*i],p[2*i+1],p[2*i+2],p[2*i+3]); return s; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_signed_area
#define AREA(N) \
LIB(double, sa##N, const double* p) { return get_signed_area(seq2<N>(p)); } REF(double, sa##N, const double* p) { return fan(p, N) / 2; } \
LIB(double, ar##N, const double* p) { return get_area(seq2<N>(p)); } REF(double, ar##N, const double* p) { double a = fan(p, N) / 2; return a < 0 ? -a : a; } \
LIB(double, rev##N, const double* p) { auto s = seq2<N>(p); std::reverse(s.begin(), s.end()); return get_signed_area(s); } REF(double, rev##N, const double* p) { return -fan(p, N) / 2; } \
LIB(double, rot##N, const double* p) { auto s = seq2<N>(p); std::rotate(s.begin(), s.begin()+1, s.end()); return get_signed_area(s); } REF(double, rot##N, const double* p) { return fan(p, N) / 2; }
AREA(3) AREA(4) AREA(5) AREA(6)
LIB(double, sav4, const double* p) { return get_signed_area(vec2<polygon<P2>>(p, 4)); } REF(double, sav4, const double* p) { return fan(p, 4) / 2; }
LIB(double, revp, const double* p) { return get_signed_area(geometrix::reverse(vec2<polygon<P2>>(p, 4))); } REF(double, revp, const double* p) { return -fan(p, 4) / 2; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_centroid
// area-weighted mean of the fan triangles' centroids
static void cent(double* o, const double* p, int n) { double a = 0, x = 0, y = 0; for (int i = 1; i + 1 < n; ++i) { double t = turn(p[0],p[1],p[2*i],p[2*i+1],p[2*i+2],p[2*i+3]); a += t; x += t*(p[0]+p[2*i]+p[2*i+2]); y += t*(p[1]+p[2*i+1]+p[2*i+3]); } o[0] = x/(3*a); o[1] = y/(3*a); }
#define CENT(N) \
LIB(void, cen##N, double* o, const double* p) { P2 c = get_centroid(seq2<N>(p)); o[0] = c[0]; o[1] = c[1]; } REF(void, cen##N, double* o, const double* p) { cent(o, p, N); } PRE(cen##N, double*, const double* p) { return fan(p, N) != 0; } \
LIB(void, cer##N, double* o, const double* p) { auto s = seq2<N>(p); std::reverse(s.begin(), s.end()); P2 c = get_centroid(s); o[0] = c[0]; o[1] = c[1]; } REF(void, cer##N, double* o, const double* p) { cent(o, p, N); } PRE(cer##N, double*, const double* p) { return fan(p, N) != 0; } \
LIB(void, ces##N, double* o, const double* p) { auto s = seq2<N>(p); std::rotate(s.begin(), s.begin()+2, s.end()); P2 c = get_centroid(s); o[0] = c[0]; o[1] = c[1]; } REF(void, ces##N, double* o, const double* p) { cent(o, p, N); } PRE(ces##N, double*, const double* p) { return fan(p, N) != 0; }
CENT(3) CENT(4) CENT(5) CENT(6)
//@ anchor geometrix/algorithm/point_sequence/length.hpp polyline_length
static double len(const double* p, int d, int n, bool closed) { double l = 0; for (int i = 0; i + 1 < n; ++i) { double q = 0; for (int k = 0; k < d; ++k) q += sq(p[d*i+d+k]-p[d*i+k]); l += std::sqrt(q); } if (closed) { double q = 0; for (int k = 0; k < d; ++k) q += sq(p[k]-p[d*(n-1)+k]); l += std::sqrt(q); } return l; }
#define LEN(N) \
LIB(double, pl2_##N, const double* p) { return polyline_length(seq2<N>(p)); } REF(double, pl2_##N, const double* p) { return len(p, 2, N, false); } \
LIB(double, pl3_##N, const double* p) { return polyline_length(seq3<N>(p)); } REF(double, pl3_##N, const double* p) { return len(p, 3, N, false); } \
LIB(double, pg2_##N, const double* p) { return polygon_length(seq2<N>(p)); } REF(double, pg2_##N, const double* p) { return len(p, 2, N, true); } \
LIB(double, pg3_##N, const double* p) { return polygon_length(seq3<N>(p)); } REF(double, pg3_##N, const double* p) { return len(p, 3, N, true); }
LEN(2) LEN(3) LEN(4) LEN(5)
LIB(double, pl2_1, const double* p) { return polyline_length(seq2<1>(p)); } REF(double, pl2_1, const double* p) { return 0; }
LIB(double, plv, const double* p) { return polyline_length(vec2<polyline<P2>>(p, 4)); } REF(double, plv, const double* p) { return len(p, 2, 4, false); }
LIB(double, pgv, const double* p) { return polygon_length(vec2<polygon<P2>>(p, 4)); } REF(double, pgv, const double* p) { return len(p, 2, 4, true); }
//@ anchor geometrix/algorithm/segment_mid_point.hpp segment_mid_point
LIB(void, mid2, double* o, const double* p) { P2 a = segment_mid_point(S2(P2(p[0],p[1]),P2(p[2],p[3]))), b = segment_mid_point(P2(p[0],p[1]),P2(p[2],p[3])); o[0] = a[0]; o[1] = a[1]; o[2] = b[0]; o[3] = b[1]; }
REF(void, mid2, double* o, const double* p) { for (int i = 0; i < 4; ++i) o[i] = (p[i%2]+p[2+i%2])/2; }
LIB(void, mid3, double* o, const double* p) { P3 a = segment_mid_point(S3(P3(p[0],p[1],p[2]),P3(p[3],p[4],p[5]))), b = segment_mid_point(P3(p[0],p[1],p[2]),P3(p[3],p[4],p[5])); for (int i = 0; i < 3; ++i) { o[i] = a[i]; o[3+i] = b[i]; } }
REF(void, mid3, double* o, const double* p) { for (int i = 0; i < 6; ++i) o[i] = (p[i%3]+p[3+i%3])/2; }
//@ anchor geometrix/algorithm/point_sequence/polyline_mid_point.hpp polyline_mid_point
// vertices on one ray at distances 0 < a < a+b (scaled along a rational direction): the middle is known in closed form
LIB(void, pmid, double* o, double x, double y, double a, double b, double c) { std::array<P2,4> s = {P2(x,y), P2(x+3*a,y+4*a), P2(x+3*a,y+4*a+5*b), P2(x+3*a-5*c,y+4*a+5*b)}; P2 m = polyline_mid_point(s); o[0] = m[0]; o[1] = m[1]; }
REF(void, pmid, double* o, double x, double y, double a, double b, double c) { double h = (a+b+c)/2; if (h <= a) { o[0] = x+3*h; o[1] = y+4*h; } else if (h <= a+b) { o[0] = x+3*a; o[1] = y+4*a+5*(h-a); } else { o[0] = x+3*a-5*(h-a-b); o[1] = y+4*a+5*b; } }
PRE(pmid, double*, double x, double y, double a, double b, double c) { return a > 0 && b > 0 && c > 0; }
