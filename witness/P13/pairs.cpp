#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <array>
// pairs of chains / polygons of fixed shape, the second one translated by (x, y): all translations
template <int N> static std::array<P2,N> seq(const double* p, double x, double y) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i]+x,p[2*i+1]+y); return a; }
struct CP { double d, i, j, s, t, x1, y1, x2, y2; };
static CP one(const P2& a, const P2& b, const P2& c, const P2& d, double i, double j) { CP r; P2 c1, c2; r.d = segment_segment_closest_point(a,b,c,d,r.s,r.t,c1,c2,EXACT()); r.i = i; r.j = j; r.x1 = c1[0]; r.y1 = c1[1]; r.x2 = c2[0]; r.y2 = c2[1]; return r; }
template <int N, int M> static CP all(const std::array<P2,N>& p, const std::array<P2,M>& q, bool closed) { CP m; bool any = false;
  for (int j = closed ? 0 : 1; j < N; ++j) { int i = (j+N-1)%N; CP e; bool eany = false; for (int l = closed ? 0 : 1; l < M; ++l) { int k = (l+M-1)%M; CP c = one(p[i],p[j],q[k],q[l],i,k); if (!eany || c.d < e.d) e = c; eany = true; } if (!any || e.d < m.d) m = e; any = true; } return m; }
template <int N, int M> static double mind(const std::array<P2,N>& p, const std::array<P2,M>& q, bool closed) { double m = 0; bool any = false;
  for (int j = closed ? 0 : 1; j < N; ++j) { int i = (j+N-1)%N; double e = 0; bool eany = false; for (int l = closed ? 0 : 1; l < M; ++l) { int k = (l+M-1)%M; double c = segment_segment_distance_sqrd(p[i],p[j],q[k],q[l],EXACT()); if (!eany || c < e) e = c; eany = true; } if (!any || e < m) m = e; any = true; } return m; }
static const double A3[6] = {0,0, 4,1, 1,3}, B3[6] = {0,0, 2,-1, 3,2};
static const double A6[12] = {0,0, 3,1, 5,0, 6,4, 2,6, -2,3}, B6[12] = {0,0, 2,-1, 4,1, 3,4, 1,3, -1,2};
static const double A12[24] = {0,0, 3,-1, 6,-2, 9,0, 12,3, 11,6, 8,8, 5,9, 2,10, -1,8, -3,5, -2,2}, B12[24] = {0,0, 2,-1, 5,-2, 8,-1, 9,2, 10,5, 7,7, 4,8, 1,8, -2,7, -4,4, -2,1};
typedef std::array<P2,6> L6;
static void put(double* o, const CP& c) { o[0] = c.d; o[1] = c.i; o[2] = c.j; o[3] = c.s; o[4] = c.t; o[5] = c.x1; o[6] = c.y1; o[7] = c.x2; o[8] = c.y2; }
// distance, |c1-c2|^2, and how far the reported points are from the reported positions on the reported edges
template <int N, class F> static void check(F f, double* o, const std::array<P2,N>& p, const std::array<P2,N>& q, bool closed) { std::size_t i, j; double s, t; P2 c1, c2; o[0] = f(p, q, i, j, s, t, c1, c2, EXACT()); o[1] = d2sq(c1[0],c1[1],c2[0],c2[1]);
  std::size_t k = (i+1)%N, l = (j+1)%N; o[2] = d2sq(c1[0], c1[1], p[i][0]+s*(p[k][0]-p[i][0]), p[i][1]+s*(p[k][1]-p[i][1])); o[3] = d2sq(c2[0], c2[1], q[j][0]+t*(q[l][0]-q[j][0]), q[j][1]+t*(q[l][1]-q[j][1])); }
#define DIRS(M) M(e, 8, 9, 1) M(w, -9, -8, -1) M(n, 1, 2, 9) M(s, 1, 2, -8) M(ne, 7, 8, 6) M(nw, -6, -5, 6) M(sw, -6, -5, -4) M(se, 6, 7, -4)
#define CLOSE(f, a, b) double s, t; std::size_t i, j; P2 c1, c2; o[0] = f(a, b, i, j, s, t, c1, c2, EXACT()); o[1] = i; o[2] = j; o[3] = s; o[4] = t; o[5] = c1[0]; o[6] = c1[1]; o[7] = c2[0]; o[8] = c2[1]
#define DOM(D_, lo, hi) PRE(D_, double x) { return x >= lo && x <= hi; }
#define DOMO(D_, lo, hi) PRE(D_, double*, double x) { return x >= lo && x <= hi; }
//@ anchor geometrix/algorithm/distance/polyline_polyline_distance.hpp polyline_polyline_distance
#define M1(D_, lo, hi, y) \
DOM(lld3##D_, lo, hi) LIB(double, lld3##D_, double x) { return polyline_polyline_distance(seq<3>(A3,0,0), seq<3>(B3,x,y), EXACT()); } \
REF(double, lld3##D_, double x) { return std::sqrt(mind<3,3>(seq<3>(A3,0,0), seq<3>(B3,x,y), false)); } \
DOM(lld6##D_, lo, hi) LIB(double, lld6##D_, double x) { return polyline_polyline_distance_sqrd(seq<6>(A6,0,0), seq<6>(B6,x,y), EXACT()); } \
REF(double, lld6##D_, double x) { return mind<6,6>(seq<6>(A6,0,0), seq<6>(B6,x,y), false); } \
DOM(lld12##D_, lo*2, hi*2) LIB(double, lld12##D_, double x) { return polyline_polyline_distance_sqrd(seq<12>(A12,0,0), seq<12>(B12,x,y*2), EXACT()); } \
REF(double, lld12##D_, double x) { return mind<12,12>(seq<12>(A12,0,0), seq<12>(B12,x,y*2), false); }
DIRS(M1)
//@ anchor geometrix/algorithm/distance/polygon_polygon_distance.hpp polygon_polygon_distance
#define M2(D_, lo, hi, y) \
DOM(ggd3##D_, lo, hi) LIB(double, ggd3##D_, double x) { return polygon_polygon_distance(seq<3>(A3,0,0), seq<3>(B3,x,y), EXACT()); } \
REF(double, ggd3##D_, double x) { return std::sqrt(mind<3,3>(seq<3>(A3,0,0), seq<3>(B3,x,y), true)); } \
DOM(ggd6##D_, lo, hi) LIB(double, ggd6##D_, double x) { return polygon_polygon_distance_sqrd(seq<6>(A6,0,0), seq<6>(B6,x,y), EXACT()); } \
REF(double, ggd6##D_, double x) { return mind<6,6>(seq<6>(A6,0,0), seq<6>(B6,x,y), true); } \
DOM(ggd12##D_, lo*2, hi*2) LIB(double, ggd12##D_, double x) { return polygon_polygon_distance_sqrd(seq<12>(A12,0,0), seq<12>(B12,x,y*2), EXACT()); } \
REF(double, ggd12##D_, double x) { return mind<12,12>(seq<12>(A12,0,0), seq<12>(B12,x,y*2), true); }
DIRS(M2)
//@ anchor geometrix/algorithm/distance/polyline_polyline_closest_point.hpp polyline_polyline_closest_point
// (distance and the two points: on a shared vertex either adjacent edge may be named)
#define M3(D_, lo, hi, y) \
DOMO(llc3##D_, lo, hi) LIB(void, llc3##D_, double* o, double x) { CLOSE(polyline_polyline_closest_point, (seq<3>(A3,0,0)), (seq<3>(B3,x,y))); } \
REF(void, llc3##D_, double* o, double x) { put(o, all<3,3>(seq<3>(A3,0,0), seq<3>(B3,x,y), false)); } \
DOMO(llc6##D_, lo, hi) LIB(void, llc6##D_, double* o, double x) { check<6>(polyline_polyline_closest_point<L6,L6,double,P2,EXACT>, o, seq<6>(A6,0,0), seq<6>(B6,x,y), false); } \
REF(void, llc6##D_, double* o, double x) { CP c = all<6,6>(seq<6>(A6,0,0), seq<6>(B6,x,y), false); o[0] = c.d; o[1] = c.d; o[2] = o[3] = 0; }
DIRS(M3)
//@ anchor geometrix/algorithm/distance/polygon_polygon_closest_point.hpp polygon_polygon_closest_point
#define M4(D_, lo, hi, y) \
DOMO(ggc3##D_, lo, hi) LIB(void, ggc3##D_, double* o, double x) { CLOSE(polygon_polygon_closest_point, (seq<3>(A3,0,0)), (seq<3>(B3,x,y))); } \
REF(void, ggc3##D_, double* o, double x) { put(o, all<3,3>(seq<3>(A3,0,0), seq<3>(B3,x,y), true)); } \
DOMO(ggc6##D_, lo, hi) LIB(void, ggc6##D_, double* o, double x) { check<6>(polygon_polygon_closest_point<L6,L6,double,P2,EXACT>, o, seq<6>(A6,0,0), seq<6>(B6,x,y), true); } \
REF(void, ggc6##D_, double* o, double x) { CP c = all<6,6>(seq<6>(A6,0,0), seq<6>(B6,x,y), true); o[0] = c.d; o[1] = c.d; o[2] = o[3] = 0; }
DIRS(M4)
// the nearest pair is the two first vertices
//@ anchor geometrix/algorithm/distance/polyline_polyline_closest_point.hpp polyline_polyline_closest_point
static const double F6[12] = {0,0, -1,-2, -3,-4, -1,-6, 1,-7, 3,-8};
PRE(llc6first, double*, double x) { return x >= -0.5 && x <= -0.25; }
LIB(void, llc6first, double* o, double x) { check<6>(polyline_polyline_closest_point<L6,L6,double,P2,EXACT>, o, seq<6>(A6,0,0), seq<6>(F6,x,-2), false); }
REF(void, llc6first, double* o, double x) { CP c = all<6,6>(seq<6>(A6,0,0), seq<6>(F6,x,-2), false); o[0] = c.d; o[1] = c.d; o[2] = o[3] = 0; }
