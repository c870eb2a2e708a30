#include "geo.hpp"
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <array>
template <int N> static std::array<P2,N> seq(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
// specification: least value over the N (closed) or N-1 (open) edges of the point-segment distance decided by P11
static double psd(double px, double py, const double* p, int i, int j) { return point_segment_distance_sqrd(P2(px,py), P2(p[2*i],p[2*i+1]), P2(p[2*j],p[2*j+1])); }
template <int N> static double rmin(double px, double py, const double* p, bool closed, int* arg = 0) { double m = 0; bool any = false; int b = 0;
  for (int j = closed ? 0 : 1; j < N; ++j) { int i = (j+N-1)%N; double d = psd(px,py,p,i,j); if (!any || d < m) { m = d; b = j; } any = true; } if (arg) *arg = b; return m; }
template <int N> static void rcp(double* o, double px, double py, const double* p, bool closed) { int j; rmin<N>(px,py,p,closed,&j); int i = (j+N-1)%N;
  for (int k = 0; k < N; ++k) if (k == j) { int h = (k+N-1)%N; auto q = point_segment_closest_point(P2(px,py), P2(p[2*h],p[2*h+1]), P2(p[2*k],p[2*k+1])); o[0] = q[0]; o[1] = q[1]; } }
template <int N> static bool distinct(const double* p, bool closed) { bool r = true; for (int i = 0; i < (closed ? N : N-1); ++i) { int j = (i+1)%N; r = r && (p[2*i] != p[2*j] || p[2*i+1] != p[2*j+1]); } return r; }
#define PG(N) \
LIB(double, ppd##N, double px, double py, const double* p) { return point_polygon_distance_sqrd(P2(px,py), seq<N>(p)); } \
REF(double, ppd##N, double px, double py, const double* p) { return rmin<N>(px,py,p,true); } \
LIB(double, ppr##N, double px, double py, const double* p) { return point_polygon_distance(P2(px,py), seq<N>(p)); } \
REF(double, ppr##N, double px, double py, const double* p) { return std::sqrt(rmin<N>(px,py,p,true)); } \
LIB(double, pld##N, double px, double py, const double* p) { return point_polyline_distance_sqrd(P2(px,py), seq<N>(p)); } \
REF(double, pld##N, double px, double py, const double* p) { return rmin<N>(px,py,p,false); } \
LIB(double, plr##N, double px, double py, const double* p) { return point_polyline_distance(P2(px,py), seq<N>(p)); } \
REF(double, plr##N, double px, double py, const double* p) { return std::sqrt(rmin<N>(px,py,p,false)); } \
LIB(void, ppc##N, double* o, double px, double py, const double* p) { auto q = point_polygon_closest_point(P2(px,py), seq<N>(p)); o[0] = q[0]; o[1] = q[1]; } \
REF(void, ppc##N, double* o, double px, double py, const double* p) { rcp<N>(o,px,py,p,true); } \
PRE(ppc##N, double*, double px, double py, const double* p) { return distinct<N>(p,true); } \
LIB(void, plc##N, double* o, double px, double py, const double* p) { auto q = point_polyline_closest_point(P2(px,py), seq<N>(p)); o[0] = q[0]; o[1] = q[1]; } \
REF(void, plc##N, double* o, double px, double py, const double* p) { rcp<N>(o,px,py,p,false); } \
PRE(plc##N, double*, double px, double py, const double* p) { return distinct<N>(p,false); }
//@ anchor geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance / point_polyline_distance / closest points
PG(3) PG(2)
