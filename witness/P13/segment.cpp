#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <array>
template <int N> static std::array<P2,N> seq(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
static P2 pt(const double* p, int i) { return P2(p[2*i],p[2*i+1]); }
// specification: least over the edges of the segment-segment distance decided by P12; the first of the nearest edges is reported
static double ssd(const P2& a, const P2& b, const P2& c, const P2& d) { return segment_segment_distance_sqrd(a,b,c,d,EXACT()); }
template <int N> static double smin(const P2& a, const P2& b, const double* p, bool closed) { double m = 0; bool any = false;
  for (int j = closed ? 0 : 1; j < N; ++j) { int i = (j+N-1)%N; double d = ssd(a,b,pt(p,i),pt(p,j)); if (!any || d < m) m = d; any = true; } return m; }
struct CP { double d, i, s, t, x1, y1, x2, y2; };
static CP one(const P2& a, const P2& b, const P2& c, const P2& d, double i) { CP r; P2 c1, c2; r.d = segment_segment_closest_point(a,b,c,d,r.s,r.t,c1,c2,EXACT()); r.i = i; r.x1 = c1[0]; r.y1 = c1[1]; r.x2 = c2[0]; r.y2 = c2[1]; return r; }
template <int N> static CP scp(const P2& a, const P2& b, const double* p, bool closed) { CP m; bool any = false;
  for (int j = closed ? 0 : 1; j < N; ++j) { int i = (j+N-1)%N; CP c = one(a,b,pt(p,i),pt(p,j),i); if (!any || c.d < m.d) m = c; any = true; } return m; }
static void put(double* o, const CP& c) { o[0] = c.d; o[1] = c.i; o[2] = c.s; o[3] = c.t; o[4] = c.x1; o[5] = c.y1; o[6] = c.x2; o[7] = c.y2; }
// general position of the coordinates keeps the case analysis small: the query segment runs from the origin along x
#define SEG P2 a(0,0), b(w,0)
#define SP(N) \
LIB(double, spd##N, double w, const double* p) { SEG; return segment_polygon_distance_sqrd(a, b, seq<N>(p), EXACT()); } \
REF(double, spd##N, double w, const double* p) { SEG; return smin<N>(a,b,p,true); } \
LIB(double, sps##N, double w, const double* p) { SEG; return segment_polygon_distance(S2(a, b), seq<N>(p), EXACT()); } \
REF(double, sps##N, double w, const double* p) { SEG; return std::sqrt(smin<N>(a,b,p,true)); } \
LIB(double, sld##N, double w, const double* p) { SEG; return segment_polyline_distance_sqrd(a, b, seq<N>(p), EXACT()); } \
REF(double, sld##N, double w, const double* p) { SEG; return smin<N>(a,b,p,false); } \
LIB(double, sls##N, double w, const double* p) { SEG; return segment_polyline_distance(S2(a, b), seq<N>(p), EXACT()); } \
REF(double, sls##N, double w, const double* p) { SEG; return std::sqrt(smin<N>(a,b,p,false)); } \
LIB(void, spc##N, double* o, double w, const double* p) { SEG; std::size_t i; double s, t; P2 c1, c2; o[0] = segment_polygon_closest_point(a, b, seq<N>(p), i, s, t, c1, c2, EXACT()); o[1] = i; o[2] = s; o[3] = t; o[4] = c1[0]; o[5] = c1[1]; o[6] = c2[0]; o[7] = c2[1]; } \
REF(void, spc##N, double* o, double w, const double* p) { SEG; put(o, scp<N>(a,b,p,true)); } \
LIB(void, slc##N, double* o, double w, const double* p) { SEG; std::size_t i; double s, t; P2 c1, c2; o[0] = segment_polyline_closest_point(a, b, seq<N>(p), i, s, t, c1, c2, EXACT()); o[1] = i; o[2] = s; o[3] = t; o[4] = c1[0]; o[5] = c1[1]; o[6] = c2[0]; o[7] = c2[1]; } \
REF(void, slc##N, double* o, double w, const double* p) { SEG; put(o, scp<N>(a,b,p,false)); }
//@ anchor geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance / segment_polyline_distance / closest points
SP(3)
