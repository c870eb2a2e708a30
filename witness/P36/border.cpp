#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
template <int N> static std::array<P2,N> at(const double (&p)[2*N]) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i], p[2*i+1]); return a; }
static const double L6[12] = {0,0, 8,0, 8,6, 4,6, 4,3, 0,3}; // counter clockwise, perimeter 28
static const double X6[7] = {0,8,14,18,21,25,28};
static double e2(double x, double y, const P2& a, const P2& b) { double dx = b[0]-a[0], dy = b[1]-a[1], l = dx*dx+dy*dy, s = (x-a[0])*dx + (y-a[1])*dy;
  if (s <= 0) return (x-a[0])*(x-a[0]) + (y-a[1])*(y-a[1]); if (s >= l) return (x-b[0])*(x-b[0]) + (y-b[1])*(y-b[1]); double c = (x-a[0])*dy - (y-a[1])*dx; return c*c/l; }
static int closest(double x, double y) { auto g = at<6>(L6); int r = 0; double m = e2(x,y,g[0],g[1]); for (int i = 1; i < 6; ++i) { double d = e2(x,y,g[i],g[(i+1)%6]); if (d < m) { m = d; r = i; } } return r; }
// the point at arc length s (taken round the border) from corner 0
static P2 pos(double s) { if (s < 0) s += 28; if (s >= 28) s -= 28; auto g = at<6>(L6); for (int i = 0; i < 6; ++i) if (s < X6[i+1]) { double k = (s - X6[i]) / (X6[i+1] - X6[i]); return P2(g[i][0] + k*(g[(i+1)%6][0]-g[i][0]), g[i][1] + k*(g[(i+1)%6][1]-g[i][1])); } return g[0]; }
//@ anchor geometrix/algorithm/point_sequence/find_subsequence.hpp find_closest_polygon_border_segment / find_containing_polygon_border_segment
#define FC(n, X, Y) LIB(int, fcl##n, double u, double v) { return (int)find_closest_polygon_border_segment(at<6>(L6), P2(X,Y)); } REF(int, fcl##n, double u, double v) { return closest(X,Y); } \
LIB(int, fcc##n, double u, double v) { return (int)find_containing_or_closest_polygon_border_segment(at<6>(L6), P2(X,Y), EXACT()); } REF(int, fcc##n, double u, double v) { return closest(X,Y); } \
LIB(int, fco##n, double u, double v) { auto r = find_containing_polygon_border_segment(at<6>(L6), P2(X,Y), EXACT()); return r ? (int)*r : -1; } REF(int, fco##n, double u, double v) { auto g = at<6>(L6); int r = -1; for (int i = 5; i >= 0; --i) if (e2(X,Y,g[i],g[(i+1)%6]) == 0) r = i; return r; }
FC(a, u, 1.) FC(b, u, 4.) FC(c, 4., u) FC(d, 6., u) FC(e, u, 0.) FC(f, 0., u) FC(g, u, 6.)
// the stretch of border around a point on it: both ends at the given distance along the border, and every corner strictly between, in order
#define SUB(n, ARC, PRESET) LIB(void, sub##n, double* o, double u, double e) { P2 p = pos(ARC); auto r = polygon_subsequence(at<6>(L6), p, e, EXACT()); o[0] = r.size(); for (int i = 0; i < 8; ++i) { o[1+2*i] = i < (int)r.size() ? r[i][0] : -1; o[2+2*i] = i < (int)r.size() ? r[i][1] : -1; } } \
REF(void, sub##n, double* o, double u, double e) { double s = ARC; P2 out[16]; int k = 0; auto g = at<6>(L6); out[k++] = pos(s - e); for (int t = -1; t <= 1; ++t) for (int i = 0; i < 6; ++i) { double c = X6[i] + 28*t; if (s - e < c && c < s + e) out[k++] = g[i]; } out[k++] = pos(s + e); \
  o[0] = k; for (int i = 0; i < 8; ++i) { o[1+2*i] = i < k ? out[i][0] : -1; o[2+2*i] = i < k ? out[i][1] : -1; } } \
PRE(sub##n, double*, double u, double e) { return PRESET; }
//@ anchor geometrix/algorithm/point_sequence/find_subsequence.hpp polygon_subsequence
SUB(a, u, u > 0 && u < 8 && e > 0 && e < 6) SUB(b, u, u > 18 && u < 21 && e > 0 && e < 8) SUB(c, 5., e > 0 && e < 14) SUB(d, 26., e > 0 && e < 14) SUB(e, 8., e > 0 && e < 14) SUB(f, 0., e > 0 && e < 14)
