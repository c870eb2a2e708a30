#include "geo.hpp"
#include <array>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
typedef sphere<2, P2> C2; typedef std::size_t U;
template <int N> static std::array<P2,N> at(const double (&p)[2*N], double x, double y) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i] + x, p[2*i+1] + y); return a; }
static double tr(const P2& p, const P2& q, const P2& r) { return (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0]); }
static bool onbox(const P2& p, const P2& a, const P2& b) { double lx = a[0] < b[0] ? a[0] : b[0], hx = a[0] < b[0] ? b[0] : a[0], ly = a[1] < b[1] ? a[1] : b[1], hy = a[1] < b[1] ? b[1] : a[1]; return lx <= p[0] && p[0] <= hx && ly <= p[1] && p[1] <= hy; }
// two closed segments have a point in common
static bool meet(const P2& a, const P2& b, const P2& c, const P2& d) { double o1 = tr(a,b,c), o2 = tr(a,b,d), o3 = tr(c,d,a), o4 = tr(c,d,b);
  return (o1*o2 < 0 && o3*o4 < 0) || (o1 == 0 && onbox(c,a,b)) || (o2 == 0 && onbox(d,a,b)) || (o3 == 0 && onbox(a,c,d)) || (o4 == 0 && onbox(b,c,d)); }
static const double L5[10] = {0,0, 6,2, 10,0, 12,8, 4,12}, T3[6] = {0,0, 8,2, 2,6}, Q4[8] = {0,0, 4,1, 5,5, -1,4}, D4[8] = {0,-3, 3,0, 0,3, -3,0};
// ---- every segment of the polyline that has a point in common with the query is reported, in order, until the visitor asks to stop
#define SPL(n, A, B) LIB(void, spl##n, double* o, double u) { P2 a A, b B; int k = 0, bits = 0; bool ord = true; int last = -1; auto v = [&](intersection_type, U i, U j, const P2&, const P2&) { ord = ord && (int)i > last && j == i + 1; last = i; bits |= 1 << i; return false; }; o[0] = segment_polyline_intersect(a, b, at<5>(L5,0,0), v, EXACT()); o[1] = bits; o[2] = ord; (void)k; \
  int first = -1, calls = 0; o[3] = segment_polyline_intersect(S2(a, b), at<5>(L5,0,0), [&](intersection_type, U i, U, const P2&, const P2&) { if (!calls++) first = i; return true; }, EXACT()); o[4] = first; o[5] = calls; } \
REF(void, spl##n, double* o, double u) { P2 a A, b B; int bits = 0, first = -1; auto g = at<5>(L5,0,0); for (int i = 0; i < 4; ++i) if (meet(a, b, g[i], g[i+1])) { bits |= 1 << i; if (first < 0) first = i; } o[0] = bits != 0; o[1] = bits; o[2] = 1; o[3] = bits != 0; o[4] = first; o[5] = bits != 0; }
//@ anchor geometrix/algorithm/intersection/segment_polyline_intersection.hpp segment_polyline_intersect
SPL(a, (u,-1), (u,13)) SPL(b, (-2,u), (14,u)) SPL(c, (u,u), (12,0)) SPL(d, (u,-u), (u+4,6)) SPL(e, (0,0), (u,4)) SPL(f, (6+u,2), (10,u))
// ---- every pair of meeting segments of two polylines is reported until the visitor asks to stop
static const double M3[6] = {0,0, 4,4, 8,-2}, L4[8] = {0,0, 6,2, 10,0, 4,9};
#define PPL(n, X, Y) LIB(void, ppl##n, double* o, double u) { int bits = 0, calls = 0; o[0] = polyline_polyline_intersect(at<3>(M3,X,Y), at<4>(L4,0,0), [&](intersection_type, U i, U j, U k, U l, const P2&, const P2&) { if (j == i+1 && l == k+1) bits |= 1 << (4*i + k); return false; }, EXACT()); o[1] = bits; \
  int first = -1; o[2] = polyline_polyline_intersect(at<3>(M3,X,Y), at<4>(L4,0,0), [&](intersection_type, U i, U, U k, U, const P2&, const P2&) { if (!calls++) first = 4*i + k; return true; }, EXACT()); o[3] = first; o[4] = calls; } \
REF(void, ppl##n, double* o, double u) { int bits = 0, first = -1; auto a = at<3>(M3,X,Y); auto b = at<4>(L4,0,0); for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) if (meet(a[i], a[i+1], b[k], b[k+1])) { bits |= 1 << (4*i + k); if (first < 0) first = 4*i + k; } o[0] = o[2] = bits != 0; o[1] = bits; o[3] = first; o[4] = bits != 0; }
//@ anchor geometrix/algorithm/intersection/polyline_polyline_intersection.hpp polyline_polyline_intersect
PPL(a, u, 0) PPL(b, 3, u) PPL(c, u, 5) PPL(d, u, u)
// ---- a circle and a polyline: segments that meet the circle line are reported
static double lensq(const P2& a, const P2& b) { return (b[0]-a[0])*(b[0]-a[0]) + (b[1]-a[1])*(b[1]-a[1]); }
static bool rim(const P2& a, const P2& b, const P2& c, double r) { double da = lensq(a,c), db = lensq(b,c), l = lensq(a,b), t = (c[0]-a[0])*(b[0]-a[0]) + (c[1]-a[1])*(b[1]-a[1]), x = tr(a,b,c); double lo = t <= 0 ? da : t >= l ? db : x*x/l, hi = da < db ? db : da; return lo <= r*r && r*r <= hi; }
#define CPL(n, X, Y, R) LIB(void, cpl##n, double* o, double u) { int bits = 0, calls = 0, first = -1; C2 c(P2(X,Y), R); o[0] = sphere_polyline_intersect(c, at<5>(L5,0,0), [&](segment_sphere_intersection_result, U i, U j, double, const P2&, double, const P2&) { if (j == i+1) bits |= 1 << i; return false; }, EXACT()); o[1] = bits; \
  o[2] = sphere_polyline_intersect(c, at<5>(L5,0,0), [&](segment_sphere_intersection_result, U i, U, double, const P2&, double, const P2&) { if (!calls++) first = i; return true; }, EXACT()); o[3] = first; o[4] = calls; } \
REF(void, cpl##n, double* o, double u) { int bits = 0, first = -1; auto g = at<5>(L5,0,0); for (int i = 0; i < 4; ++i) if (rim(g[i], g[i+1], P2(X,Y), R)) { bits |= 1 << i; if (first < 0) first = i; } o[0] = o[2] = bits != 0; o[1] = bits; o[3] = first; o[4] = bits != 0; } \
PRE(cpl##n, double*, double u) { return (R) > 0; }
//@ anchor geometrix/algorithm/intersection/sphere_polyline_intersection.hpp sphere_polyline_intersect
CPL(a, 6, 6, u) CPL(b, u, 5, 4.) CPL(c, 7, u, 3.) CPL(d, u, u, 5.) CPL(e, 10, 4, u)
// ---- segment and triangle
static bool intri(const P2& p, const P2& a, const P2& b, const P2& c) { double x = tr(a,b,p), y = tr(b,c,p), z = tr(c,a,p); return (x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0); }
#define STB(n, A, B) LIB(bool, stb##n, double u, double v) { P2 a A, b B; auto t = at<3>(T3,0,0); return segment_triangle_intersect(a, b, t[0], t[1], t[2]); } \
REF(bool, stb##n, double u, double v) { P2 a A, b B; auto t = at<3>(T3,0,0); return intri(a,t[0],t[1],t[2]) || meet(a,b,t[0],t[1]) || meet(a,b,t[1],t[2]) || meet(a,b,t[2],t[0]); } \
LIB(bool, str##n, double u, double v) { P2 a A, b B; auto t = at<3>(T3,0,0); return segment_triangle_intersect(S2(a, b), t[2], t[1], t[0]); } \
REF(bool, str##n, double u, double v) { P2 a A, b B; auto t = at<3>(T3,0,0); return intri(a,t[0],t[1],t[2]) || meet(a,b,t[0],t[1]) || meet(a,b,t[1],t[2]) || meet(a,b,t[2],t[0]); }
//@ anchor geometrix/algorithm/intersection/segment_triangle_intersection.hpp segment_triangle_intersect (yes or no)
STB(a, (u,v), (u+3,v+1)) STB(b, (u,v), (u,v+4)) STB(c, (u,3), (4,v)) STB(d, (u,v), (9,5))
// with points: the part of the segment inside the closed triangle is a segment; its ends are returned
static void clip(double* o, const P2& a, const P2& b, const P2& t0, const P2& t1, const P2& t2) { double lo = 0, hi = 1; bool any = true; const P2* t[3] = {&t0,&t1,&t2};
  for (int i = 0; i < 3; ++i) { double fa = tr(*t[i], *t[(i+1)%3], a), fb = tr(*t[i], *t[(i+1)%3], b); if (fa < 0 && fb < 0) any = false; else if (fa < 0) { double s = fa/(fa-fb); lo = lo < s ? s : lo; } else if (fb < 0) { double s = fa/(fa-fb); hi = s < hi ? s : hi; } }
  if (!any || hi < lo) { o[0] = 0; return; } double x0 = a[0] + lo*(b[0]-a[0]), y0 = a[1] + lo*(b[1]-a[1]), x1 = a[0] + hi*(b[0]-a[0]), y1 = a[1] + hi*(b[1]-a[1]);
  if (lo == hi) { o[0] = 1; o[1] = x0; o[2] = y0; } else { o[0] = 2; o[1] = x0 + x1; o[2] = y0 + y1; o[3] = x0*x1; o[4] = y0*y1; } }
#define STP(n, A, B) LIB(void, stp##n, double* o, double u) { P2 a A, b B, x[2]; auto t = at<3>(T3,0,0); U k = segment_triangle_intersect(a, b, t[0], t[1], t[2], x, EXACT()); o[0] = k; for (int i = 1; i < 5; ++i) o[i] = 0; if (k == 1) { o[1] = x[0][0]; o[2] = x[0][1]; } if (k == 2) { o[1] = x[0][0] + x[1][0]; o[2] = x[0][1] + x[1][1]; o[3] = x[0][0]*x[1][0]; o[4] = x[0][1]*x[1][1]; } } \
REF(void, stp##n, double* o, double u) { P2 a A, b B; auto t = at<3>(T3,0,0); for (int i = 1; i < 5; ++i) o[i] = 0; clip(o, a, b, t[0], t[1], t[2]); }
//@ anchor geometrix/algorithm/intersection/segment_triangle_intersection.hpp segment_triangle_intersect (points)
STP(a, (u,-1), (u,9)) STP(b, (-1,u), (10,u)) STP(c, (u,3), (4,9)) STP(d, (u,u), (3,2)) STP(e, (3,3), (u,0)) STP(f, (u,1), (u+2,3))
// ---- two convex polygons: interiors overlap
#define CVX(n, X, Y) LIB(bool, cvx##n, double u, double v) { return convex_polygons_intersection(at<3>(T3,0,0), at<4>(Q4,X,Y), EXACT()); } \
LIB(bool, cvr##n, double u, double v) { return convex_polygons_intersection(at<4>(Q4,X,Y), at<3>(T3,0,0), EXACT()); } \
LIB(bool, cvd##n, double u, double v) { return convex_polygons_intersection(at<4>(D4,0,0), at<4>(Q4,X,Y), EXACT()); }
template <int N, int M> static bool ovl(const std::array<P2,N>& a, const std::array<P2,M>& b) { bool r = true;
  for (int i = 0; i < N; ++i) { bool out = true; for (int k = 0; k < M; ++k) out = out && tr(a[i], a[(i+1)%N], b[k]) <= 0; r = r && !out; }
  for (int i = 0; i < M; ++i) { bool out = true; for (int k = 0; k < N; ++k) out = out && tr(b[i], b[(i+1)%M], a[k]) <= 0; r = r && !out; } return r; }
#define CVR(n, X, Y) REF(bool, cvx##n, double u, double v) { return ovl<3,4>(at<3>(T3,0,0), at<4>(Q4,X,Y)); } REF(bool, cvr##n, double u, double v) { return ovl<3,4>(at<3>(T3,0,0), at<4>(Q4,X,Y)); } REF(bool, cvd##n, double u, double v) { return ovl<4,4>(at<4>(D4,0,0), at<4>(Q4,X,Y)); }
//@ anchor geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp convex_polygons_intersection
CVX(a, u, v) CVR(a, u, v)
