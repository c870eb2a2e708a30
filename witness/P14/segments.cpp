#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
// classification from the four orientations; the point at the ratio in which the second line cuts the first segment
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int cls(double o1, double o2, double o3, double o4) { int a = sg(o1), b = sg(o2), c = sg(o3), d = sg(o4);
  if ((a > 0 && b > 0) || (a < 0 && b < 0) || (c > 0 && d > 0) || (c < 0 && d < 0)) return e_non_crossing;
  return (a == 0 || b == 0 || c == 0 || d == 0) ? e_endpoint : e_crossing; }
#define Q const double* a, const double* b, const double* c, const double* d
#define O1 turn(a[0],a[1],b[0],b[1],c[0],c[1])
#define O2 turn(a[0],a[1],b[0],b[1],d[0],d[1])
#define O3 turn(c[0],c[1],d[0],d[1],a[0],a[1])
#define O4 turn(c[0],c[1],d[0],d[1],b[0],b[1])
static P2 p(const double* a) { return P2(a[0],a[1]); }
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection
PRE(cross2, double* o, Q) { return crs(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1]) != 0; }
LIB(void, cross2, double* o, Q) { P2 x[2]; int r = segment_segment_intersection(p(a),p(b),p(c),p(d),x,EXACT()); o[0] = r; o[1] = o[2] = 0; if (r) { o[1] = x[0][0]; o[2] = x[0][1]; } }
REF(void, cross2, double* o, Q) { int r = cls(O1,O2,O3,O4); o[0] = r; o[1] = o[2] = 0; if (r) { double s = O3/(O3-O4); o[1] = a[0]+s*(b[0]-a[0]); o[2] = a[1]+s*(b[1]-a[1]); } }
PRE(cross2s, double* o, Q) { return crs(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1]) != 0; }
LIB(void, cross2s, double* o, Q) { P2 x[2]; int r = segment_segment_intersection(S2(p(a),p(b)),S2(p(c),p(d)),x,EXACT()); o[0] = r; o[1] = o[2] = 0; if (r) { o[1] = x[0][0]; o[2] = x[0][1]; } }
REF(void, cross2s, double* o, Q) { int r = cls(O1,O2,O3,O4); o[0] = r; o[1] = o[2] = 0; if (r) { double s = O3/(O3-O4); o[1] = a[0]+s*(b[0]-a[0]); o[2] = a[1]+s*(b[1]-a[1]); } }
PRE(cross2n, Q) { return crs(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1]) != 0; }
LIB(int, cross2n, Q) { return segment_segment_intersection(p(a),p(b),p(c),p(d),(P2*)nullptr,EXACT()); }
REF(int, cross2n, Q) { return cls(O1,O2,O3,O4); }
// exchanging or reversing does not change whether they meet
PRE(exchange, Q) { return crs(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1]) != 0; }
LIB(int, exchange, Q) { return segment_segment_intersection(p(a),p(b),p(c),p(d),(P2*)nullptr,EXACT()); }
REF(int, exchange, Q) { return segment_segment_intersection(p(d),p(c),p(a),p(b),(P2*)nullptr,EXACT()); }
// parallel, on distinct lines: d - c = m (b - a)
#define PAR double ax, double ay, double bx, double by, double cx, double cy, double m
#define PPTS P2 A(ax,ay), B(bx,by), C(cx,cy), D(cx+m*(bx-ax),cy+m*(by-ay))
PRE(parallel, PAR) { return turn(ax,ay,bx,by,cx,cy) != 0 && d2sq(ax,ay,bx,by) > 0; }
LIB(int, parallel, PAR) { PPTS; return segment_segment_intersection(A,B,C,D,(P2*)nullptr,EXACT()); }
REF(int, parallel, PAR) { return e_non_crossing; }
// collinear: c = a + k (b - a), d = a + m (b - a); they overlap (possibly in one point) when [k,m] meets [0,1]
#define COL double ax, double ay, double bx, double by, double k, double m
#define CPTS double ux = bx-ax, uy = by-ay; P2 A(ax,ay), B(bx,by), C(ax+k*ux,ay+k*uy), D(ax+m*ux,ay+m*uy)
static bool meet(double k, double m) { return !((k < 0 && m < 0) || (k > 1 && m > 1)); }
PRE(collinear, COL) { return d2sq(ax,ay,bx,by) > 0; }
LIB(int, collinear, COL) { CPTS; return segment_segment_intersection(A,B,C,D,(P2*)nullptr,EXACT()); }
REF(int, collinear, COL) { return meet(k,m) ? e_overlapping : e_non_crossing; }
// the reported pair spans the common part, in either order
PRE(overlap, double* o, COL) { return d2sq(ax,ay,bx,by) > 0 && meet(k,m); }
LIB(void, overlap, double* o, COL) { CPTS; P2 x[2]; segment_segment_intersection(A,B,C,D,x,EXACT()); double l = d2sq(ax,ay,bx,by), s = (ux*(x[0][0]-ax)+uy*(x[0][1]-ay))/l, t = (ux*(x[1][0]-ax)+uy*(x[1][1]-ay))/l;
  o[0] = s < t ? s : t; o[1] = s < t ? t : s; o[2] = crs(ux,uy,x[0][0]-ax,x[0][1]-ay); o[3] = crs(ux,uy,x[1][0]-ax,x[1][1]-ay); }
REF(void, overlap, double* o, COL) { double lo = k < m ? k : m, hi = k < m ? m : k; o[0] = lo < 0 ? 0 : lo; o[1] = hi > 1 ? 1 : hi; o[2] = o[3] = 0; }
//@ anchor geometrix/algorithm/bounding_box_intersection.hpp bounding_box_intersection
LIB(bool, bbi, Q) { return bounding_box_intersection(p(a),p(b),p(c),p(d),EXACT()); }
static double mn(double x, double y) { return x < y ? x : y; } static double mx(double x, double y) { return x < y ? y : x; }
REF(bool, bbi, Q) { for (int i = 0; i < 2; ++i) if (mx(a[i],b[i]) < mn(c[i],d[i]) || mx(c[i],d[i]) < mn(a[i],b[i])) return false; return true; }
LIB(bool, bbis, Q) { return bounding_box_intersection(S2(p(a),p(b)),S2(p(c),p(d)),EXACT()); }
REF(bool, bbis, Q) { for (int i = 0; i < 2; ++i) if (mx(a[i],b[i]) < mn(c[i],d[i]) || mx(c[i],d[i]) < mn(a[i],b[i])) return false; return true; }
// 3D: segments in general (skew) position do not meet
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection
static P3 p3(const double* a) { return P3(a[0],a[1],a[2]); }
PRE(skew3, Q) { double u[3], v[3], w[3]; for (int i = 0; i < 3; ++i) { u[i] = b[i]-a[i]; v[i] = d[i]-c[i]; w[i] = c[i]-a[i]; } return w[0]*(u[1]*v[2]-u[2]*v[1])+w[1]*(u[2]*v[0]-u[0]*v[2])+w[2]*(u[0]*v[1]-u[1]*v[0]) != 0; }
LIB(int, skew3, Q) { P3 x[2]; return segment_segment_intersection(p3(a),p3(b),p3(c),p3(d),x,EXACT()); }
REF(int, skew3, Q) { return e_non_crossing; }
// 3D coplanar, non-parallel: a, b = a + u, lines meeting at a + s u = c + t v
PRE(cross3, double* o, const double* a, const double* u, const double* v, double s, double t) { double n = (u[0]*u[0]+u[1]*u[1]+u[2]*u[2])*(v[0]*v[0]+v[1]*v[1]+v[2]*v[2])-(u[0]*v[0]+u[1]*v[1]+u[2]*v[2])*(u[0]*v[0]+u[1]*v[1]+u[2]*v[2]); return n > 0; }
LIB(void, cross3, double* o, const double* a, const double* u, const double* v, double s, double t) { double b[3], c[3], d[3]; for (int i = 0; i < 3; ++i) { b[i] = a[i]+u[i]; c[i] = a[i]+s*u[i]-t*v[i]; d[i] = c[i]+v[i]; }
  P3 x[2]; int r = segment_segment_intersection(p3(a),p3(b),p3(c),p3(d),x,EXACT()); o[0] = r; o[1] = o[2] = o[3] = 0; if (r) for (int i = 0; i < 3; ++i) o[1+i] = x[0][i]; }
REF(void, cross3, double* o, const double* a, const double* u, const double* v, double s, double t) { o[1] = o[2] = o[3] = 0; if (s < 0 || s > 1 || t < 0 || t > 1) { o[0] = e_non_crossing; return; }
  o[0] = (s == 0 || s == 1 || t == 0 || t == 1) ? e_endpoint : e_crossing; for (int i = 0; i < 3; ++i) o[1+i] = a[i]+s*u[i]; }
// 3D parallel: b = a + u, c = a + w, d = c + m u; off the line, then on it with c = a + k u
#define U2 (u[0]*u[0]+u[1]*u[1]+u[2]*u[2])
PRE(par3, const double* a, const double* u, const double* w, double m) { return U2 > 0 && sq(u[1]*w[2]-u[2]*w[1])+sq(u[2]*w[0]-u[0]*w[2])+sq(u[0]*w[1]-u[1]*w[0]) > 0; }
LIB(int, par3, const double* a, const double* u, const double* w, double m) { double b[3], c[3], d[3]; for (int i = 0; i < 3; ++i) { b[i] = a[i]+u[i]; c[i] = a[i]+w[i]; d[i] = c[i]+m*u[i]; } P3 x[2]; return segment_segment_intersection(p3(a),p3(b),p3(c),p3(d),x,EXACT()); }
REF(int, par3, const double* a, const double* u, const double* w, double m) { return e_non_crossing; }
PRE(col3, double* o, const double* a, const double* u, double k, double m) { return U2 > 0 && m != 0; }
LIB(void, col3, double* o, const double* a, const double* u, double k, double m) { double b[3], c[3], d[3]; for (int i = 0; i < 3; ++i) { b[i] = a[i]+u[i]; c[i] = a[i]+k*u[i]; d[i] = c[i]+m*u[i]; }
  P3 x[2]; int r = segment_segment_intersection(p3(a),p3(b),p3(c),p3(d),x,EXACT()); o[0] = r; for (int i = 0; i < 3; ++i) { o[1+i] = r ? x[0][i] : 0; o[4+i] = r == e_overlapping ? x[1][i] : 0; } }
REF(void, col3, double* o, const double* a, const double* u, double k, double m) { double lo = m < 0 ? k+m : k, hi = m < 0 ? k : k+m; for (int i = 1; i < 7; ++i) o[i] = 0; if (hi < 0 || lo > 1) { o[0] = e_non_crossing; return; }
  if (lo < 0) lo = 0; if (hi > 1) hi = 1; o[0] = lo == hi ? e_endpoint : e_overlapping; for (int i = 0; i < 3; ++i) { o[1+i] = a[i]+lo*u[i]; if (lo != hi) o[4+i] = a[i]+hi*u[i]; } }
