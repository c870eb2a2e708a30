#include "geo.hpp"
//@ anchor geometrix/utility/utilities.hpp is_collinear
LIB(bool, coll, double ax, double ay, double bx, double by, double cx, double cy, double t) { return is_collinear(P2(ax,ay), P2(bx,by), P2(cx,cy), TOL(t)); }
REF(bool, coll, double ax, double ay, double bx, double by, double cx, double cy, double t) { double d = turn(ax,ay,bx,by,cx,cy); return d <= t && d >= -t; }
PRE(coll, double, double, double, double, double, double, double t) { return t >= 0; }
//@ anchor geometrix/utility/utilities.hpp is_between
// every point of the line through A and B is A + k (B - A); off the line the answer is no
#define BTW(n, inc) \
LIB(bool, btw##n, double ax, double ay, double bx, double by, double k) { return is_between(P2(ax,ay), P2(bx,by), P2(ax + k*(bx-ax), ay + k*(by-ay)), inc, EXACT()); } \
PRE(btw##n, double ax, double ay, double bx, double by, double) { return ax != bx || ay != by; } \
LIB(bool, dot##n, double ax, double ay, double cx, double cy) { return is_between(P2(ax,ay), P2(ax,ay), P2(cx,cy), inc, EXACT()); } \
REF(bool, dot##n, double ax, double ay, double cx, double cy) { return inc && ax == cx && ay == cy; } \
LIB(bool, off##n, double ax, double ay, double bx, double by, double cx, double cy) { return is_between(P2(ax,ay), P2(bx,by), P2(cx,cy), inc, EXACT()); } \
REF(bool, off##n, double ax, double ay, double bx, double by, double cx, double cy) { return false; } \
PRE(off##n, double ax, double ay, double bx, double by, double cx, double cy) { return turn(ax,ay,bx,by,cx,cy) != 0; }
BTW(inc, true)
REF(bool, btwinc, double ax, double ay, double bx, double by, double k) { return k >= 0 && k <= 1; }
BTW(exc, false)
REF(bool, btwexc, double ax, double ay, double bx, double by, double k) { return k > 0 && k < 1; }
// the documented coordinate test, including tolerance
static bool le(double a, double b, double t) { return a < b || std::fabs(a-b) <= t; }
static bool lt(double a, double b, double t) { return a < b && std::fabs(a-b) > t; }
//@ anchor geometrix/utility/utilities.hpp is_collinear_point_between
LIB(bool, cpb, double ax, double ay, double bx, double by, double cx, double cy, bool inc, double t) { return is_collinear_point_between(P2(ax,ay), P2(bx,by), P2(cx,cy), inc, TOL(t)); }
REF(bool, cpb, double ax, double ay, double bx, double by, double cx, double cy, bool inc, double t) {
  bool vertical = std::fabs(ax-bx) <= t; double a = vertical ? ay : ax, b = vertical ? by : bx, c = vertical ? cy : cx;
  if (vertical && std::fabs(ay-by) <= t) return inc && std::fabs(ax-cx) <= t && std::fabs(ay-cy) <= t;
  if (inc) return (le(a,c,t) && le(c,b,t)) || (le(c,a,t) && le(b,c,t));
  return (lt(a,c,t) && lt(c,b,t)) || (lt(c,a,t) && lt(b,c,t)); }
PRE(cpb, double, double, double, double, double, double, bool, double t) { return t >= 0; }
//@ anchor geometrix/utility/utilities.hpp is_vector_between
// c strictly inside the counter-clockwise sweep from a to b
static bool vb(double ax, double ay, double bx, double by, double cx, double cy, bool inc) {
  double ab = crs(ax,ay,bx,by), ac = crs(ax,ay,cx,cy), cb = crs(cx,cy,bx,by), pab = ax*bx+ay*by, pac = ax*cx+ay*cy, pcb = cx*bx+cy*by;
  if ((cb == 0 && pcb >= 0) || (ac == 0 && pac >= 0)) return inc;
  if (ab == 0 && pab >= 0) return false;
  if (ab == 0) return ac > 0;
  if (ab > 0) return ac > 0 && cb > 0;
  return !(ac < 0 && cb < 0) ; }
LIB(bool, vecb, double ax, double ay, double bx, double by, double cx, double cy, bool inc) { return is_vector_between(V2(ax,ay), V2(bx,by), V2(cx,cy), inc, EXACT()); }
REF(bool, vecb, double ax, double ay, double bx, double by, double cx, double cy, bool inc) { return vb(ax,ay,bx,by,cx,cy,inc); }
PRE(vecb, double ax, double ay, double bx, double by, double cx, double cy, bool) { return crs(ax,ay,bx,by) != 0 && crs(ax,ay,cx,cy) != 0 && crs(cx,cy,bx,by) != 0; }
LIB(bool, vecedge, double ax, double ay, double bx, double by, double k, bool inc) { return is_vector_between(V2(ax,ay), V2(bx,by), V2(k*bx,k*by), inc, EXACT()); }
REF(bool, vecedge, double ax, double ay, double bx, double by, double k, bool inc) { return inc; }
PRE(vecedge, double ax, double ay, double bx, double by, double k, bool) { return k > 0; }
LIB(bool, vecedg2, double ax, double ay, double bx, double by, double k, bool inc) { return is_vector_between(V2(ax,ay), V2(bx,by), V2(k*ax,k*ay), inc, EXACT()); }
REF(bool, vecedg2, double ax, double ay, double bx, double by, double k, bool inc) { return inc; }
PRE(vecedg2, double ax, double ay, double bx, double by, double k, bool) { return k > 0; }
LIB(bool, vecemp, double ax, double ay, double k, double cx, double cy, bool inc) { return is_vector_between(V2(ax,ay), V2(k*ax,k*ay), V2(cx,cy), inc, EXACT()); }
REF(bool, vecemp, double ax, double ay, double k, double cx, double cy, bool inc) { return false; }
PRE(vecemp, double ax, double ay, double k, double cx, double cy, bool) { return k > 0 && crs(ax,ay,cx,cy) != 0; }
#define OPP(n, B, C) LIB(bool, n, double ax, double ay, double x, double y, double k, bool inc) { return is_vector_between(V2(ax,ay), V2 B, V2 C, inc, EXACT()); } \
REF(bool, n, double ax, double ay, double x, double y, double k, bool inc) { V2 b B, c C; return vb(ax,ay,b[0],b[1],c[0],c[1],inc); } \
PRE(n, double ax, double ay, double x, double y, double k, bool) { return k > 0 && crs(ax,ay,x,y) != 0; }
OPP(vecopa, (x,y), (-k*ax,-k*ay)) OPP(vecopb, (-k*ax,-k*ay), (x,y)) OPP(vecopc, (x,y), (-k*x,-k*y))
//@ anchor geometrix/utility/utilities.hpp is_vertical / is_horizontal / get_slope / y_of_x / x_of_y
LIB(int, verthor, double ax, double ay, double bx, double by, double t) { S2 s(P2(ax,ay), P2(bx,by)); return is_vertical(s, TOL(t)) + 2*is_horizontal(s, TOL(t)) + 4*is_vertical(P2(ax,ay), P2(bx,by), TOL(t)) + 8*is_horizontal(P2(ax,ay), P2(bx,by), TOL(t)); }
REF(int, verthor, double ax, double ay, double bx, double by, double t) { int v = std::fabs(ax-bx) <= t, h = std::fabs(ay-by) <= t; return 5*v + 10*h; }
PRE(verthor, double, double, double, double, double t) { return t >= 0; }
LIB(void, slopes, double* o, double ax, double ay, double bx, double by, double x) { double s; o[0] = get_slope(P2(ax,ay), P2(bx,by)); o[1] = y_of_x(P2(ax,ay), P2(bx,by), x, s); o[2] = s; o[3] = y_of_x(P2(ax,ay), P2(bx,by), x); }
REF(void, slopes, double* o, double ax, double ay, double bx, double by, double x) { double m = (by-ay)/(bx-ax); o[0] = o[2] = m; o[1] = o[3] = ay + m*(x-ax); }
PRE(slopes, double*, double ax, double, double bx, double, double) { return ax != bx; }
LIB(void, xofy, double* o, double ax, double ay, double bx, double by, double y) { double s; o[0] = x_of_y(P2(ax,ay), P2(bx,by), y, s); o[1] = s; o[2] = x_of_y(P2(ax,ay), P2(bx,by), y); o[3] = get_slope(S2(P2(ax,ay),P2(bx,by))); }
REF(void, xofy, double* o, double ax, double ay, double bx, double by, double y) { o[1] = o[3] = (by-ay)/(bx-ax); o[0] = o[2] = ax + (y-ay)*(bx-ax)/(by-ay); }
PRE(xofy, double*, double ax, double ay, double bx, double by, double) { return ax != bx && ay != by; }
