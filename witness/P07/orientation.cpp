#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
static int sgn(double x, double t) { return x > t ? 1 : (x < -t ? -1 : 0); }
//@ anchor geometrix/algorithm/orientation.hpp get_orientation (points)
LIB(int, turn, double ax, double ay, double bx, double by, double cx, double cy, double t) { return get_orientation(P2(ax,ay), P2(bx,by), P2(cx,cy), TOL(t)); }
REF(int, turn, double ax, double ay, double bx, double by, double cx, double cy, double t) { return sgn(turn(ax,ay,bx,by,cx,cy), t); }
PRE(turn, double, double, double, double, double, double, double t) { return t >= 0; }
LIB(int, turnx, double ax, double ay, double bx, double by, double cx, double cy) { return get_orientation(P2(ax,ay), P2(bx,by), P2(cx,cy), EXACT()); }
REF(int, turnx, double ax, double ay, double bx, double by, double cx, double cy) { return sgn(turn(ax,ay,bx,by,cx,cy), 0); }
// the same law stated without a formula: antisymmetry, cyclic and translation invariance
LIB(int, swapped, double ax, double ay, double bx, double by, double cx, double cy, double t) { return get_orientation(P2(ax,ay), P2(cx,cy), P2(bx,by), TOL(t)) + get_orientation(P2(ax,ay), P2(bx,by), P2(cx,cy), TOL(t)); }
REF(int, swapped, double, double, double, double, double, double, double) { return 0; }
PRE(swapped, double, double, double, double, double, double, double t) { return t >= 0; }
LIB(int, cyclic, double ax, double ay, double bx, double by, double cx, double cy, double t) { return get_orientation(P2(bx,by), P2(cx,cy), P2(ax,ay), TOL(t)); }
REF(int, cyclic, double ax, double ay, double bx, double by, double cx, double cy, double t) { return sgn(turn(ax,ay,bx,by,cx,cy), t); }
PRE(cyclic, double, double, double, double, double, double, double t) { return t >= 0; }
//@ anchor geometrix/algorithm/orientation.hpp get_orientation (vectors)
LIB(int, dirs, double ax, double ay, double bx, double by, double t) { return get_orientation(V2(ax,ay), V2(bx,by), TOL(t)); }
REF(int, dirs, double ax, double ay, double bx, double by, double t) { return sgn(crs(ax,ay,bx,by), t); }
PRE(dirs, double, double, double, double, double t) { return t >= 0; }
//@ anchor geometrix/algorithm/orientation.hpp oriented_intersection
LIB(int, oint, double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy) { return oriented_intersection(P2(ax,ay), P2(bx,by), P2(cx,cy), P2(dx,dy), EXACT()); }
// proper crossings: both segments strictly straddle each other's line
REF(int, oint, double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy) {
  double a = turn(cx,cy,dx,dy,ax,ay), b = turn(cx,cy,dx,dy,bx,by), c = turn(ax,ay,bx,by,cx,cy), d = turn(ax,ay,bx,by,dx,dy);
  bool touch = (c <= 0 && d >= 0) || (c >= 0 && d <= 0);
  if (a > 0 && b < 0 && touch) return e_intersect_left_right;
  if (a < 0 && b > 0 && touch) return e_intersect_right_left;
  return e_non_crossing; }
PRE(oint, double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy) { return turn(cx,cy,dx,dy,ax,ay) != 0 && turn(cx,cy,dx,dy,bx,by) != 0; }
