#include "geo.hpp"
#include <cmath>
#include <array>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
typedef axis_aligned_bounding_box<P2> B2;
static double tr(double ax, double ay, double bx, double by, double cx, double cy) { return (bx-ax)*(cy-ay) - (by-ay)*(cx-ax); }
// a closed triangle (counter clockwise) and a closed box are disjoint iff one of the five side lines separates them
static bool tb(double ax, double ay, double bx, double by, double cx, double cy, double lx, double ly, double hx, double hy) {
  double t[3][2] = {{ax,ay},{bx,by},{cx,cy}}, q[4][2] = {{lx,ly},{hx,ly},{hx,hy},{lx,hy}}; bool r = true;
  for (int i = 0; i < 3; ++i) { bool out = true; int j = (i+1)%3; for (int k = 0; k < 4; ++k) out = out && tr(t[i][0],t[i][1],t[j][0],t[j][1],q[k][0],q[k][1]) < 0; r = r && !out; }
  r = r && !(ax < lx && bx < lx && cx < lx) && !(ax > hx && bx > hx && cx > hx) && !(ay < ly && by < ly && cy < ly) && !(ay > hy && by > hy && cy > hy); return r; }
#define TB(n, ax, ay, bx, by, cx, cy) LIB(bool, tb##n, double k, double x, double y) { return eberly_triangle_aabb_intersection_2d(P2(k*ax,k*ay), P2(k*bx,k*by), P2(k*cx,k*cy), B2(P2(x,y), P2(x+2,y+1)), EXACT()); } \
REF(bool, tb##n, double k, double x, double y) { return tb(k*ax,k*ay,k*bx,k*by,k*cx,k*cy,x,y,x+2,y+1); } PRE(tb##n, double k, double x, double y) { return k > 0; }
//@ anchor geometrix/algorithm/eberly_triangle_aabb_intersection.hpp eberly_triangle_aabb_intersection_2d
TB(a, 0, 0, 4, 0, 4, 3) TB(b, 0, 0, 8, 0, 4, 3) TB(c, 0, 0, 4, -3, 3, 4)
