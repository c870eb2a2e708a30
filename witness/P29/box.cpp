#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
typedef sphere<2,P2> C2; typedef axis_aligned_bounding_box<P2> BX; typedef oriented_bounding_box<P2,V2> OB;
// first contact of the disc (x,y) radius 1 with the box [0,4]x[0,2]: the ray enters the box grown by 1 over a face, or meets the disc round a corner
static bool slab(double* lo, double* hi, double c, double v, double L) { if (v == 0) return c >= -1 && c <= L+1; double a = (-1-c)/v, b = (L+1-c)/v; if (a > b) { double t = a; a = b; b = t; } if (a > *lo) *lo = a; if (b < *hi) *hi = b; return true; }
static bool disc(double* o, double x, double y, double vx, double vy) { double k = x*x+y*y-1; if (k < 0) { *o = 0; return true; } double h = x*vx+y*vy, A = vx*vx+vy*vy; if (h >= 0) return false; double m = std::sqrt(A), g = h/m, d = g*g-k; if (d < 0) return false; *o = (-g-std::sqrt(d))/m; return true; }
static int hit(double* o, double x, double y, double vx, double vy) {
    double lo = 0, hi = 1e300; if (!slab(&lo, &hi, x, vx, 4) || !slab(&lo, &hi, y, vy, 2) || lo > hi) return 0;
    double px = x+lo*vx, py = y+lo*vy, cx = px < 0 ? 0 : 4, cy = py < 0 ? 0 : 2;
    if ((px < 0 || px > 4) && (py < 0 || py > 2)) return disc(o, x-cx, y-cy, vx, vy) ? 1 : 0;
    *o = lo; return 1; }
static bool clear(double x, double y) { return x*x+y*y != 1 && sq(x-4)+y*y != 1 && x*x+sq(y-2) != 1 && sq(x-4)+sq(y-2) != 1; }
#define BOX(n, C, vx, vy) \
PRE(n, double* o, double x, double y, double w) { return w > 0 && (C); } \
LIB(int, n, double* o, double x, double y, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_aabb_intersection(C2(P2(x,y),1.0), V2(vx,vy), BX(P2(0,0),P2(4,2)), t, q, EXACT()); if (z) o[0] = t; return z?1:0; } \
REF(int, n, double* o, double x, double y, double w) { return hit(o, x, y, vx, vy); }
#define OBX(n, C, vx, vy) \
PRE(n, double* o, double x, double y, double w) { return w > 0 && (C); } \
LIB(int, n, double* o, double x, double y, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_obb_intersection(C2(P2(x,y),1.0), V2(vx,vy), OB(P2(2,1),V2(1,0),V2(0,1),2.0,1.0), t, q, EXACT()); if (z.is_intersecting()) o[0] = t; return z.is_intersecting()?1:0; } \
REF(int, n, double* o, double x, double y, double w) { return hit(o, x, y, vx, vy); }
//@ anchor geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp moving_sphere_aabb_intersection
BOX(ab1, clear(x, y), w, 0.0) BOX(ab2, clear(x, y), -w, 0.0) BOX(ab3, clear(x, y), 0.0, w) BOX(ab4, clear(x, y), 0.0, -w) BOX(ab5, x < -1 && y < 0 && y > -2, 0.6*w, 0.8*w) BOX(ab6, x > 5 && y < 2 && y > 0, -0.8*w, 0.6*w)
BOX(ab7, x > 1 && x < 3 && y < -1, 0.8*w, 0.6*w) BOX(ab8, clear(x, y) && x > 2 && x < 5 && y > 1 && y < 2, 0.6*w, 0.8*w) BOX(ab9, sq(x-4)+sq(y-2) != 1 && x > 4 && x < 5 && y > 2 && y < 3, -0.6*w, -0.8*w)
//@ anchor geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp moving_sphere_obb_intersection
OBX(ob1, clear(x, y), w, 0.0) OBX(ob4, clear(x, y), 0.0, -w) OBX(ob5, x > 5 && y < 0 && y > -2, -0.6*w, 0.8*w)
OBX(ob6, sq(x)+sq(y) != 1 && x < 0 && x > -1 && y < 0 && y > -1, 0.6*w, 0.8*w)
// the contact point: on the box, and on the disc at the reported time
#define BQ(n, C, vx, vy) \
PRE(n, double x, double y, double w) { return w > 0 && (C); } \
LIB(bool, n, double x, double y, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_aabb_intersection(C2(P2(x,y),1.0), V2(vx,vy), BX(P2(0,0),P2(4,2)), t, q, EXACT()); if (!z || t == 0) return true; return (((q[0] == 0 || q[0] == 4) && q[1] >= 0 && q[1] <= 2) || ((q[1] == 0 || q[1] == 2) && q[0] >= 0 && q[0] <= 4)) && sq(q[0]-x-t*(vx))+sq(q[1]-y-t*(vy)) == 1; } \
REF(bool, n, double x, double y, double w) { return true; }
BQ(bq1, x < -1, w, 0.0) BQ(bq2, x > 5, -w, 0.0) BQ(bq3, y < -1, 0.0, w) BQ(bq4, y > 3, 0.0, -w)
// starting inside the box the contact is the center itself
PRE(bqi, double* o, double x, double y, double w, double u) { return x > 0 && x < 4 && y > 0 && y < 2; }
LIB(bool, bqi, double* o, double x, double y, double w, double u) { double t = 7; P2 q(9,9); auto z = moving_sphere_aabb_intersection(C2(P2(x,y),1.0), V2(w,u), BX(P2(0,0),P2(4,2)), t, q, EXACT()); o[0] = t; o[1] = q[0]; o[2] = q[1]; return z; }
REF(bool, bqi, double* o, double x, double y, double w, double u) { o[0] = 0; o[1] = x; o[2] = y; return true; }
//@ anchor geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp moving_sphere_obb_intersection
PRE(oqi, double* o, double x, double y, double w) { return x > 0 && x < 4 && y > 0 && y < 2 && w > 0; }
LIB(bool, oqi, double* o, double x, double y, double w) { double t = 7; P2 q(9,9); auto z = moving_sphere_obb_intersection(C2(P2(x,y),1.0), V2(w,-w), OB(P2(2,1),V2(1,0),V2(0,1),2.0,1.0), t, q, EXACT()); o[0] = t; o[1] = q[0]; o[2] = q[1]; return z.is_intersecting(); }
REF(bool, oqi, double* o, double x, double y, double w) { o[0] = 0; o[1] = x; o[2] = y; return true; }
// a box turned by a right angle is the same scene rotated
#define ORX(n, C, vx, vy) \
PRE(n, double* o, double x, double y, double w) { return w > 0 && (C); } \
LIB(int, n, double* o, double x, double y, double w) { double t = 0; P2 q(0,0); double X = x-2, Y = y-1; auto z = moving_sphere_obb_intersection(C2(P2(-Y,X),1.0), V2(-(vy),vx), OB(P2(0,0),V2(0,1),V2(-1,0),2.0,1.0), t, q, EXACT()); if (z.is_intersecting()) o[0] = t; return z.is_intersecting()?1:0; } \
REF(int, n, double* o, double x, double y, double w) { return hit(o, x, y, vx, vy); }
ORX(orx, x < -1, w, 0.0) ORX(ory, y > 3, 0.0, -w)
// two boxes: the times their shadows on every axis overlap, the first no later than tmax
//@ anchor geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp moving_obb_obb_intersection
struct iv { double lo, hi; bool ok; };
static void shadow(iv* r, double d, double v, double R) { double A = d < 0 ? -d : d; if (v == 0) { if (A > R) r->ok = false; return; } double a = (-R-d)/v, b = (R-d)/v; if (a > b) { double t = a; a = b; b = t; } if (a > r->lo) r->lo = a; if (b < r->hi) r->hi = b; }
#define BB(n, C, u1, v1, u2, v2) \
PRE(n, double* o, double x, double y, double u, double v, double m) { return m >= 0 && (C); } \
LIB(bool, n, double* o, double x, double y, double u, double v, double m) { double a = 0, b = 0; bool z = moving_obb_obb_intersection(OB(P2(0,0),V2(1,0),V2(0,1),2.0,1.0), V2(u1,v1), OB(P2(x,y),V2(1,0),V2(0,1),1.0,3.0), V2(u2,v2), m, a, b); if (z) { o[0] = a; o[1] = b; } return z; } \
REF(bool, n, double* o, double x, double y, double u, double v, double m) { iv r = {0, 1e300, true}; shadow(&r, x, u, 3); shadow(&r, y, v, 4); if (!r.ok || r.lo > r.hi || r.lo > m) return false; o[0] = r.lo; o[1] = r.hi; return true; }
BB(bb1, u > 0 && v > 0, 0, 0, u, v) BB(bb2, u < 0 && v > 0, -u, 0, 0, v) BB(bb3, u == 0 && v < 0, 1, -v, 1, 0) BB(bb4, u > 0 && v == 0, 1, 2, u+1, 2) BB(bb5, u < 0 && v < 0, 3, 4, u+3, v+4)
// box axes given in the other order
PRE(bb6, double* o, double x, double y, double u, double m) { return m >= 0 && u > 0; }
LIB(bool, bb6, double* o, double x, double y, double u, double m) { double a = 0, b = 0; bool z = moving_obb_obb_intersection(OB(P2(0,0),V2(0,1),V2(-1,0),1.0,2.0), V2(0,0), OB(P2(x,y),V2(1,0),V2(0,1),1.0,3.0), V2(u,-u), m, a, b); if (z) { o[0] = a; o[1] = b; } return z; }
REF(bool, bb6, double* o, double x, double y, double u, double m) { iv r = {0, 1e300, true}; shadow(&r, x, u, 3); shadow(&r, y, -u, 4); if (!r.ok || r.lo > r.hi || r.lo > m) return false; o[0] = r.lo; o[1] = r.hi; return true; }
