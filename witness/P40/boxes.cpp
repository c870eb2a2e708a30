#include "geo.hpp"
#include <limits>
#include <array>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef oriented_bounding_box<P2, V2> OB;
typedef sphere<2, P2> C2; typedef sphere<3, P3> C3;
static double gap(double x, double lo, double hi) { return x < lo ? lo - x : x > hi ? x - hi : 0; }
static double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
#define BOX2 double lx, double ly, double hx, double hy
#define OKB (lx <= hx && ly <= hy)
//@ anchor geometrix/algorithm/intersection/sphere_aabb_intersection.hpp sphere_aabb_intersection
LIB(bool, sab, double x, double y, double r, BOX2) { return sphere_aabb_intersection(C2(P2(x,y), r), B2(P2(lx,ly), P2(hx,hy))); }
REF(bool, sab, double x, double y, double r, BOX2) { return sq(gap(x,lx,hx)) + sq(gap(y,ly,hy)) <= r*r; }
PRE(sab, double x, double y, double r, BOX2) { return OKB && r >= 0; }
LIB(void, sabq, double* o, double x, double y, double r, BOX2) { P2 q; o[0] = sphere_aabb_intersection(C2(P2(x,y), r), B2(P2(lx,ly), P2(hx,hy)), q); o[1] = q[0]; o[2] = q[1]; }
REF(void, sabq, double* o, double x, double y, double r, BOX2) { o[0] = sq(gap(x,lx,hx)) + sq(gap(y,ly,hy)) <= r*r; o[1] = clampd(x,lx,hx); o[2] = clampd(y,ly,hy); }
PRE(sabq, double*, double x, double y, double r, BOX2) { return OKB && r >= 0; }
LIB(bool, sab3, double x, double y, double z, double r, const double* b) { return sphere_aabb_intersection(C3(P3(x,y,z), r), B3(P3(b[0],b[1],b[2]), P3(b[3],b[4],b[5]))); }
REF(bool, sab3, double x, double y, double z, double r, const double* b) { return sq(gap(x,b[0],b[3])) + sq(gap(y,b[1],b[4])) + sq(gap(z,b[2],b[5])) <= r*r; }
PRE(sab3, double x, double y, double z, double r, const double* b) { return r >= 0 && b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
LIB(void, sabq3, double* o, double x, double y, double z, double r, const double* b) { P3 q; o[0] = sphere_aabb_intersection(C3(P3(x,y,z), r), B3(P3(b[0],b[1],b[2]), P3(b[3],b[4],b[5])), q); o[1] = q[0]; o[2] = q[1]; o[3] = q[2]; }
REF(void, sabq3, double* o, double x, double y, double z, double r, const double* b) { o[0] = sq(gap(x,b[0],b[3])) + sq(gap(y,b[1],b[4])) + sq(gap(z,b[2],b[5])) <= r*r; o[1] = clampd(x,b[0],b[3]); o[2] = clampd(y,b[1],b[4]); o[3] = clampd(z,b[2],b[5]); }
PRE(sabq3, double*, double x, double y, double z, double r, const double* b) { return r >= 0 && b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
//@ anchor geometrix/algorithm/intersection/sphere_obb_intersection.hpp sphere_obb_intersection
// the centre is given in the box's own frame: u along the first axis, v along the second
#define SOB(n, ux, uy, wx, wy) LIB(bool, sob##n, double cx, double cy, double u, double v, double r, double h, double w, double s) { return sphere_obb_intersection(C2(P2(cx + u*(ux) + v*(wx), cy + u*(uy) + v*(wy)), r), OB(P2(cx,cy), V2(ux,uy), V2(wx,wy), h, w)); } \
REF(bool, sob##n, double cx, double cy, double u, double v, double r, double h, double w, double s) { return sq(gap(u,-h,h)) + sq(gap(v,-w,w)) <= r*r; } \
PRE(sob##n, double, double, double, double, double r, double h, double w, double s) { return h >= 0 && w >= 0 && r >= 0; }
SOB(0, 1, 0, 0, 1) SOB(1, 0, 1, -1, 0) SOB(2, -1, 0, 0, -1) SOB(3, 1, 0, 0, -1) SOB(4, (1-s*s)/(1+s*s), 2*s/(1+s*s), -2*s/(1+s*s), (1-s*s)/(1+s*s))
//@ anchor geometrix/algorithm/intersection/aabb_aabb_intersection.hpp aabb_aabb_intersection
LIB(bool, aab, const double* a, const double* b) { return aabb_aabb_intersection(B2(P2(a[0],a[1]), P2(a[2],a[3])), B2(P2(b[0],b[1]), P2(b[2],b[3])), EXACT()); }
REF(bool, aab, const double* a, const double* b) { return a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3]; }
LIB(bool, aab3, const double* a, const double* b) { return aabb_aabb_intersection(B3(P3(a[0],a[1],a[2]), P3(a[3],a[4],a[5])), B3(P3(b[0],b[1],b[2]), P3(b[3],b[4],b[5])), EXACT()); }
REF(bool, aab3, const double* a, const double* b) { bool r = true; for (int i = 0; i < 3; ++i) r = r && a[i] <= b[3+i] && b[i] <= a[3+i]; return r; }
//@ anchor geometrix/algorithm/intersection/segment_aabb_intersection.hpp segment_aabb_intersection
// the segment meets the box when one parameter satisfies every slab; misses by less than one rounding unit of the box size are left open
static const double EPS = std::numeric_limits<double>::epsilon();
#define SG2(n, sx, sy) LIB(bool, sg##n, double px, double py, double dx, double dy, BOX2) { return segment_aabb_intersection(P2(sx*px,sy*py), P2(sx*(px+dx),sy*(py+dy)), B2(P2(sx*(sx > 0 ? lx : hx), sy*(sy > 0 ? ly : hy)), P2(sx*(sx > 0 ? hx : lx), sy*(sy > 0 ? hy : ly)))); } \
REF(bool, sg##n, double px, double py, double dx, double dy, BOX2) { return lx - px <= dx && hx >= px && ly - py <= dy && hy >= py && (lx-px)*dy <= (hy-py)*dx && (ly-py)*dx <= (hx-px)*dy; } \
PRE(sg##n, double px, double py, double dx, double dy, BOX2) { double k = EPS*(hx-lx+hy-ly), u = 2*((lx-px)*dy - (hy-py)*dx), v = 2*((ly-py)*dx - (hx-px)*dy); return OKB && dx > 0 && dy > 0 && (u <= 0 || u > k) && (v <= 0 || v > k); }
SG2(pp, 1, 1) SG2(np, -1, 1) SG2(nn, -1, -1) SG2(pn, 1, -1)
#define SGA(n, s) LIB(bool, sga##n, double px, double py, double d, BOX2) { return segment_aabb_intersection(P2(px,py), P2(px+s*d,py), B2(P2(lx,ly), P2(hx,hy))); } \
REF(bool, sga##n, double px, double py, double d, BOX2) { double a = s > 0 ? px : px - d, b = s > 0 ? px + d : px; return ly <= py && py <= hy && a <= hx && b >= lx; } \
PRE(sga##n, double px, double py, double d, BOX2) { return OKB && d >= 0; } \
LIB(bool, sgb##n, double px, double py, double d, BOX2) { return segment_aabb_intersection(P2(px,py), P2(px,py+s*d), B2(P2(lx,ly), P2(hx,hy))); } \
REF(bool, sgb##n, double px, double py, double d, BOX2) { double a = s > 0 ? py : py - d, b = s > 0 ? py + d : py; return lx <= px && px <= hx && a <= hy && b >= ly; } \
PRE(sgb##n, double px, double py, double d, BOX2) { return OKB && d >= 0; }
SGA(p, 1) SGA(n, -1)
// in space: a box of fixed size around the origin and every start point; three slabs, pairwise
#define SG3(n, dx, dy, dz) LIB(bool, s3##n, double x, double y, double z) { return segment_aabb_intersection(P3(x,y,z), P3(x+dx,y+dy,z+dz), B3(P3(-1,-2,-3), P3(1,2,3))); } \
static inline bool b3##n(double x, double y, double z, bool exact) { double p[3] = {x,y,z}, h[3] = {1,2,3}, d[3] = {dx,dy,dz}, g[3] = {dx < 0 ? -1. : 1., dy < 0 ? -1. : 1., dz < 0 ? -1. : 1.}; bool r = true; for (int i = 0; i < 3; ++i) { double q = g[i]*p[i], e = g[i]*d[i]; if (exact) r = r && -h[i]-q <= e && h[i] >= q; \
  for (int j = 0; j < 3; ++j) if (i != j) { double z = g[j]*p[j], f = g[j]*d[j], u = (-h[i]-q)*f - (h[j]-z)*e; if (exact) r = r && u <= 0; else r = r && (u <= 0 || u > EPS*(h[i]+h[j])); } } return r; } \
REF(bool, s3##n, double x, double y, double z) { return b3##n(x, y, z, true); } \
PRE(s3##n, double x, double y, double z) { return b3##n(x, y, z, false); }
SG3(ppp, 1, 2, 3) SG3(npp, -2, 1, 1) SG3(pnp, 3, -1, 2) SG3(ppn, 1, 1, -1) SG3(x, 5, 0, 0) SG3(yz, 0, 2, -3) SG3(xnz, 4, 0, -3) SG3(nxy, -6, 2, 0)
//@ anchor geometrix/algorithm/intersection/obb_obb_intersection.hpp obb_obb_intersection
// two boxes with parallel sides, in every quarter turn of one against the other: overlap is overlap of both pairs of intervals
#define OO(n, ux, uy, wx, wy, A, B) LIB(bool, oo##n, double x, double y, double h1, double w1, double h2, double w2, double cx, double cy) { return obb_obb_intersection(OB(P2(cx,cy), V2(1,0), V2(0,1), h1, w1), OB(P2(cx+x,cy+y), V2(ux,uy), V2(wx,wy), h2, w2), EXACT()); } \
REF(bool, oo##n, double x, double y, double h1, double w1, double h2, double w2, double cx, double cy) { return x <= h1+A && -x <= h1+A && y <= w1+B && -y <= w1+B; } \
PRE(oo##n, double x, double y, double h1, double w1, double h2, double w2, double, double) { return h1 >= 0 && w1 >= 0 && h2 >= 0 && w2 >= 0; }
OO(0, 1, 0, 0, 1, h2, w2) OO(1, 0, 1, -1, 0, w2, h2) OO(2, -1, 0, 0, -1, h2, w2) OO(3, 0, -1, 1, 0, w2, h2)
// turned boxes: the second one is turned by the angle whose half has tangent s, 0 < s < 1 (a proper quarter); the four support inequalities of each side
static bool sup(double r, double a, double b) { return r <= a + b && -r <= a + b; }
#define ROT double n = 1 + s*s, c = (1-s*s)/n, k = 2*s/n
#define OOT(n, X, Y, h1, w1, h2, w2) LIB(bool, oot##n, double p, double q, double s) { ROT; double x = X, y = Y; return obb_obb_intersection(OB(P2(0,0), V2(1,0), V2(0,1), h1, w1), OB(P2(x,y), V2(c,k), V2(-k,c), h2, w2), EXACT()); } \
REF(bool, oot##n, double p, double q, double s) { ROT; double x = X, y = Y; return sup(x, h1, h2*c + w2*k) && sup(y, w1, h2*k + w2*c) && sup(x*c + y*k, h2, h1*c + w1*k) && sup(-x*k + y*c, w2, h1*k + w1*c); } \
PRE(oot##n, double p, double q, double s) { return q >= 0 && s > 0 && s < 1; }
OOT(2, p, 4, 4, 2, 1, 3) OOT(3, p, 0, 2, 2, 1, 3) OOT(4, 0, p, 3, 1, 2, q) OOT(5, p, 1, 2, 3, 2, 1) OOT(6, -2, p, 1, q, 3, 2) OOT(7, p, p, 3, 2, 1, 2) OOT(8, p, -p, 1, 2, 2, 1) OOT(9, -p, 3, 1, 2, 3, 1)
//@ anchor geometrix/algorithm/intersection/polyline_aabb_intersection.hpp polyline_aabb_intersection
template <int N> static std::array<P2,N> seq(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
template <int N> static bool any(const double* p, bool closed, const B2& b) { bool r = false; for (int i = 0; i < (closed ? N : N-1); ++i) { int j = (i+1)%N; if (segment_aabb_intersection(P2(p[2*i],p[2*i+1]), P2(p[2*j],p[2*j+1]), b)) r = true; } return r; }
static const double L5[10] = {0,0, 3,1, 5,0, 6,4, 2,6}, G6[12] = {0,0, 3,1, 5,0, 6,4, 2,6, -2,3};
#define TB B2(P2(x, y), P2(x+1, y+0.5))
LIB(bool, plb, double x, double y) { return polyline_aabb_intersection(seq<5>(L5), TB); }
REF(bool, plb, double x, double y) { return any<5>(L5, false, TB); }
PRE(plb, double x, double y) { return x > -10 && x < 10 && y > -10 && y < 10; }
//@ anchor geometrix/algorithm/intersection/polygon_aabb_intersection.hpp polygon_aabb_intersection
#define PGB(n, X, Y, lo, hi) LIB(bool, pgb##n, double u) { double x = X, y = Y; return polygon_aabb_intersection(seq<6>(G6), TB); } \
REF(bool, pgb##n, double u) { double x = X, y = Y; bool r = any<6>(G6, true, TB); B2 b = TB; for (int i = 0; i < 4; ++i) r = r || point_in_polygon(b[i], seq<6>(G6)); return r; } \
PRE(pgb##n, double u) { return u > lo && u < hi; }
PGB(a, u, 0.25, -9, 9) PGB(b, u, 2.75, -9, 9) PGB(c, u, 5, -9, 9) PGB(d, 1, u, -9, 9) PGB(e, 3.5, u, -9, 9) PGB(f, u, u, -9, 9)
