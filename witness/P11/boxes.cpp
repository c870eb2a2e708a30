#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef oriented_bounding_box<P2, V2> OB;
static double cl(double x, double l, double h) { return x < l ? l : x > h ? h : x; }
static B2 b2(const double* b) { return B2(P2(b[0],b[1]), P2(b[2],b[3])); } static B3 b3(const double* b) { return B3(P3(b[0],b[1],b[2]), P3(b[3],b[4],b[5])); }
//@ anchor geometrix/algorithm/distance/point_aabb_distance.hpp point_aabb_distance_sqrd
LIB(double, pab2, const double* p, const double* b) { return point_aabb_distance_sqrd(P2(p[0],p[1]), b2(b)); }
REF(double, pab2, const double* p, const double* b) { double s = 0; for (int i = 0; i < 2; ++i) s += sq(p[i] - cl(p[i], b[i], b[2+i])); return s; }
PRE(pab2, const double* p, const double* b) { return b[0] <= b[2] && b[1] <= b[3]; }
LIB(double, pab3, const double* p, const double* b) { return point_aabb_distance_sqrd(P3(p[0],p[1],p[2]), b3(b)); }
REF(double, pab3, const double* p, const double* b) { double s = 0; for (int i = 0; i < 3; ++i) s += sq(p[i] - cl(p[i], b[i], b[3+i])); return s; }
PRE(pab3, const double* p, const double* b) { return b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
LIB(double, pab2r, const double* p, const double* b) { return point_aabb_distance(P2(p[0],p[1]), b2(b)); }
REF(double, pab2r, const double* p, const double* b) { double s = 0; for (int i = 0; i < 2; ++i) s += sq(p[i] - cl(p[i], b[i], b[2+i])); return std::sqrt(s); }
PRE(pab2r, const double* p, const double* b) { return b[0] <= b[2] && b[1] <= b[3]; }
LIB(double, pab3r, const double* p, const double* b) { return point_aabb_distance(P3(p[0],p[1],p[2]), b3(b)); }
REF(double, pab3r, const double* p, const double* b) { double s = 0; for (int i = 0; i < 3; ++i) s += sq(p[i] - cl(p[i], b[i], b[3+i])); return std::sqrt(s); }
PRE(pab3r, const double* p, const double* b) { return b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
//@ anchor geometrix/algorithm/distance/point_aabb_distance.hpp point_aabb_closest_point
LIB(void, pac2, double* o, const double* p, const double* b) { auto q = point_aabb_closest_point(P2(p[0],p[1]), b2(b)); o[0] = q[0]; o[1] = q[1]; }
REF(void, pac2, double* o, const double* p, const double* b) { for (int i = 0; i < 2; ++i) o[i] = cl(p[i], b[i], b[2+i]); }
PRE(pac2, double*, const double* p, const double* b) { return b[0] <= b[2] && b[1] <= b[3]; }
LIB(void, pac3, double* o, const double* p, const double* b) { auto q = point_aabb_closest_point(P3(p[0],p[1],p[2]), b3(b)); for (int i = 0; i < 3; ++i) o[i] = q[i]; }
REF(void, pac3, double* o, const double* p, const double* b) { for (int i = 0; i < 3; ++i) o[i] = cl(p[i], b[i], b[3+i]); }
PRE(pac3, double*, const double* p, const double* b) { return b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
//@ anchor geometrix/algorithm/distance/aabb_aabb_distance.hpp aabb_aabb_distance_sqrd
static double gap(double l1, double h1, double l2, double h2) { return h1 < l2 ? l2 - h1 : h2 < l1 ? l1 - h2 : 0; }
LIB(double, aab2, const double* a, const double* b) { return aabb_aabb_distance_sqrd(b2(a), b2(b)); }
REF(double, aab2, const double* a, const double* b) { double s = 0; for (int i = 0; i < 2; ++i) s += sq(gap(a[i],a[2+i],b[i],b[2+i])); return s; }
PRE(aab2, const double* a, const double* b) { return a[0] <= a[2] && a[1] <= a[3] && b[0] <= b[2] && b[1] <= b[3]; }
LIB(double, aab3, const double* a, const double* b) { return aabb_aabb_distance_sqrd(b3(a), b3(b)); }
REF(double, aab3, const double* a, const double* b) { double s = 0; for (int i = 0; i < 3; ++i) s += sq(gap(a[i],a[3+i],b[i],b[3+i])); return s; }
PRE(aab3, const double* a, const double* b) { return a[0] <= a[3] && a[1] <= a[4] && a[2] <= a[5] && b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
LIB(double, aab2r, const double* a, const double* b) { return aabb_aabb_distance(b2(a), b2(b)); }
REF(double, aab2r, const double* a, const double* b) { double s = 0; for (int i = 0; i < 2; ++i) s += sq(gap(a[i],a[2+i],b[i],b[2+i])); return std::sqrt(s); }
PRE(aab2r, const double* a, const double* b) { return a[0] <= a[2] && a[1] <= a[3] && b[0] <= b[2] && b[1] <= b[3]; }
LIB(double, aab3r, const double* a, const double* b) { return aabb_aabb_distance(b3(a), b3(b)); }
REF(double, aab3r, const double* a, const double* b) { double s = 0; for (int i = 0; i < 3; ++i) s += sq(gap(a[i],a[3+i],b[i],b[3+i])); return std::sqrt(s); }
PRE(aab3r, const double* a, const double* b) { return a[0] <= a[3] && a[1] <= a[4] && a[2] <= a[5] && b[0] <= b[3] && b[1] <= b[4] && b[2] <= b[5]; }
// ---- oriented boxes: p = centre + s u + t v in the box frame (u = (c,s), v = (-s,c) from a rational rotation)
static OB ob(double cx, double cy, double k, double h, double w) { double n = 1 + k*k, c = (1-k*k)/n, s = 2*k/n; return OB(P2(cx,cy), V2(c,s), V2(-s,c), h, w); }
static P2 at(double cx, double cy, double k, double s, double t) { double n = 1 + k*k, c = (1-k*k)/n, d = 2*k/n; return P2(cx + s*c - t*d, cy + s*d + t*c); }
//@ anchor geometrix/algorithm/distance/point_obb_distance.hpp point_obb_distance_sqrd
LIB(double, pob, double cx, double cy, double k, double h, double w, double s, double t) { return point_obb_distance_sqrd(at(cx,cy,k,s,t), ob(cx,cy,k,h,w)); }
REF(double, pob, double cx, double cy, double k, double h, double w, double s, double t) { return sq(s - cl(s,-h,h)) + sq(t - cl(t,-w,w)); }
PRE(pob, double, double, double, double h, double w, double, double) { return h >= 0 && w >= 0; }
LIB(double, pobr, double cx, double cy, double k, double h, double w, double s, double t) { return point_obb_distance(at(cx,cy,k,s,t), ob(cx,cy,k,h,w)); }
REF(double, pobr, double cx, double cy, double k, double h, double w, double s, double t) { return std::sqrt(sq(s - cl(s,-h,h)) + sq(t - cl(t,-w,w))); }
PRE(pobr, double, double, double, double h, double w, double, double) { return h >= 0 && w >= 0; }
//@ anchor geometrix/algorithm/distance/point_obb_distance.hpp point_obb_closest_point
LIB(void, poc, double* o, double cx, double cy, double k, double h, double w, double s, double t) { auto q = point_obb_closest_point(at(cx,cy,k,s,t), ob(cx,cy,k,h,w)); o[0] = q[0]; o[1] = q[1]; }
REF(void, poc, double* o, double cx, double cy, double k, double h, double w, double s, double t) { P2 q = at(cx,cy,k,cl(s,-h,h),cl(t,-w,w)); o[0] = q[0]; o[1] = q[1]; }
PRE(poc, double*, double, double, double, double h, double w, double, double) { return h >= 0 && w >= 0; }
