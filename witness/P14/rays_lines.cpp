#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
static P2 p(const double* a) { return P2(a[0],a[1]); }
// ray O + t v against segment A, B: where the lines cross, t >= 0 and the segment's ends are not strictly on one side
//@ anchor geometrix/algorithm/intersection/ray_segment_intersection.hpp ray_segment_intersection
#define R const double* q, const double* v, const double* a, const double* b
#define SA crs(v[0],v[1],a[0]-q[0],a[1]-q[1])
#define SB crs(v[0],v[1],b[0]-q[0],b[1]-q[1])
#define TT (crs(a[0]-q[0],a[1]-q[1],b[0]-a[0],b[1]-a[1])/crs(v[0],v[1],b[0]-a[0],b[1]-a[1]))
static int rs(double t, double sa, double sb) { if (t < 0 || (sa > 0 && sb > 0) || (sa < 0 && sb < 0)) return e_non_crossing; return sa == 0 || sb == 0 ? e_endpoint : e_crossing; }
#define NP crs(v[0],v[1],b[0]-a[0],b[1]-a[1]) != 0
PRE(ray, double* o, R) { return NP; }
LIB(void, ray, double* o, R) { P2 x[2]; double t; int r = ray_segment_intersection(p(q), V2(v[0],v[1]), p(a), p(b), t, x, EXACT()); o[0] = r; o[1] = o[2] = o[3] = 0; if (r) { o[1] = t; o[2] = x[0][0]; o[3] = x[0][1]; } }
REF(void, ray, double* o, R) { double t = TT; int r = rs(t,SA,SB); o[0] = r; o[1] = o[2] = o[3] = 0; if (r) { o[1] = t; o[2] = q[0]+t*v[0]; o[3] = q[1]+t*v[1]; } }
PRE(rays, double* o, R) { return NP; }
LIB(void, rays, double* o, R) { P2 x[2]; double t; int r = ray_segment_intersection(p(q), V2(v[0],v[1]), S2(p(a), p(b)), t, x, EXACT()); o[0] = r; o[1] = o[2] = o[3] = 0; if (r) { o[1] = t; o[2] = x[0][0]; o[3] = x[0][1]; } }
REF(void, rays, double* o, R) { double t = TT; int r = rs(t,SA,SB); o[0] = r; o[1] = o[2] = o[3] = 0; if (r) { o[1] = t; o[2] = q[0]+t*v[0]; o[3] = q[1]+t*v[1]; } }
PRE(rayn, double* o, R) { return NP; }
LIB(void, rayn, double* o, R) { double t; int r = ray_segment_intersection(p(q), V2(v[0],v[1]), p(a), p(b), t, (P2*)nullptr, EXACT()); o[0] = r; o[1] = r ? t : 0; }
REF(void, rayn, double* o, R) { double t = TT; int r = rs(t,SA,SB); o[0] = r; o[1] = r ? t : 0; }
PRE(rayb, R) { return NP; }
LIB(int, rayb, R) { return ray_segment_intersection(p(q), V2(v[0],v[1]), p(a), p(b), EXACT()); }
REF(int, rayb, R) { return rs(TT,SA,SB); }
PRE(raybs, R) { return NP; }
LIB(int, raybs, R) { return ray_segment_intersection(p(q), V2(v[0],v[1]), S2(p(a), p(b)), EXACT()); }
REF(int, raybs, R) { return rs(TT,SA,SB); }
// parallel: a = q + h v + k n, b = a + m v; v a unit vector
#define RP double qx, double qy, double w, double h, double k, double m
#define RPTS double c = (1-w*w)/(1+w*w), s = 2*w/(1+w*w); P2 O(qx,qy), A(qx+h*c-k*s,qy+h*s+k*c), B(qx+(h+m)*c-k*s,qy+(h+m)*s+k*c); V2 v(c,s)
PRE(rayoff, RP) { return k != 0 && m != 0; }
LIB(int, rayoff, RP) { RPTS; double t; return ray_segment_intersection(O, v, A, B, t, (P2*)nullptr, EXACT()); }
REF(int, rayoff, RP) { return e_non_crossing; }
PRE(rayoffb, RP) { return k != 0 && m != 0; }
LIB(int, rayoffb, RP) { RPTS; return ray_segment_intersection(O, v, A, B, EXACT()); }
REF(int, rayoffb, RP) { return e_non_crossing; }
PRE(rayonb, RP) { return k == 0 && m != 0; }
LIB(int, rayonb, RP) { RPTS; return ray_segment_intersection(O, v, A, B, EXACT()); }
REF(int, rayonb, RP) { return h < 0 && h+m < 0 ? e_non_crossing : e_overlapping; }
// on the ray's line: the covered part of the ray in ray order, t its start
PRE(rayon, double* o, double qx, double qy, double w, double h, double m) { return m != 0; }
LIB(void, rayon, double* o, double qx, double qy, double w, double h, double m) { double k = 0; RPTS; double t; P2 x[2]; int r = ray_segment_intersection(O, v, A, B, t, x, EXACT()); o[0] = r; if (r) { o[1] = t; o[2] = x[0][0]; o[3] = x[0][1]; o[4] = x[1][0]; o[5] = x[1][1]; } else o[1]=o[2]=o[3]=o[4]=o[5]=0; }
REF(void, rayon, double* o, double qx, double qy, double w, double h, double m) { double c = (1-w*w)/(1+w*w), s = 2*w/(1+w*w), lo = m < 0 ? h+m : h, hi = m < 0 ? h : h+m; o[1]=o[2]=o[3]=o[4]=o[5]=0; if (hi < 0) { o[0] = e_non_crossing; return; }
  if (lo < 0) lo = 0; o[0] = e_overlapping; o[1] = lo; o[2] = qx+lo*c; o[3] = qy+lo*s; o[4] = qx+hi*c; o[5] = qy+hi*s; }
//@ anchor geometrix/algorithm/intersection/ray_line_intersection.hpp ray_line_intersection
#define RL double qx, double qy, double vx, double vy, double ax, double ay, double w
#define RLL line<P2> l(P2(ax,ay), V2((1-w*w)/(1+w*w),2*w/(1+w*w)))
#define RLD crs(vx,vy,1-w*w,2*w)
PRE(rayline, double* o, RL) { return RLD != 0; }
LIB(void, rayline, double* o, RL) { RLL; double t; P2 x; auto r = ray_line_intersection(P2(qx,qy), V2(vx,vy), l, t, x, EXACT()); o[0] = r.is_intersecting(); o[1] = r.is_overlapping(); o[5] = r == true; o[2]=o[3]=o[4]=0; if (r == true) { o[2] = t; o[3] = x[0]; o[4] = x[1]; } }
REF(void, rayline, double* o, RL) { double t = crs(ax-qx,ay-qy,1-w*w,2*w)/RLD; o[1]=o[2]=o[3]=o[4]=0; o[0] = o[5] = t >= 0; if (t >= 0) { o[2] = t; o[3] = qx+t*vx; o[4] = qy+t*vy; } }
PRE(rayline0, double* o, double qx, double qy, double k, double ax, double ay, double w) { return k != 0; }
LIB(void, rayline0, double* o, double qx, double qy, double k, double ax, double ay, double w) { RLL; double t; P2 x; auto r = ray_line_intersection(P2(qx,qy), V2(k*(1-w*w)/(1+w*w),k*2*w/(1+w*w)), l, t, x, EXACT()); o[0] = r.is_intersecting(); o[1] = r.is_overlapping(); }
REF(void, rayline0, double* o, double qx, double qy, double k, double ax, double ay, double w) { o[0] = o[1] = crs(ax-qx,ay-qy,1-w*w,2*w) == 0; }
//@ anchor geometrix/algorithm/line_intersection.hpp line_line_intersect
#define Q const double* a, const double* b, const double* c, const double* d
#define LD crs(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1])
#define LN crs(c[0]-a[0],c[1]-a[1],d[0]-c[0],d[1]-c[1])
PRE(ll, double* o, Q) { return d2sq(a[0],a[1],b[0],b[1]) > 0 && d2sq(c[0],c[1],d[0],d[1]) > 0; }
LIB(void, ll, double* o, Q) { P2 x; double s, t; int r = line_line_intersect(p(a),p(b),p(c),p(d),x,s,t,EXACT()); o[0] = r; o[1]=o[2]=o[3]=o[4]=0; if (r == e_crossing) { o[1] = x[0]; o[2] = x[1]; o[3] = s; o[4] = t; } }
REF(void, ll, double* o, Q) { o[1]=o[2]=o[3]=o[4]=0; if (LD == 0) { o[0] = turn(a[0],a[1],b[0],b[1],c[0],c[1]) == 0 ? e_overlapping : e_non_crossing; return; } double s = LN/LD; o[0] = e_crossing; o[1] = a[0]+s*(b[0]-a[0]); o[2] = a[1]+s*(b[1]-a[1]); o[3] = s; o[4] = crs(c[0]-a[0],c[1]-a[1],b[0]-a[0],b[1]-a[1])/LD; }
PRE(ll2, double* o, Q) { return d2sq(a[0],a[1],b[0],b[1]) > 0 && d2sq(c[0],c[1],d[0],d[1]) > 0; }
LIB(void, ll2, double* o, Q) { P2 x; int r = line_line_intersect(p(a),p(b),p(c),p(d),x,EXACT()); o[0] = r; o[1]=o[2]=0; if (r == e_crossing) { o[1] = x[0]; o[2] = x[1]; } }
REF(void, ll2, double* o, Q) { o[1]=o[2]=0; if (LD == 0) { o[0] = turn(a[0],a[1],b[0],b[1],c[0],c[1]) == 0 ? e_overlapping : e_non_crossing; return; } double s = LN/LD; o[0] = e_crossing; o[1] = a[0]+s*(b[0]-a[0]); o[2] = a[1]+s*(b[1]-a[1]); }
//@ anchor geometrix/algorithm/line_intersection.hpp line_segment_intersect
// line through a, b against segment c, d
#define LSREF o[1]=o[2]=0; if (LD == 0) { o[0] = turn(a[0],a[1],b[0],b[1],c[0],c[1]) == 0 ? e_overlapping : e_non_crossing; return; } double e = turn(a[0],a[1],b[0],b[1],c[0],c[1]), f = turn(a[0],a[1],b[0],b[1],d[0],d[1]); \
  if ((e > 0 && f > 0) || (e < 0 && f < 0)) { o[0] = e_non_crossing; return; } o[0] = e == 0 || f == 0 ? e_endpoint : e_crossing; double t = e/(e-f); o[1] = c[0]+t*(d[0]-c[0]); o[2] = c[1]+t*(d[1]-c[1])
PRE(ls, double* o, Q) { return d2sq(a[0],a[1],b[0],b[1]) > 0 && d2sq(c[0],c[1],d[0],d[1]) > 0; }
LIB(void, ls, double* o, Q) { P2 x; int r = line_segment_intersect(p(a),p(b),p(c),p(d),x,EXACT()); o[0] = r; o[1]=o[2]=0; if (r == e_crossing || r == e_endpoint) { o[1] = x[0]; o[2] = x[1]; } }
REF(void, ls, double* o, Q) { LSREF; }
PRE(lss, double* o, Q) { return d2sq(a[0],a[1],b[0],b[1]) > 0 && d2sq(c[0],c[1],d[0],d[1]) > 0; }
LIB(void, lss, double* o, Q) { P2 x; int r = line_segment_intersect(p(a),p(b),S2(p(c),p(d)),x,EXACT()); o[0] = r; o[1]=o[2]=0; if (r == e_crossing || r == e_endpoint) { o[1] = x[0]; o[2] = x[1]; } }
REF(void, lss, double* o, Q) { LSREF; }
