#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
// Optimality: parameters in [0,1], points at the parameters, and the pair satisfies the first-order conditions of the
// convex problem at both end points of both segments (necessary and sufficient).
static void kkt(double* o, P2 a, P2 b, P2 c, P2 d) { double s, t; P2 x, y; double r = segment_segment_closest_point(a,b,c,d,s,t,x,y,EXACT());
  double ux = x[0]-y[0], uy = x[1]-y[1];
  o[0] = s >= 0; o[1] = s <= 1; o[2] = t >= 0; o[3] = t <= 1; o[4] = x[0]-(a[0]+s*(b[0]-a[0])); o[5] = x[1]-(a[1]+s*(b[1]-a[1])); o[6] = y[0]-(c[0]+t*(d[0]-c[0])); o[7] = y[1]-(c[1]+t*(d[1]-c[1])); o[8] = r-ux*ux-uy*uy;
  o[9] = ux*(a[0]-x[0])+uy*(a[1]-x[1]) >= 0; o[10] = ux*(b[0]-x[0])+uy*(b[1]-x[1]) >= 0; o[11] = ux*(c[0]-y[0])+uy*(c[1]-y[1]) <= 0; o[12] = ux*(d[0]-y[0])+uy*(d[1]-y[1]) <= 0; }
static void ok(double* o) { o[4]=o[5]=o[6]=o[7]=o[8]=0; o[0]=o[1]=o[2]=o[3]=o[9]=o[10]=o[11]=o[12]=1; }
//@ anchor geometrix/algorithm/distance/segment_segment_closest_point.hpp segment_segment_closest_point
PRE(optimal, double* o, double w, double px, double py, double u, double v) { return w > 0; }
LIB(void, optimal, double* o, double w, double px, double py, double u, double v) { kkt(o, P2(px,py), P2(px+u,py+v), P2(0,0), P2(w,0)); }
REF(void, optimal, double* o, double w, double px, double py, double u, double v) { ok(o); }
// the second segment a point
LIB(void, opt_point, double* o, double px, double py, double u, double v, double qx, double qy) { kkt(o, P2(px,py), P2(px+u,py+v), P2(qx,qy), P2(qx,qy)); }
REF(void, opt_point, double* o, double px, double py, double u, double v, double qx, double qy) { ok(o); }
LIB(void, opt_point1, double* o, double px, double py, double u, double v, double qx, double qy) { kkt(o, P2(qx,qy), P2(qx,qy), P2(px,py), P2(px+u,py+v)); }
REF(void, opt_point1, double* o, double px, double py, double u, double v, double qx, double qy) { ok(o); }
// any frame, 2D and 3D: the clamped projection algorithm, written coordinate by coordinate
static double clamp01(double t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
template <int N> static double closest(const double* a, const double* b, const double* c, const double* d, double* o) {
  double A = 0, B = 0, E = 0, C = 0, F = 0; for (int i = 0; i < N; ++i) { double u = b[i]-a[i], v = d[i]-c[i], r = a[i]-c[i]; A += u*u; B += u*v; E += v*v; C += u*r; F += v*r; }
  double s, t;
  if (!(A > 0)) { s = 0; t = E > 0 ? clamp01(F/E) : 0; }
  else if (!(E > 0)) { t = 0; s = clamp01(-C/A); }
  else { double D = A*E-B*B; s = D != 0 ? clamp01((B*F-C*E)/D) : 0; double n = B*s+F; if (n < 0) { t = 0; s = clamp01(-C/A); } else if (n > E) { t = 1; s = clamp01((B-C)/A); } else t = n/E; }
  o[0] = s; o[1] = t; double m = 0; for (int i = 0; i < N; ++i) { double x = a[i]+s*(b[i]-a[i]), y = c[i]+t*(d[i]-c[i]); o[2+i] = x; o[2+N+i] = y; m += (x-y)*(x-y); } return m; }
static P2 p2(const double* a) { return P2(a[0],a[1]); }
static P3 p3(const double* a) { return P3(a[0],a[1],a[2]); }
#define PTS const double* a, const double* b, const double* c, const double* d
LIB(void, close2, double* o, PTS) { double s, t; P2 x, y; o[6] = segment_segment_closest_point(p2(a),p2(b),p2(c),p2(d),s,t,x,y,EXACT()); o[0] = s; o[1] = t; o[2] = x[0]; o[3] = x[1]; o[4] = y[0]; o[5] = y[1]; }
REF(void, close2, double* o, PTS) { o[6] = closest<2>(a,b,c,d,o); }
LIB(void, close3, double* o, PTS) { double s, t; P3 x, y; o[8] = segment_segment_closest_point(p3(a),p3(b),p3(c),p3(d),s,t,x,y,EXACT()); o[0] = s; o[1] = t; for (int i = 0; i < 3; ++i) { o[2+i] = x[i]; o[5+i] = y[i]; } }
REF(void, close3, double* o, PTS) { o[8] = closest<3>(a,b,c,d,o); }
//@ anchor geometrix/algorithm/distance/segment_segment_distance.hpp segment_segment_distance
#define FOUR(N) \
LIB(double, dsq_p##N, PTS) { return segment_segment_distance_sqrd(p##N(a),p##N(b),p##N(c),p##N(d),EXACT()); } \
REF(double, dsq_p##N, PTS) { double o[8]; return closest<N>(a,b,c,d,o); } \
LIB(double, d_p##N, PTS) { return segment_segment_distance(p##N(a),p##N(b),p##N(c),p##N(d),EXACT()); } \
REF(double, d_p##N, PTS) { double o[8]; return std::sqrt(closest<N>(a,b,c,d,o)); } \
LIB(double, dsq_s##N, PTS) { return segment_segment_distance_sqrd(S##N(p##N(a),p##N(b)),S##N(p##N(c),p##N(d)),EXACT()); } \
REF(double, dsq_s##N, PTS) { double o[8]; return closest<N>(a,b,c,d,o); } \
LIB(double, d_s##N, PTS) { return segment_segment_distance(S##N(p##N(a),p##N(b)),S##N(p##N(c),p##N(d)),EXACT()); } \
REF(double, d_s##N, PTS) { double o[8]; return std::sqrt(closest<N>(a,b,c,d,o)); }
FOUR(2) FOUR(3)
//@ anchor geometrix/algorithm/distance/segment_obb_distance.hpp segment_obb_distance
typedef oriented_bounding_box<P2,V2> OBB;
// box at (x, y) with axes along (3,4) and (-4,3) and a fixed query segment: least over the four sides
static double sides(double hx, double hy, double kx, double ky, const P2& a, const P2& b, double x, double y) { static const double sx[4] = {-1,1,1,-1}, sy[4] = {-1,-1,1,1}; P2 c[4];
  for (int i = 0; i < 4; ++i) c[i] = P2(x+hx*sx[i]+kx*sy[i], y+hy*sx[i]+ky*sy[i]); double m = 0;
  for (int i = 0; i < 4; ++i) { double e = segment_segment_distance_sqrd(a,b,c[i],c[(i+1)%4],EXACT()); if (i == 0 || e < m) m = e; } return m; }
#define BOX2 OBB(P2(x,y), V2(3,4), V2(-4,3), 0.5, 0.25)
#define SO(D_, x0, x1, y0, y1) \
PRE(obb_sq##D_, double x, double y) { return x >= x0 && x <= x1 && y >= y0 && y <= y1; } \
LIB(double, obb_sq##D_, double x, double y) { return segment_obb_distance_sqrd(S2(P2(0,0),P2(1,1)), BOX2, EXACT()); } \
REF(double, obb_sq##D_, double x, double y) { return sides(1.5,2,-1,0.75,P2(0,0),P2(1,1),x,y); } \
PRE(obb##D_, double x, double y) { return x >= x0 && x <= x1 && y >= y0 && y <= y1; } \
LIB(double, obb##D_, double x, double y) { return segment_obb_distance(S2(P2(0,0),P2(1,1)), BOX2, EXACT()); } \
REF(double, obb##D_, double x, double y) { return std::sqrt(sides(1.5,2,-1,0.75,P2(0,0),P2(1,1),x,y)); }
SO(e,5,6,0,1) SO(w,-6,-5,0,1) SO(n,0,1,6,7) SO(s,0,1,-7,-6) SO(ne,4,5,4,5) SO(nw,-5,-4,4,5) SO(sw,-5,-4,-5,-4) SO(se,4,5,-5,-4)
//@ anchor geometrix/algorithm/distance/eberly_segment_segment_distance.hpp eberly_segment_segment_distance_sqrd
LIB(double, eberly, PTS) { return eberly_segment_segment_distance_sqrd(S2(p2(a),p2(b)),S2(p2(c),p2(d))); }
REF(double, eberly, PTS) { double o[8]; return closest<2>(a,b,c,d,o); }
