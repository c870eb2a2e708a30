#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
typedef sphere<2,P2> C2; typedef sphere<3,P3> C3; typedef line<P2> L2; typedef plane<P3> PL;
// a disc against a line through (lx,ly) along a rational unit direction
//@ anchor geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp moving_sphere_plane_intersection
static int lineref(double* o, double x, double y, double r, double vx, double vy, double lx, double ly, double nx, double ny) {
    double D = nx*(x-lx)+ny*(y-ly), w = nx*vx+ny*vy, A = D < 0 ? -D : D;
    if (A <= r) { o[0] = 0; o[1] = x-D*nx; o[2] = y-D*ny; return 1; }
    if (w*D >= 0) return 0;
    double t = D > 0 ? (D-r)/-w : (-D-r)/w, k = D > 0 ? r : -r;
    o[0] = t; o[1] = x+t*vx-k*nx; o[2] = y+t*vy-k*ny; return 1; }
#define SL(n, c, s) \
PRE(n, double* o, double x, double y, double r, double vx, double vy, double lx, double ly) { return r >= 0; } \
LIB(int, n, double* o, double x, double y, double r, double vx, double vy, double lx, double ly) { double t = 0; P2 q(0,0); auto z = moving_sphere_plane_intersection(C2(P2(x,y),r), V2(vx,vy), L2(P2(lx,ly),V2(c,s)), t, q, EXACT()); if (z.is_intersecting()) { o[0] = t; o[1] = q[0]; o[2] = q[1]; } return z.is_intersecting(); } \
REF(int, n, double* o, double x, double y, double r, double vx, double vy, double lx, double ly) { return lineref(o, x, y, r, vx, vy, lx, ly, -(s), c); }
SL(slx, 1.0, 0.0) SL(sly, 0.0, 1.0) SL(slr, 0.6, 0.8) SL(sln, -0.28, 0.96)
// the status flags: penetrating / touching at the start, and whether the disc moves away from the line
#define F double x, double y, double r, double vx, double vy, double lx, double ly
PRE(slf, F) { return r >= 0; }
LIB(int, slf, F) { double t = 0; P2 q(0,0); auto z = moving_sphere_plane_intersection(C2(P2(x,y),r), V2(vx,vy), L2(P2(lx,ly),V2(0.6,0.8)), t, q, EXACT()); if (z && t > 0) return -1; return (z.is_intersecting()?1:0)+(z.is_penetrating()?2:0)+(z.is_moving_away()?4:0)+(z.is_touching()?8:0)+(z?16:0); }
REF(int, slf, F) { double D = -0.8*(x-lx)+0.6*(y-ly), w = -0.8*vx+0.6*vy, A = D < 0 ? -D : D; int m = w*D >= 0 ? 4 : 0; if (A < r) return m+19; if (A == r) return m+25; return m ? m : -1; }
// a ball against a plane in space
#define SP(n, U, W, nx, ny, nz) \
PRE(n, double* o, const double* c, double r, const double* v, const double* l) { return r >= 0; } \
LIB(bool, n, double* o, const double* c, double r, const double* v, const double* l) { double t = 0; P3 q(0,0,0); auto z = moving_sphere_plane_intersection(C3(P3(c[0],c[1],c[2]),r), V3(v[0],v[1],v[2]), PL(P3(l[0],l[1],l[2]),U,W), t, q, EXACT()); if (z) { o[0] = t; o[1] = q[0]; o[2] = q[1]; o[3] = q[2]; } return z.is_intersecting(); } \
REF(bool, n, double* o, const double* c, double r, const double* v, const double* l) { double D = nx*(c[0]-l[0])+ny*(c[1]-l[1])+nz*(c[2]-l[2]), w = nx*v[0]+ny*v[1]+nz*v[2], A = D < 0 ? -D : D, t, k; \
  if (A <= r) { t = 0; k = D; } else { if (w*D >= 0) return false; k = D > 0 ? r : -r; t = D > 0 ? (D-r)/-w : (-D-r)/w; } \
  o[0] = t; o[1] = c[0]+t*v[0]-k*nx; o[2] = c[1]+t*v[1]-k*ny; o[3] = c[2]+t*v[2]-k*nz; return true; }
SP(spz, V3(1,0,0), V3(0,1,0), 0.0, 0.0, 1.0) SP(spx, V3(0,1,0), V3(0,0,1), 1.0, 0.0, 0.0) SP(spr, V3(0.6,0,0.8), V3(0,1,0), -0.8, 0.0, 0.6)
// a disc against the segment from (0,0) to (L,0): interior contact, or the contact with the end the disc reaches first
//@ anchor geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp moving_sphere_segment_intersection
static bool disc(double* t, double x, double y, double r, double vx, double vy) { double h = x*vx+y*vy, A = vx*vx+vy*vy, k = x*x+y*y-r*r; if (k < 0) { *t = 0; return true; } if (h >= 0) return false; double m = std::sqrt(A), g = h/m, d = g*g-k; if (d < 0) return false; *t = (-g-std::sqrt(d))/m; return true; }
static int seg(double* o, double x, double y, double r, double vx, double vy, double L) {
    double t; if (y <= r && y >= -r) { if (x >= 0 && x <= L) { o[0] = 0; return 1; } if (disc(&t, x < 0 ? x : x-L, y, r, vx, vy)) { o[0] = t; return 2; } return 0; }
    if (vy*y >= 0) return 0;
    t = y > 0 ? (y-r)/-vy : (-y-r)/vy; double p = x+t*vx; if (p >= 0 && p <= L) { o[0] = t; return 1; }
    if (disc(&t, p < 0 ? x : x-L, y, r, vx, vy)) { o[0] = t; return 2; } return 0; }
#define SG(n, r, L, C, vx, vy) \
PRE(n, double* o, double x, double y, double p, double w) { return (C) && sq(x)+sq(y) != (r)*(r) && sq(x-L)+sq(y) != (r)*(r) && (vx)*(vx)+(vy)*(vy) > 0; } \
LIB(int, n, double* o, double x, double y, double p, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_segment_intersection(C2(P2(x,y),r), V2(vx,vy), S2(P2(0,0),P2(L,0)), t, q, EXACT()); if (z.is_intersecting()) { o[0] = t; return z.is_endpoint() ? 2 : 1; } return 0; } \
REF(int, n, double* o, double x, double y, double p, double w) { return seg(o, x, y, r, vx, vy, L); }
SG(sg0, 1.0, 2.0, y < 1 && y > -1 && x < 1, p, w) SG(sg1, 1.0, 2.0, w > 0, 0.6*w, 0.8*w) SG(sg2, 1.0, 2.0, w > 0, -0.6*w, -0.8*w) SG(sg3, 1.0, 2.0, w > 0, w, 0) SG(sg4, p, 2.0, w > 0 && p > 0, 0, w) SG(sg5, p, 2.0, w > 0 && p > 0, -w, 0)
SG(sg6, 1.0, p, w > 0 && p > 0, -0.8*w, -0.6*w) SG(sg7, 1.0, 2.0, y > 1 || y < -1, p, w) SG(sg8, 1.0, 2.0, y == 0, p, w)
// the same with the right end at the origin
PRE(sgb, double* o, double x, double y, double p, double w) { return y < 1 && y > -1 && x > -1 && sq(x)+sq(y) != 1 && sq(x+2)+sq(y) != 1 && p*p+w*w > 0; }
LIB(int, sgb, double* o, double x, double y, double p, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_segment_intersection(C2(P2(x,y),1.0), V2(p,w), S2(P2(-2,0),P2(0,0)), t, q, EXACT()); if (z.is_intersecting()) { o[0] = t; return z.is_endpoint() ? 2 : 1; } return 0; }
REF(int, sgb, double* o, double x, double y, double p, double w) { return seg(o, x+2, y, 1.0, p, w, 2.0); }
// at the reported time the reported point is on the segment and on the disc's boundary
#define SQ(n, C, vx, vy) \
PRE(n, double x, double y, double w) { return (C) && w > 0 && sq(x)+sq(y) != 1 && sq(x-2)+sq(y) != 1; } \
LIB(bool, n, double x, double y, double w) { double t = 0; P2 q(0,0); auto z = moving_sphere_segment_intersection(C2(P2(x,y),1.0), V2(vx,vy), S2(P2(0,0),P2(2,0)), t, q, EXACT()); if (!z || t == 0) return true; return q[1] == 0 && q[0] >= 0 && q[0] <= 2 && sq(q[0]-x-t*(vx))+sq(y+t*(vy)) == 1; } \
REF(bool, n, double x, double y, double w) { return true; }
SQ(sq1, true, w, 0.0) SQ(sq2, true, 0.0, -w) SQ(sq3, true, 0.6*w, 0.8*w)
// two moving balls: relative motion; hit exactly when the centres come within the sum of the radii while approaching
//@ anchor geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp moving_sphere_sphere_intersection
#define SS double* o, const double* a, const double* b, const double* v, double r, double w
PRE(ms2, SS) { return r >= 0 && w >= 0; }
LIB(bool, ms2, SS) { double t = 0; P2 q(0,0); bool z = moving_sphere_sphere_intersection(C2(P2(a[0],a[1]),r), C2(P2(b[0],b[1]),w), V2(v[0],v[1]), V2(v[2],v[3]), t, q, EXACT()); if (z) o[0] = t; return z; }
static bool rel(double* o, double c, double h, double A) { if (c < 0) { *o = 0; return true; } if (h >= 0) return false; double d = h*h-A*c; if (d < 0) return false; *o = (-h-std::sqrt(d))/A; return true; }
REF(bool, ms2, SS) { double x=b[0]-a[0],y=b[1]-a[1],p=v[2]-v[0],q=v[3]-v[1]; return rel(o, x*x+y*y-(r+w)*(r+w), p*x+q*y, p*p+q*q); }
PRE(ms3, SS) { return r >= 0 && w >= 0; }
LIB(bool, ms3, SS) { double t = 0; P3 q(0,0,0); bool z = moving_sphere_sphere_intersection(C3(P3(0,0,0),r), C3(P3(b[0],b[1],b[2]),w), V3(v[0],v[1],v[2]), V3(v[3],v[4],v[5]), t, q, EXACT()); if (z) o[0] = t; return z; }
REF(bool, ms3, SS) { double x=b[0],y=b[1],z=b[2],p=v[3]-v[0],q=v[4]-v[1],s=v[5]-v[2]; return rel(o, x*x+y*y+z*z-(r+w)*(r+w), p*x+q*y+s*z, p*p+q*q+s*s); }
PRE(ms1, SS) { return r >= 0 && w >= 0; }
LIB(bool, ms1, SS) { return moving_sphere_sphere_intersection(C2(P2(0,0),r), C2(P2(b[0],b[1]),w), V2(0,0), V2(v[2],v[3]), EXACT()); }
REF(bool, ms1, SS) { double t; return rel(&t, b[0]*b[0]+b[1]*b[1]-(r+w)*(r+w), v[2]*b[0]+v[3]*b[1], v[2]*v[2]+v[3]*v[3]); }
// where they meet: on both spheres at that time
PRE(msq, double x, double r, double w, double p, double s) { return r > 0 && w > 0; }
LIB(bool, msq, double x, double r, double w, double p, double s) { double t = 0; P2 q(0,0); if (!moving_sphere_sphere_intersection(C2(P2(0,0),r), C2(P2(x,0),w), V2(p,0), V2(s,0), t, q, EXACT()) || t == 0) return true; return q[1] == 0 && sq(q[0]-p*t) == r*r && sq(q[0]-x-s*t) == w*w && t > 0; }
REF(bool, msq, double x, double r, double w, double p, double s) { return true; }
