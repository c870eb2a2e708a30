#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
typedef sphere<2,P2> C2; typedef sphere<3,P3> C3; typedef plane<P3> PL; typedef line<P2> L2;
#define G const double* a, const double* b, double r
static P2 m2(const double* p) { return P2(p[0],p[1]); } static P3 m3(const double* p) { return P3(p[0],p[1],p[2]); }
// both roots; the sphere at the origin (the code only uses differences), then anywhere
//@ anchor geometrix/algorithm/intersection/segment_sphere_intersection.hpp segment_sphere_intersection
static int two(double* o, double A, double h, double c) { double D = h*h-A*c; if (D < 0) return 0; double s = std::sqrt(D); o[0] = (-h-s)/A; o[1] = (-h+s)/A; return 4 + (o[0] >= 0 && o[0] <= 1 ? 1 : 0) + (o[1] >= 0 && o[1] <= 1 ? 2 : 0); }
PRE(ss2, double* o, G, double cx, double cy) { return r >= 0 && d2sq(a[0],a[1],b[0],b[1]) > 0; }
LIB(int, ss2, double* o, G, double cx, double cy) { double t[2] = {0,0}; P2 q[2] = {P2(0,0),P2(0,0)}; auto z = segment_sphere_intersection(m2(a), m2(b), C2(P2(cx,cy),r), t, q, EXACT()); int n = (z.is_t0_intersecting()?1:0)+(z.is_t1_intersecting()?2:0); if (n) for (int i = 0; i < 2; ++i) { o[3*i] = t[i]; o[3*i+1] = q[i][0]; o[3*i+2] = q[i][1]; } return n; }
REF(int, ss2, double* o, G, double cx, double cy) { double dx=b[0]-a[0],dy=b[1]-a[1],fx=a[0]-cx,fy=a[1]-cy; double t[2]; int n = two(t, dx*dx+dy*dy, fx*dx+fy*dy, fx*fx+fy*fy-r*r) & 3; if (n) for (int i = 0; i < 2; ++i) { o[3*i] = t[i]; o[3*i+1] = a[0]+t[i]*dx; o[3*i+2] = a[1]+t[i]*dy; } return n; }
PRE(ss3, double* o, G) { return r >= 0 && sq(a[0]-b[0])+sq(a[1]-b[1])+sq(a[2]-b[2]) > 0; }
LIB(int, ss3, double* o, G) { double t[2] = {0,0}; P3 q[2] = {P3(0,0,0),P3(0,0,0)}; auto z = segment_sphere_intersection(m3(a), m3(b), C3(P3(1,2,3),r), t, q, EXACT()); int n = (z.is_t0_intersecting()?1:0)+(z.is_t1_intersecting()?2:0); if (n) for (int i = 0; i < 2; ++i) { o[4*i] = t[i]; o[4*i+1] = q[i][0]; o[4*i+2] = q[i][1]; o[4*i+3] = q[i][2]; } return n; }
REF(int, ss3, double* o, G) { double dx=b[0]-a[0],dy=b[1]-a[1],dz=b[2]-a[2],fx=a[0]-1,fy=a[1]-2,fz=a[2]-3; double t[2]; int n = two(t, dx*dx+dy*dy+dz*dz, fx*dx+fy*dy+fz*dz, fx*fx+fy*fy+fz*fz-r*r) & 3; if (n) for (int i = 0; i < 2; ++i) { o[4*i] = t[i]; o[4*i+1] = a[0]+t[i]*dx; o[4*i+2] = a[1]+t[i]*dy; o[4*i+3] = a[2]+t[i]*dz; } return n; }
// reported points are on the sphere
PRE(sson, G) { return r >= 0 && d2sq(a[0],a[1],b[0],b[1]) > 0; }
LIB(bool, sson, G) { double t[2] = {0,0}; P2 q[2] = {P2(0,0),P2(0,0)}; auto z = segment_sphere_intersection(m2(a), m2(b), C2(P2(0,0),r), t, q, EXACT()); if (!z) return true; return sq(q[0][0])+sq(q[0][1]) == r*r && sq(q[1][0])+sq(q[1][1]) == r*r; }
REF(bool, sson, G) { return true; }
// first contact along the segment; a zero-length segment is the point itself
static bool first(double* o, const double* a, double dx, double dy, double r) { double A=dx*dx+dy*dy, c=a[0]*a[0]+a[1]*a[1]-r*r, h=a[0]*dx+a[1]*dy; double t; if (c <= 0) t = 0; else { if (h > 0) return false; double D = h*h-A*c; if (D < 0) return false; t = (-h-std::sqrt(D))/A; if (t > 1) return false; } o[0]=t; o[1]=a[0]+t*dx; o[2]=a[1]+t*dy; return true; }
PRE(sf, double* o, G) { return r >= 0 && d2sq(a[0],a[1],b[0],b[1]) > 0; }
LIB(bool, sf, double* o, G) { double t = 0; P2 q(0,0); bool z = segment_sphere_intersection(m2(a), m2(b), C2(P2(0,0),r), t, q, EXACT()); if (z) { o[0] = t; o[1] = q[0]; o[2] = q[1]; } return z; }
REF(bool, sf, double* o, G) { return first(o, a, b[0]-a[0], b[1]-a[1], r); }
PRE(sfs, double* o, G) { return r >= 0 && d2sq(a[0],a[1],b[0],b[1]) > 0; }
LIB(bool, sfs, double* o, G) { double t = 0; P2 q(0,0); bool z = segment_sphere_intersection(S2(m2(a), m2(b)), C2(P2(0,0),r), t, q, EXACT()); if (z) { o[0] = t; o[1] = q[0]; o[2] = q[1]; } return z; }
REF(bool, sfs, double* o, G) { return first(o, a, b[0]-a[0], b[1]-a[1], r); }
PRE(sfz, double* o, double x, double y, double r) { return r >= 0; }
LIB(bool, sfz, double* o, double x, double y, double r) { double t = 9; P2 q(7,7); bool z = segment_sphere_intersection(P2(x,y), P2(x,y), C2(P2(0,0),r), t, q, EXACT()); if (z) { o[0] = t; o[1] = q[0]; o[2] = q[1]; } return z; }
REF(bool, sfz, double* o, double x, double y, double r) { if (x*x+y*y > r*r) return false; o[0]=0; o[1]=x; o[2]=y; return true; }
//@ anchor geometrix/algorithm/intersection/ray_sphere_intersection.hpp ray_sphere_intersection
PRE(rs, double* o, const double* a, double dx, double dy, double r) { return r >= 0 && dx*dx+dy*dy == 1; }
LIB(bool, rs, double* o, const double* a, double dx, double dy, double r) { double t = 0; P2 q(0,0); bool z = ray_sphere_intersection(m2(a), V2(dx,dy), C2(P2(0,0),r), t, q, EXACT()); if (z) { o[0] = t; o[1] = q[0]; o[2] = q[1]; } return z; }
REF(bool, rs, double* o, const double* a, double dx, double dy, double r) { double c=a[0]*a[0]+a[1]*a[1]-r*r, h=a[0]*dx+a[1]*dy; double t; if (c <= 0) t = 0; else { if (h > 0) return false; double D = h*h-c; if (D < 0) return false; t = -h-std::sqrt(D); } o[0]=t; o[1]=a[0]+t*dx; o[2]=a[1]+t*dy; return true; }
// two circles: state by distance, reported points on both
#define CC(n, F, E, FILE) \
PRE(n##_state, double x, double y, double r, double s) { return r >= 0 && s >= 0; } \
LIB(int, n##_state, double x, double y, double r, double s) { return (int)F(C2(P2(1,2),r), C2(P2(x,y),s), EXACT()).State; } \
REF(int, n##_state, double x, double y, double r, double s) { double d = sq(x-1)+sq(y-2); if (d > sq(r+s)) return 0; if (d < sq(r-s)) return 1; if (d == 0) return 4; return d == sq(r+s) || d == sq(r-s) ? 2 : 3; } \
PRE(n##_on, double x, double y, double r, double s) { return r > 0 && s > 0 && sq(x-1)+sq(y-2) > 0 && sq(x-1)+sq(y-2) < sq(r+s) && sq(x-1)+sq(y-2) > sq(r-s); } \
LIB(bool, n##_on, double x, double y, double r, double s) { auto z = F(C2(P2(1,2),r), C2(P2(x,y),s), EXACT()); if (z.State != E::two_intersections) return false; P2 p = *z.IntersectionPoint0, q = *z.IntersectionPoint1; return sq(p[0]-1)+sq(p[1]-2) == r*r && sq(q[0]-1)+sq(q[1]-2) == r*r && sq(p[0]-x)+sq(p[1]-y) == s*s && sq(q[0]-x)+sq(q[1]-y) == s*s && (p[0]!=q[0]||p[1]!=q[1]); } \
REF(bool, n##_on, double x, double y, double r, double s) { return true; } \
PRE(n##_out, double* o, double k, double r, double s) { return r > 0 && s > 0; } \
LIB(int, n##_out, double* o, double k, double r, double s) { double n_=1+k*k, c=(1-k*k)/n_, t=2*k/n_; auto z = F(C2(P2(1,2),r), C2(P2(1+(r+s)*c,2+(r+s)*t),s), EXACT()); if (z.IntersectionPoint0) { o[0] = (*z.IntersectionPoint0)[0]; o[1] = (*z.IntersectionPoint0)[1]; } return (int)z.State; } \
REF(int, n##_out, double* o, double k, double r, double s) { double n_=1+k*k, c=(1-k*k)/n_, t=2*k/n_; o[0] = 1+r*c; o[1] = 2+r*t; return 2; } \
PRE(n##_in, double* o, double k, double r, double s) { return r > 0 && s > r; } \
LIB(int, n##_in, double* o, double k, double r, double s) { double n_=1+k*k, c=(1-k*k)/n_, t=2*k/n_; auto z = F(C2(P2(1,2),r), C2(P2(1+(s-r)*c,2+(s-r)*t),s), EXACT()); if (z.IntersectionPoint0) { o[0] = (*z.IntersectionPoint0)[0]; o[1] = (*z.IntersectionPoint0)[1]; } return (int)z.State; } \
REF(int, n##_in, double* o, double k, double r, double s) { double n_=1+k*k, c=(1-k*k)/n_, t=2*k/n_; o[0] = 1-r*c; o[1] = 2-r*t; return 2; }
//@ anchor geometrix/algorithm/intersection/sphere_sphere_intersection.hpp sphere_sphere_intersection
CC(sph, sphere_sphere_intersection, sphere_intersection_state, _)
//@ anchor geometrix/algorithm/intersection/circle_circle_intersection.hpp circle_circle_intersection
CC(cir, circle_circle_intersection, circle_intersection_state, _)
// planes
//@ anchor geometrix/algorithm/intersection/segment_plane_intersection.hpp segment_plane_intersection
static double sd(const double* u, const double* v, double x, double y, double z) { double nx=u[1]*v[2]-u[2]*v[1], ny=u[2]*v[0]-u[0]*v[2], nz=u[0]*v[1]-u[1]*v[0]; return nx*(x-1)+ny*(y-2)+nz*(z-3); }
PRE(sp, double* o, const double* a, const double* b, const double* u, const double* v) { return sq(u[0])+sq(u[1])+sq(u[2]) > 0 && sq(v[0])+sq(v[1])+sq(v[2]) > 0 && sq(u[1]*v[2]-u[2]*v[1])+sq(u[2]*v[0]-u[0]*v[2])+sq(u[0]*v[1]-u[1]*v[0]) > 0 && sd(u,v,a[0],a[1],a[2]) != sd(u,v,b[0],b[1],b[2]); }
LIB(bool, sp, double* o, const double* a, const double* b, const double* u, const double* v) { double t = 0; P3 q(0,0,0); bool z = segment_plane_intersection(m3(a), m3(b), PL(P3(1,2,3),V3(u[0],u[1],u[2]),V3(v[0],v[1],v[2])), t, q); if (z) { o[0]=t; for (int i = 0; i < 3; ++i) o[i+1] = q[i]; } return z; }
REF(bool, sp, double* o, const double* a, const double* b, const double* u, const double* v) { double s=sd(u,v,a[0],a[1],a[2]), e=sd(u,v,b[0],b[1],b[2]); if ((s > 0 && e > 0) || (s < 0 && e < 0)) return false; double t = s/(s-e); o[0]=t; for (int i = 0; i < 3; ++i) o[i+1] = a[i]+t*(b[i]-a[i]); return true; }
PRE(sl, double* o, const double* a, const double* b, double cx, double cy, double dx, double dy) { return d2sq(cx,cy,dx,dy) > 0 && turn(cx,cy,dx,dy,a[0],a[1]) != turn(cx,cy,dx,dy,b[0],b[1]); }
LIB(bool, sl, double* o, const double* a, const double* b, double cx, double cy, double dx, double dy) { double t = 0; P2 q(0,0); bool z = segment_plane_intersection(m2(a), m2(b), L2(P2(cx,cy),P2(dx,dy)), t, q); if (z) { o[0]=t; o[1]=q[0]; o[2]=q[1]; } return z; }
REF(bool, sl, double* o, const double* a, const double* b, double cx, double cy, double dx, double dy) { double s=turn(cx,cy,dx,dy,a[0],a[1]), e=turn(cx,cy,dx,dy,b[0],b[1]); if ((s > 0 && e > 0) || (s < 0 && e < 0)) return false; double t = s/(s-e); o[0]=t; o[1]=a[0]+t*(b[0]-a[0]); o[2]=a[1]+t*(b[1]-a[1]); return true; }
