#include "geo.hpp"
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/primitive/line.hpp>
// specification: clamp the projection parameter, evaluate, measure
static double clp(double e, double f) { return e <= 0 ? 0 : e >= f ? 1 : e / f; }
static double ref(double px, double py, double ax, double ay, double bx, double by, double* o = 0) { double ux = bx-ax, uy = by-ay; double k = clp((px-ax)*ux + (py-ay)*uy, ux*ux+uy*uy);
  double x = ax + k*ux, y = ay + k*uy; if (o) { o[0] = x; o[1] = y; } return d2sq(px,py,x,y); }
//@ anchor geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance_sqrd
LIB(double, psd2, double px, double py, double ax, double ay, double bx, double by) { return point_segment_distance_sqrd(P2(px,py), P2(ax,ay), P2(bx,by)); }
REF(double, psd2, double px, double py, double ax, double ay, double bx, double by) { return ref(px,py,ax,ay,bx,by); }
LIB(double, psd2s, double px, double py, double ax, double ay, double bx, double by) { return point_segment_distance_sqrd(P2(px,py), S2(P2(ax,ay), P2(bx,by))); }
REF(double, psd2s, double px, double py, double ax, double ay, double bx, double by) { return ref(px,py,ax,ay,bx,by); }
LIB(double, psd2d, double px, double py, double ax, double ay, double bx, double by) { return point_segment_distance(P2(px,py), S2(P2(ax,ay), P2(bx,by))); }
REF(double, psd2d, double px, double py, double ax, double ay, double bx, double by) { return std::sqrt(ref(px,py,ax,ay,bx,by)); }
LIB(double, psd3, const double* p, const double* a, const double* b) { return point_segment_distance_sqrd(P3(p[0],p[1],p[2]), P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2])); }
static double ref3(const double* p, const double* a, const double* b, double* o = 0) { double u[3], w[3], e = 0, f = 0, s = 0; for (int i = 0; i < 3; ++i) { u[i] = b[i]-a[i]; w[i] = p[i]-a[i]; e += u[i]*w[i]; f += u[i]*u[i]; }
  double k = clp(e, f); for (int i = 0; i < 3; ++i) { double x = a[i] + k*u[i]; if (o) o[i] = x; s += sq(p[i]-x); } return s; }
REF(double, psd3, const double* p, const double* a, const double* b) { return ref3(p,a,b); }
LIB(double, psd3d, const double* p, const double* a, const double* b) { return point_segment_distance(P3(p[0],p[1],p[2]), S3(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2]))); }
REF(double, psd3d, const double* p, const double* a, const double* b) { return std::sqrt(ref3(p,a,b)); }
//@ anchor geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point
LIB(void, pscp2s, double* o, double px, double py, double ax, double ay, double bx, double by) { auto q = point_segment_closest_point(P2(px,py), S2(P2(ax,ay), P2(bx,by))); o[0] = q[0]; o[1] = q[1]; }
REF(void, pscp2s, double* o, double px, double py, double ax, double ay, double bx, double by) { ref(px,py,ax,ay,bx,by,o); }
LIB(void, pscp2, double* o, double px, double py, double ax, double ay, double bx, double by) { auto q = point_segment_closest_point(P2(px,py), P2(ax,ay), P2(bx,by)); o[0] = q[0]; o[1] = q[1]; }
REF(void, pscp2, double* o, double px, double py, double ax, double ay, double bx, double by) { ref(px,py,ax,ay,bx,by,o); }
PRE(pscp2, double*, double, double, double ax, double ay, double bx, double by) { return ax != bx || ay != by; }
LIB(void, pscp3s, double* o, const double* p, const double* a, const double* b) { auto q = point_segment_closest_point(P3(p[0],p[1],p[2]), S3(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2]))); for (int i = 0; i < 3; ++i) o[i] = q[i]; }
REF(void, pscp3s, double* o, const double* p, const double* a, const double* b) { ref3(p,a,b,o); }
LIB(void, pscp3, double* o, const double* p, const double* a, const double* b) { auto q = point_segment_closest_point(P3(p[0],p[1],p[2]), P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2])); for (int i = 0; i < 3; ++i) o[i] = q[i]; }
REF(void, pscp3, double* o, const double* p, const double* a, const double* b) { ref3(p,a,b,o); }
PRE(pscp3, double*, const double* p, const double* a, const double* b) { return a[0] != b[0] || a[1] != b[1] || a[2] != b[2]; }
//@ anchor geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point_and_param
LIB(void, pscpp, double* o, double px, double py, double ax, double ay, double bx, double by) { double t; auto q = point_segment_closest_point_and_param(P2(px,py), P2(ax,ay), P2(bx,by), t); o[0] = q[0]; o[1] = q[1]; o[2] = t; }
REF(void, pscpp, double* o, double px, double py, double ax, double ay, double bx, double by) { ref(px,py,ax,ay,bx,by,o); double ux = bx-ax, uy = by-ay; o[2] = ((px-ax)*ux + (py-ay)*uy) / (ux*ux+uy*uy); }
PRE(pscpp, double*, double, double, double ax, double ay, double bx, double by) { return ax != bx || ay != by; }
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp signed_point_line_distance
LIB(double, spl, double px, double py, double ax, double ay, double bx, double by) { return signed_point_line_distance(P2(px,py), line<P2>(P2(ax,ay), P2(bx,by))); }
REF(double, spl, double px, double py, double ax, double ay, double bx, double by) { return turn(ax,ay,bx,by,px,py) / std::sqrt(d2sq(ax,ay,bx,by)); }
PRE(spl, double, double, double ax, double ay, double bx, double by) { return ax != bx || ay != by; }
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp point_line_distance
LIB(double, pld, double px, double py, double ax, double ay, double bx, double by) { return point_line_distance(P2(px,py), line<P2>(P2(ax,ay), P2(bx,by))); }
REF(double, pld, double px, double py, double ax, double ay, double bx, double by) { return std::fabs(turn(ax,ay,bx,by,px,py)) / std::sqrt(d2sq(ax,ay,bx,by)); }
PRE(pld, double, double, double ax, double ay, double bx, double by) { return d2sq(ax,ay,bx,by) > 0; }
LIB(double, pldv, double px, double py, double ax, double ay, double ux, double uy) { return point_line_distance(P2(px,py), line<P2>(P2(ax,ay), V2(ux,uy))) - point_line_distance(P2(px,py), line<P2>(S2(P2(ax,ay), P2(ax+ux,ay+uy)))); }
REF(double, pldv, double px, double py, double ax, double ay, double bx, double by) { return 0; }
PRE(pldv, double, double, double ax, double ay, double bx, double by) { return bx != 0 || by != 0; }
