#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/arithmetic/vector/slerp.hpp>
#include <cmath>
// the spherical interpolation of two directions: sin((1-t)a)/sin a of the one and sin(t a)/sin a of the other, a the angle between them
static void rs(double* o, const double* u, const double* v, double t, int n) {
  double d = 0; for (int i = 0; i < n; ++i) d += u[i]*v[i];
  double a = std::acos(d), s = std::sin(a);
  for (int i = 0; i < n; ++i) o[i] = u[i]*(std::sin((1-t)*a)/s) + v[i]*(std::sin(t*a)/s); }
//@ anchor geometrix/arithmetic/vector/slerp.hpp slerp
LIB(void, sl2, double* o, const double* p, double t) { auto r = slerp(V2(p[0],p[1]), V2(p[2],p[3]), t); o[0] = get<0>(r); o[1] = get<1>(r); }
REF(void, sl2, double* o, const double* p, double t) { rs(o, p, p+2, t, 2); }
PRE(sl2, double* o, const double* p, double t) { double d = p[0]*p[2]+p[1]*p[3]; return d > -0.99 && d < 0.99; }
LIB(void, sl3, double* o, const double* p, double t) { auto r = slerp(V3(p[0],p[1],p[2]), V3(p[3],p[4],p[5]), t); o[0] = get<0>(r); o[1] = get<1>(r); o[2] = get<2>(r); }
REF(void, sl3, double* o, const double* p, double t) { rs(o, p, p+3, t, 3); }
PRE(sl3, double* o, const double* p, double t) { double d = p[0]*p[3]+p[1]*p[4]+p[2]*p[5]; return d > -0.99 && d < 0.99; }
// also for nearly equal directions
LIB(void, sln, double* o, const double* p, double t) { auto r = slerp(V2(p[0],p[1]), V2(p[2],p[3]), t); o[0] = get<0>(r); o[1] = get<1>(r); }
REF(void, sln, double* o, const double* p, double t) { rs(o, p, p+2, t, 2); }
PRE(sln, double* o, const double* p, double t) { double d = p[0]*p[2]+p[1]*p[3]; return d > 0.9 && d < 0.9999; }
// at the ends it is the one and the other
LIB(void, sl0, double* o, const double* p) { auto r = slerp(V2(p[0],p[1]), V2(p[2],p[3]), 0.0), s = slerp(V2(p[0],p[1]), V2(p[2],p[3]), 1.0); o[0] = get<0>(r); o[1] = get<1>(r); o[2] = get<0>(s); o[3] = get<1>(s); }
REF(void, sl0, double* o, const double* p) { for (int i = 0; i < 4; ++i) o[i] = p[i]; }
PRE(sl0, double* o, const double* p) { double d = p[0]*p[2]+p[1]*p[3]; return d > -0.99 && d < 0.99; }
// between equal directions it is that direction
LIB(void, sleq, double* o, double t) { auto r = slerp(V2(1,0), V2(1,0), t); o[0] = get<0>(r); o[1] = get<1>(r); }
REF(void, sleq, double* o, double t) { o[0] = 1; o[1] = 0; }
// a quarter turn
LIB(void, slq, double* o, double t) { auto r = slerp(V2(1,0), V2(0,1), t); double x = get<0>(r), y = get<1>(r); o[0] = x; o[1] = y; }
REF(void, slq, double* o, double t) { o[0] = std::sin((1-t)*std::acos(0.0)); o[1] = std::sin(t*std::acos(0.0)); }
