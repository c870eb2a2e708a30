#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <array>
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
static B2 b2(const double* b) { return B2(P2(b[0],b[1]), P2(b[2],b[3])); } static B3 b3(const double* b) { return B3(P3(b[0],b[1],b[2]), P3(b[3],b[4],b[5])); }
template <class B> static void out(double* o, const B& b, int n) { for (int i = 0; i < n; ++i) { o[i] = b.get_lower_bound()[i]; o[n+i] = b.get_upper_bound()[i]; } }
static double mn(double a, double b) { return b < a ? b : a; } static double mx(double a, double b) { return a < b ? b : a; }
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp intersects (point)
#define PIN(N, D, B) LIB(bool, pin##N, const double* p, const double* b, double t) { return b##N(b).intersects(D, TOL(t)); } \
REF(bool, pin##N, const double* p, const double* b, double t) { bool r = true; for (int i = 0; i < N; ++i) r = r && p[i] - b[i] >= -t && p[i] - b[N+i] <= t; return r; } \
PRE(pin##N, const double*, const double*, double t) { return t >= 0; } \
LIB(bool, pind##N, const double* p, const double* b) { return b##N(b).intersects(D); } \
REF(bool, pind##N, const double* p, const double* b) { bool r = true; for (int i = 0; i < N; ++i) r = r && p[i] >= b[i] && p[i] <= b[N+i]; return r; }
PIN(2, (P2(p[0],p[1])), B2) PIN(3, (P3(p[0],p[1],p[2])), B3)
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp intersects (box)
#define BIN(N) LIB(bool, bin##N, const double* a, const double* b, double t) { return b##N(a).intersects(b##N(b), TOL(t)); } \
REF(bool, bin##N, const double* a, const double* b, double t) { bool r = true; for (int i = 0; i < N; ++i) r = r && b[i] - a[N+i] <= t && a[i] - b[N+i] <= t; return r; } \
PRE(bin##N, const double*, const double*, double t) { return t >= 0; } \
LIB(bool, bind##N, const double* a, const double* b) { return b##N(a).intersects(b##N(b)); } \
REF(bool, bind##N, const double* a, const double* b) { bool r = true; for (int i = 0; i < N; ++i) r = r && b[i] <= a[N+i] && a[i] <= b[N+i]; return r; } \
LIB(bool, bsym##N, const double* a, const double* b, double t) { return b##N(a).intersects(b##N(b), TOL(t)) == b##N(b).intersects(b##N(a), TOL(t)); } \
REF(bool, bsym##N, const double* a, const double* b, double t) { return true; } \
PRE(bsym##N, const double*, const double*, double t) { return t >= 0; }
BIN(2) BIN(3)
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp contains
#define BCOT(N) LIB(bool, bco##N, const double* a, const double* b, double t) { return b##N(a).contains(b##N(b), TOL(t)); } \
REF(bool, bco##N, const double* a, const double* b, double t) { bool r = true; for (int i = 0; i < N; ++i) r = r && b[i] - a[i] >= -t && b[N+i] - a[N+i] <= t; return r; } \
PRE(bco##N, const double*, const double* b, double t) { bool r = t >= 0; for (int i = 0; i < N; ++i) r = r && b[i] <= b[N+i]; return r; }
#define BCO(N) \
LIB(bool, bcod##N, const double* a, const double* b) { return b##N(a).contains(b##N(b)); } \
REF(bool, bcod##N, const double* a, const double* b) { bool r = true; for (int i = 0; i < N; ++i) r = r && b[i] >= a[i] && b[N+i] <= a[N+i]; return r; } \
PRE(bcod##N, const double*, const double* b) { bool r = true; for (int i = 0; i < N; ++i) r = r && b[i] <= b[N+i]; return r; }
BCOT(2) BCO(2) BCO(3)
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp expand
#define EXP(N) LIB(void, exp##N, double* o, const double* a, const double* b) { auto x = b##N(a); x.expand(b##N(b)); out(o, x, N); } \
REF(void, exp##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) { o[i] = mn(a[i],b[i]); o[N+i] = mx(a[N+i],b[N+i]); } }
EXP(2) EXP(3)
LIB(void, expt2, double* o, const double* a, const double* b) { auto x = b2(a); x.expand(std::make_tuple(b[0],b[2],b[1],b[3])); out(o, x, 2); }
REF(void, expt2, double* o, const double* a, const double* b) { for (int i = 0; i < 2; ++i) { o[i] = mn(a[i],b[i]); o[2+i] = mx(a[2+i],b[2+i]); } }
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp to_tuple / tuple constructor
LIB(void, tup2, double* o, const double* a) { B2 x = b2(a); auto t = x.to_tuple(); out(o, B2(t), 2); B2 y(P2(0,0),P2(0,0)); y = t; out(o+4, y, 2); out(o+8, make_aabb<P2>(t), 2); }
REF(void, tup2, double* o, const double* a) { for (int i = 0; i < 12; ++i) o[i] = a[i%4]; }
LIB(void, tup3, double* o, const double* a) { B3 x = b3(a); auto t = x.to_tuple(); out(o, B3(t), 3); B3 y(P3(0,0,0),P3(0,0,0)); y = t; out(o+6, y, 3); out(o+12, make_aabb<P3>(t), 3); }
REF(void, tup3, double* o, const double* a) { for (int i = 0; i < 18; ++i) o[i] = a[i%6]; }
LIB(void, tupo, double* o, const double* a) { auto t = b2(a).to_tuple(); o[0] = std::get<e_xmin>(t); o[1] = std::get<e_xmax>(t); o[2] = std::get<e_ymin>(t); o[3] = std::get<e_ymax>(t); }
REF(void, tupo, double* o, const double* a) { o[0] = a[0]; o[1] = a[2]; o[2] = a[1]; o[3] = a[3]; }
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp operator []
LIB(void, corners, double* o, const double* a) { B2 x = b2(a); for (int i = 0; i < 4; ++i) { P2 q = x[i]; o[2*i] = q[0]; o[2*i+1] = q[1]; } }
REF(void, corners, double* o, const double* a) { double r[8] = {a[0],a[1],a[2],a[1],a[2],a[3],a[0],a[3]}; for (int i = 0; i < 8; ++i) o[i] = r[i]; }
//@ anchor geometrix/primitive/axis_aligned_bounding_box.hpp make_aabb (segment)
LIB(void, mks2, double* o, const double* a) { out(o, make_aabb<P2>(S2(P2(a[0],a[1]), P2(a[2],a[3]))), 2); }
REF(void, mks2, double* o, const double* a) { for (int i = 0; i < 2; ++i) { o[i] = mn(a[i],a[2+i]); o[2+i] = mx(a[i],a[2+i]); } }
LIB(void, mks3, double* o, const double* a) { out(o, make_aabb<P3>(S3(P3(a[0],a[1],a[2]), P3(a[3],a[4],a[5]))), 3); }
REF(void, mks3, double* o, const double* a) { for (int i = 0; i < 3; ++i) { o[i] = mn(a[i],a[3+i]); o[3+i] = mx(a[i],a[3+i]); } }
