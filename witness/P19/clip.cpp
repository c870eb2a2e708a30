#include "geo.hpp"
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
// s = (x0,y0,x1,y1), b = (xmin,xmax,ymin,ymax).  The specification is parametric (Liang-Barsky): the part of p0 + t (p1 - p0), 0 <= t <= 1, inside the box.
struct clip { double t0, t1; bool some; };
static clip spec(const double* s, const double* b) {
  clip c{0, 1, true};
  for (int k = 0; k < 2; ++k) {
    double p = s[k], d = s[2+k] - p, lo = b[2*k], hi = b[2*k+1];
    if (d == 0) { if (p < lo || p > hi) c.some = false; continue; }
    double ta = (lo - p) / d, tb = (hi - p) / d;
    double te = d > 0 ? ta : tb, tl = d > 0 ? tb : ta;
    if (te > c.t0) c.t0 = te;
    if (tl < c.t1) c.t1 = tl;
  }
  if (c.t0 > c.t1) c.some = false;
  return c;
}
static void run(double* o, const double* s, const double* b) {
  double x0 = s[0], y0 = s[1], x1 = s[2], y1 = s[3];
  bool r = cohen_sutherland_line_clip(x0, y0, x1, y1, b[0], b[1], b[2], b[3], EXACT());
  o[0] = r; if (r) { o[1] = x0; o[2] = y0; o[3] = x1; o[4] = y1; } else { o[1] = o[2] = o[3] = o[4] = 0; }
}
static void ref(double* o, const double* s, const double* b) {
  clip c = spec(s, b); double dx = s[2]-s[0], dy = s[3]-s[1];
  o[0] = c.some; o[1] = o[2] = o[3] = o[4] = 0;
  if (c.some) { o[1] = s[0] + c.t0*dx; o[2] = s[1] + c.t0*dy; o[3] = s[0] + c.t1*dx; o[4] = s[1] + c.t1*dy; }
}
static bool okbox(const double* b) { return b[0] < b[1] && b[2] < b[3]; }
static int code(double x, double y, const double* b) { return (x < b[0] ? 1 : x > b[1] ? 2 : 0) | (y < b[2] ? 4 : y > b[3] ? 8 : 0); }
//@ anchor geometrix/algorithm/cohen_sutherland_line_clipping.hpp compute_out_classification
LIB(int, code, double x, double y, const double* b, double t) { return int(detail::compute_out_classification(x, y, b[0], b[1], b[2], b[3], TOL(t))); }
REF(int, code, double x, double y, const double* b, double t) { return (b[0] - x > t ? 1 : x - b[1] > t ? 2 : 0) | (b[2] - y > t ? 4 : y - b[3] > t ? 8 : 0); }
PRE(code, double, double, const double*, double t) { return t >= 0; }
//@ anchor geometrix/algorithm/cohen_sutherland_line_clipping.hpp cohen_sutherland_line_clip
// start inside
#define FAM(NAME, COND) LIB(void, NAME, double* o, const double* s) { const double b[4] = {-1,2,-3,1}; if (COND) run(o, s, b); } REF(void, NAME, double* o, const double* s) { const double b[4] = {-1,2,-3,1}; if (COND) ref(o, s, b); } \
PRE(NAME, double*, const double* s) { const double b[4] = {-1,2,-3,1}; return (COND); }
#define C0 code(s[0], s[1], b)
#define C1 code(s[2], s[3], b)
FAM(inin, C0 == 0 && C1 == 0)
FAM(in_l, C0 == 0 && C1 == 1)
FAM(in_r, C0 == 0 && C1 == 2)
FAM(in_b, C0 == 0 && C1 == 4)
FAM(in_t, C0 == 0 && C1 == 8)
FAM(in_lb, C0 == 0 && C1 == 5)
FAM(in_lt, C0 == 0 && C1 == 9)
FAM(in_rb, C0 == 0 && C1 == 6)
FAM(in_rt, C0 == 0 && C1 == 10)
FAM(l_in, C0 == 1 && C1 == 0)
FAM(rt_in, C0 == 10 && C1 == 0)
FAM(lb_in, C0 == 5 && C1 == 0)
FAM(l_r, C0 == 1 && C1 == 2)
FAM(b_t, C0 == 4 && C1 == 8)
FAM(l_t, C0 == 1 && C1 == 8)
FAM(b_r, C0 == 4 && C1 == 2)
FAM(lb_r, C0 == 5 && C1 == 2)
FAM(lb_t, C0 == 5 && C1 == 8)
FAM(lb_rt, C0 == 5 && C1 == 10)
FAM(lt_rb, C0 == 9 && C1 == 6)
FAM(rej_l, C0 == 1 && C1 == 1)
FAM(rej_t, C0 == 9 && C1 == 8)
FAM(rej_r, C0 == 6 && C1 == 2)
FAM(rej_b, C0 == 4 && C1 == 5)
