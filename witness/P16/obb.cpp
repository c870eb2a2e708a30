#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/rectangle.hpp>
typedef oriented_bounding_box<P2, V2> OB;
static void pt(double* o, const P2& p) { o[0] = p[0]; o[1] = p[1]; }
//@ anchor geometrix/primitive/oriented_bounding_box.hpp operator []
static void corner(double* o, double cx, double cy, double ux, double uy, double h, double w, int i) { double s = i == 1 || i == 2 ? h : -h, t = i >= 2 ? w : -w; o[0] = cx + s*ux - t*uy; o[1] = cy + s*uy + t*ux; }
LIB(void, obc, double* o, double cx, double cy, double ux, double uy, double h, double w) { OB b(P2(cx,cy), V2(ux,uy), V2(-uy,ux), h, w); for (int i = 0; i < 4; ++i) pt(o+2*i, b[i]); o[8] = b.size(); }
REF(void, obc, double* o, double cx, double cy, double ux, double uy, double h, double w) { for (int i = 0; i < 4; ++i) corner(o+2*i, cx, cy, ux, uy, h, w, i); o[8] = 4; }
//@ anchor geometrix/primitive/oriented_bounding_box.hpp get_axis / get_halfwidth / get_center
LIB(void, oba, double* o, const double* a, double h, double w) { OB b(P2(a[0],a[1]), V2(a[2],a[3]), V2(a[4],a[5]), h, w); pt(o, b.get_center()); for (int i = 0; i < 2; ++i) { o[2+2*i] = b.get_axis(i)[0]; o[3+2*i] = b.get_axis(i)[1]; o[6+i] = b.get_halfwidth(i); } b.set_center(P2(a[1],a[0])); pt(o+8, b.get_center()); }
REF(void, oba, double* o, const double* a, double h, double w) { for (int i = 0; i < 6; ++i) o[i] = a[i]; o[6] = h; o[7] = w; o[8] = a[1]; o[9] = a[0]; }
//@ anchor geometrix/primitive/oriented_bounding_box.hpp get_rectangle
LIB(void, obr, double* o, const double* a, double h, double w) { OB b(P2(a[0],a[1]), V2(a[2],a[3]), V2(-a[3],a[2]), h, w); auto r = b.get_rectangle(); for (int i = 0; i < 4; ++i) pt(o+2*i, r[i]); }
REF(void, obr, double* o, const double* a, double h, double w) { for (int i = 0; i < 4; ++i) corner(o+2*i, a[0], a[1], a[2], a[3], h, w, i); }
// ---- a rectangle of side lengths 2h, 2w turned by a rational rotation, as box and back
//@ anchor geometrix/primitive/oriented_bounding_box.hpp make_obb
LIB(void, mob, double* o, double cx, double cy, double k, double h, double w) { double n = 1 + k*k, c = (1-k*k)/n, s = 2*k/n; double q[8]; for (int i = 0; i < 4; ++i) corner(q+2*i, cx, cy, c, s, h, w, i);
  auto b = make_obb<P2,V2>(rectangle<P2>(P2(q[0],q[1]), P2(q[2],q[3]), P2(q[4],q[5]), P2(q[6],q[7]))); pt(o, b.get_center()); for (int i = 0; i < 2; ++i) { o[2+2*i] = b.get_axis(i)[0]; o[3+2*i] = b.get_axis(i)[1]; o[6+i] = b.get_halfwidth(i); } }
REF(void, mob, double* o, double cx, double cy, double k, double h, double w) { double n = 1 + k*k, c = (1-k*k)/n, s = 2*k/n; o[0] = cx; o[1] = cy; o[2] = c; o[3] = s; o[4] = -s; o[5] = c; o[6] = h; o[7] = w; }
PRE(mob, double*, double, double, double, double h, double w) { return h > 0 && w > 0; }
