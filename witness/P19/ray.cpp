#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
typedef axis_aligned_bounding_box<P2> BX;
// the parameters at which p + t d, t >= 0, is in the closed box [0,4]x[0,2]
static bool slab(double* lo, double* hi, bool* has, double c, double v, double L) { if (v == 0) return c >= 0 && c <= L; double a = -c/v, b = (L-c)/v; if (v < 0) { double t = a; a = b; b = t; } if (a > *lo) *lo = a; if (!*has || b < *hi) *hi = b; *has = true; return *lo <= *hi; }
static bool part(double* lo, double* hi, double x, double y, double v, double w) { bool has = false; *lo = 0; *hi = 0; return slab(lo, hi, &has, x, v, 4) && slab(lo, hi, &has, y, w, 2); }
static bool in(double x, double y) { return x >= 0 && x <= 4 && y >= 0 && y <= 2; }
#define RX(n, C, V, W) PRE(rx##n, double* o, double x, double y, double u) { return u > 0 && (C); } \
LIB(int, rx##n, double* o, double x, double y, double u) { double s = 0, e = 0; P2 q(0,0), r(0,0); auto z = ray_aabb_intersection(P2(x,y), V2(V,W), BX(P2(0,0),P2(4,2)), s, q, e, r, EXACT()); if (!z.is_intersecting()) return 0; o[0] = s; o[1] = e; o[2] = q[0]; o[3] = q[1]; o[4] = r[0]; o[5] = r[1]; return z.is_origin_inside() ? 2 : 1; } \
REF(int, rx##n, double* o, double x, double y, double u) { double s, e; if (!part(&s, &e, x, y, V, W)) return 0; o[0] = s; o[1] = e; o[2] = x+s*(V); o[3] = y+s*(W); o[4] = x+e*(V); o[5] = y+e*(W); return in(x,y) ? 2 : 1; } \
PRE(ry##n, double* o, double x, double y, double u) { return u > 0 && (C); } \
LIB(int, ry##n, double* o, double x, double y, double u) { double s = 0; P2 q(0,0); auto z = ray_aabb_intersection(P2(x,y), V2(V,W), BX(P2(0,0),P2(4,2)), s, q, EXACT()); if (!z.is_intersecting()) return 0; o[0] = s; o[1] = q[0]; o[2] = q[1]; return z.is_origin_inside() ? 2 : 1; } \
REF(int, ry##n, double* o, double x, double y, double u) { double s, e; if (!part(&s, &e, x, y, V, W)) return 0; double t = in(x,y) ? e : s; o[0] = s; o[1] = x+t*(V); o[2] = y+t*(W); return in(x,y) ? 2 : 1; }
//@ anchor geometrix/algorithm/intersection/ray_aabb_intersection.hpp ray_aabb_intersection
RX(a, true, u, 0.0) RX(b, true, -u, 0.0) RX(c, true, 0.0, u) RX(d, true, 0.0, -u) RX(e, true, 1.0, u) RX(f, true, -u, 1.0) RX(g, true, u, -2.0) RX(h, true, -3.0, -u)
LIB(bool, rz, double x, double y, double v, double w) { double s = 0; P2 q(0,0); auto z = ray_aabb_intersection(P2(x,y), V2(v,w), BX(P2(0,0),P2(4,2)), s, q, EXACT()); bool r = z ? true : false; return r == z.is_intersecting() && z == r && r; }
REF(bool, rz, double x, double y, double v, double w) { double s, e; return part(&s, &e, x, y, v, w); } PRE(rz, double x, double y, double v, double w) { return v != 0 || w != 0; }
