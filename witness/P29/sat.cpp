#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
typedef std::array<P2,3> T3; typedef std::array<P2,4> Q4; typedef std::array<P2,5> N5;
// the extreme vertex in a direction
//@ anchor geometrix/algorithm/intersection/detail/separating_axis_common.hpp get_extreme_index
LIB(bool, ex3, const double* a, double x, double y) { T3 p = {P2(a[0],a[1]),P2(a[2],a[3]),P2(a[4],a[5])}; auto k = detail_separating_axis::get_extreme_index(p, V2(x,y), EXACT()); if (k > 2) return false; double m = k==0?x*a[0]+y*a[1]:k==1?x*a[2]+y*a[3]:x*a[4]+y*a[5]; return m >= x*a[0]+y*a[1] && m >= x*a[2]+y*a[3] && m >= x*a[4]+y*a[5]; }
REF(bool, ex3, const double* a, double x, double y) { return true; }
LIB(double, ex4, double a, double b, double c, double d) { Q4 p = {P2(a,1),P2(b,2),P2(c,3),P2(d,4)}; auto k = detail_separating_axis::get_extreme_index(p, V2(1,0), EXACT()); return k==0?a:k==1?b:k==2?c:k==3?d:1e9; }
REF(double, ex4, double a, double b, double c, double d) { double m = a; if (b > m) m = b; if (c > m) m = c; if (d > m) m = d; return m; }
LIB(double, ex5, double a, double b, double c, double d, double e) { N5 p = {P2(0,a),P2(0,b),P2(0,c),P2(0,d),P2(0,e)}; auto k = detail_separating_axis::get_extreme_index(p, V2(0,-1), EXACT()); return k==0?a:k==1?b:k==2?c:k==3?d:k==4?e:1e9; }
REF(double, ex5, double a, double b, double c, double d, double e) { double m = a; if (b < m) m = b; if (c < m) m = c; if (d < m) m = d; if (e < m) m = e; return m; }
LIB(void, ci, double* o, const double* a, double x, double y) { T3 p = {P2(a[0],a[1]),P2(a[2],a[3]),P2(a[4],a[5])}; detail_separating_axis::compute_interval(p, V2(x,y), o[0], o[1], EXACT()); }
REF(void, ci, double* o, const double* a, double x, double y) { double p=x*a[0]+y*a[1],q=x*a[2]+y*a[3],r=x*a[4]+y*a[5]; double l=p,h=p; if (q<l) l=q; if (r<l) l=r; if (q>h) h=q; if (r>h) h=r; o[0]=l; o[1]=h; }
// moving intervals: when they overlap, from tfirst to tlast
//@ anchor geometrix/algorithm/intersection/detail/separating_axis_common.hpp no_intersect
#define NI(n, C, a, b, f, m) \
PRE(n, double* o, double s, double c, double d, double p, double l) { return c <= d && (f) <= l && l >= 0 && (C); } \
LIB(bool, n, double* o, double s, double c, double d, double p, double l) { int side = 0; double t = f; bool z = detail_separating_axis::no_intersect<double>(m, s, a, b, c, d, side, t, l); if (!z) { o[0] = t; o[1] = l; } return z; } \
REF(bool, n, double* o, double s, double c, double d, double p, double l) { double t = f; if (s == 0) { if (d < (a) || (b) < c) return true; } else { double v = ((a)-d)/s, q = ((b)-c)/s; if (v > q) { double t = v; v = q; q = t; } if (v > t) t = v; if (q < l) l = q; if (t > (m) || t > l) return true; } o[0] = t; o[1] = l; return false; }
NI(ni1, s > 0, 0.0, 2.0, 0.0, 10.0) NI(ni2, s < 0, 0.0, 2.0, 0.0, 10.0) NI(ni3, s == 0, 0.0, 2.0, 0.0, 10.0) NI(ni4, s > 0 && p >= 0 && p < 9, -1.0, 1.0, p, 9.0) NI(ni5, s < 0 && p >= 0, -1.0, 1.0, 0.0, p)
// moving polygons; turned at will (the test must not depend on the first vertex)
//@ anchor geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp moving_convex_polygons_intersection
struct iv { double lo, hi; bool ok; };
static void shadow(iv* r, double a, double b, double v) { if (v == 0) { if (!(a <= 0 && 0 <= b)) r->ok = false; return; } double p = -b/v, q = -a/v; if (p > q) { double t = p; p = q; q = t; } if (p > r->lo) r->lo = p; if (q < r->hi) r->hi = q; }
#define MP(n, C, K, u, v) \
PRE(n, double* o, double x, double y, double w, double m) { return m >= 0 && w > 0 && (C); } \
LIB(bool, n, double* o, double x, double y, double w, double m) { P2 a[4] = {P2(0,0),P2(4,0),P2(4,2),P2(0,2)}; Q4 p = {a[K%4],a[(K+1)%4],a[(K+2)%4],a[(K+3)%4]}; T3 q = {P2(x,y),P2(x+1,y),P2(x,y+1)}; double f = 0, l = 0; bool z = moving_convex_polygons_intersection(p, V2(0,0), q, V2(u,v), m, f, l, EXACT()); if (z) o[0] = f; return z; } \
REF(bool, n, double* o, double x, double y, double w, double m) { iv r = {0, 1e300, true}; shadow(&r, x-4, x+1, u); shadow(&r, y-2, y+1, v); shadow(&r, x+y-6, x+y+1, u+v); if (!r.ok || r.lo > r.hi || r.lo > m) return false; o[0] = r.lo; return true; }
MP(mp1, true, 0, w, 0.0) MP(mp2, true, 1, 0.0, w) MP(mp3, true, 2, w, -2*w) MP(mp4, true, 3, -w, -w)
// standing polygons: apart exactly when some edge separates them (touching apart)
//@ anchor geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp convex_polygons_intersection
#define CP(n, K, J) \
LIB(bool, n, double x, double y) { P2 a[4] = {P2(0,0),P2(4,0),P2(4,2),P2(0,2)}; Q4 p = {a[K%4],a[(K+1)%4],a[(K+2)%4],a[(K+3)%4]}; P2 b[3] = {P2(x,y),P2(x+1,y),P2(x,y+1)}; T3 q = {b[J%3],b[(J+1)%3],b[(J+2)%3]}; return convex_polygons_intersection(p, q, EXACT()); } \
REF(bool, n, double x, double y) { return x < 4 && x+1 > 0 && y < 2 && y+1 > 0 && x+y < 6 && x+y+1 > 0; }
CP(cp1, 0, 0) CP(cp2, 1, 2) CP(cp3, 3, 1)
// any counter-clockwise triangle meets itself
PRE(cpt, const double* a) { return turn(0,0,a[0],a[1],a[2],a[3]) > 0; }
LIB(bool, cpt, const double* a) { T3 p = {P2(0,0),P2(a[0],a[1]),P2(a[2],a[3])}; return convex_polygons_intersection(p, p, EXACT()); }
REF(bool, cpt, const double* a) { return true; }
