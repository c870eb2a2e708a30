//@ grow geometrix/algorithm/point_in_polygon.hpp geometrix/algorithm/orientation.hpp
#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include "grow.hpp"
// a comb of SZ teeth ends: many corners on either side of the point
static P2 ring(int k) { return P2(k == 0 || k == SZ-1 ? -4 : k % 2 ? 3 : 0, 2*k); }
static bool parity(double x, double y, const std::array<P2,SZ>& v) { bool in = false; for (int i = 0; i < SZ; ++i) { P2 a = v[i], b = v[i == SZ-1 ? 0 : i+1]; bool ua = a[1] > y, ub = b[1] > y; if (ua != ub) { double t = turn(a[0],a[1],b[0],b[1],x,y); if (ub ? t > 0 : t < 0) in = !in; } } return in; }
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon
#define PIP(n, F, X, Y) LIB(bool, gpi##n, double u) { return point_in_polygon(P2(X,Y), arf(F)); } REF(bool, gpi##n, double u) { return parity(X, Y, arf(F)); } \
LIB(bool, gpv##n, double u) { return point_in_polygon(P2(X,Y), fillf<polygon<P2>>(F)); } REF(bool, gpv##n, double u) { return parity(X, Y, arf(F)); }
PIP(a, ring, u, 5.) PIP(b, ring, 1., u) PIP(c, ring, u, 2*SZ-4.) PIP(d, par, u, 7.) PIP(e, par, 2., u) PIP(f, par, SZ-2.5, u) PIP(g, par, u, 9.)
#define MV(n, K) LIB(bool, gpm##n, double x, double y) { auto v = arf(ring); v[K] = P2(x,y); return point_in_polygon(P2(1,9), v); } REF(bool, gpm##n, double x, double y) { auto v = arf(ring); v[K] = P2(x,y); return parity(1, 9, v); }
MV(0, 0) MV(h, (SZ/2)) MV(l, (SZ-1))
