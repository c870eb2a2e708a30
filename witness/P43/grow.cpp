//@ grow geometrix/utility/utilities.hpp
#include "geo.hpp"
#include "hashrt.hpp"
#include <set>
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include "grow.hpp"
// sets of many intervals on the line through the origin in direction (2,1): [3k, 3k+1], every other one written backwards
typedef std::set<S2, segment_interval_compare<EXACT>> SET;
static P2 on(double t) { return P2(2*t, t); }
static S2 seg(double a, double b) { return S2(on(a), on(b)); }
static bool in(double a, double b, double t) { return a <= b ? (a <= t) & (t <= b) : (b <= t) & (t <= a); }
static SET many() { SET s; for (int k = 0; k < SZ; ++k) s.insert(k % 2 ? seg(3*k+1, 3*k) : seg(3*k, 3*k+1)); return s; }
static void look(int* o, const SET& s, double x) { int k = 0; for (auto const& e : s) k += in(e.get_start()[1], e.get_end()[1], x); o[0] = k; }
static bool cov(double x) { bool r = false; for (int k = 0; k < SZ; ++k) r = r | in(3*k, 3*k+1, x); return r; }
static bool off(double a) { bool r = true; for (int k = 0; k < SZ; ++k) r = r & (a != 3*k) & (a != 3*k+1); return r; }
//@ anchor geometrix/utility/utilities.hpp collinear_segment_difference / collinear_segment_union
#define CD(n, U, V, X) LIB(void, gcd##n, int* o, double u) { SET s = many(); collinear_segment_difference(s, seg(U,V), EXACT()); look(o, s, X); } REF(void, gcd##n, int* o, double u) { o[0] = cov(X) && !in(U,V,X); } PRE(gcd##n, int* o, double u) { return off(u) & (u > -4) & (u < 3*SZ+4) & (X != U) & (X != V); } \
LIB(void, gcu##n, int* o, double u) { SET s = many(); collinear_segment_union(s, seg(U,V), EXACT()); look(o, s, X); } REF(void, gcu##n, int* o, double u) { o[0] = cov(X) || in(U,V,X); } PRE(gcu##n, int* o, double u) { return off(u) & (u > -4) & (u < 3*SZ+4) & (X != U) & (X != V); }
CD(a, -1.5, 3*SZ+1.5, u) CD(b, 4.5, 3*SZ-4.5, u) CD(c, u, 1.5, 3*SZ-8.5) CD(d, u, 3*SZ-2.5, 3.5) CD(e, u, 0.5, 6.5)
