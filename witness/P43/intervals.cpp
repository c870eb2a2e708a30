#include "geo.hpp"
#include "hashrt.hpp"
#include <set>
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
// segments along the line through the origin in direction (2,1), named by their parameters on it
typedef std::set<S2, segment_interval_compare<EXACT>> SET;
static P2 on(double t) { return P2(2*t, t); }
static S2 seg(double a, double b) { return S2(on(a), on(b)); }
static bool in(const S2& s, double t) { double a = s.get_start()[1], b = s.get_end()[1]; return a <= b ? a <= t && t <= b : b <= t && t <= a; }
static bool in(double a, double b, double t) { return a <= b ? a <= t && t <= b : b <= t && t <= a; }
static bool straight(const S2& s) { return s.get_start()[0] == 2*s.get_start()[1] && s.get_end()[0] == 2*s.get_end()[1]; }
struct ST { const double* d; int n; };
static SET mk(const ST& a) { SET s; for (int i = 0; i < a.n; ++i) s.insert(seg(a.d[2*i], a.d[2*i+1])); return s; }
static bool cov(const ST& a, double x) { bool r = false; for (int i = 0; i < a.n; ++i) r = r || in(a.d[2*i], a.d[2*i+1], x); return r; }
// o: is the point covered, are all pieces on the line, and are no two pieces overlapping there
static void look(int* o, const SET& s, double x) { int k = 0; bool l = true; for (auto const& e : s) { k += in(e,x); l = l && straight(e); } o[0] = k; o[1] = l; }
static bool off(const ST& a, double u, double v, double x) { bool b = x != u && x != v && u != v; for (int i = 0; i < 2*a.n; ++i) b = b && x != a.d[i]; return b; }
static const double ONE[] = {1,5}, BACK[] = {5,1}, TWO[] = {0,2, 7,4}, THREE[] = {8,9, 0,1, 5,3};
static const double ALL[] = {0,0};
//@ anchor geometrix/utility/utilities.hpp collinear_segment_difference
#define CD(n, A, N, U, V) LIB(void, cd##n, int* o, double u, double x) { ST a{A,N}; SET s = mk(a); collinear_segment_difference(s, seg(U,V), EXACT()); look(o,s,x); } REF(void, cd##n, int* o, double u, double x) { ST a{A,N}; o[0] = cov(a,x) && !in(U,V,x); o[1] = true; } PRE(cd##n, int* o, double u, double x) { ST a{A,N}; return off(a,U,V,x) && u > -9 && u < 19 && x > -9 && x < 19; }
CD(a, ONE, 1, u, 3)
CD(b, ONE, 1, 3, u)
CD(c, BACK, 1, u, 3)
CD(d, BACK, 1, 3, u)
CD(e, ONE, 1, u, 8)
CD(f, ONE, 1, 5, u)
CD(g, BACK, 1, u, 1)
CD(h, TWO, 2, u, 1)
CD(i, TWO, 2, 5, u)
CD(j, TWO, 2, 3, u)
CD(k, THREE, 3, u, 4)
CD(l, THREE, 3, 6, u)
CD(m, THREE, 3, u, 0.5)
//@ anchor geometrix/utility/utilities.hpp collinear_segment_union
#define CU(n, A, N, U, V) LIB(void, cu##n, int* o, double u, double x) { ST a{A,N}; SET s = mk(a); collinear_segment_union(s, seg(U,V), EXACT()); look(o,s,x); } REF(void, cu##n, int* o, double u, double x) { ST a{A,N}; o[0] = cov(a,x) || in(U,V,x); o[1] = true; } PRE(cu##n, int* o, double u, double x) { ST a{A,N}; return off(a,U,V,x) && u > -9 && u < 19 && x > -9 && x < 19; }
CU(a, ONE, 1, u, 3)
CU(b, ONE, 1, 3, u)
CU(c, BACK, 1, u, 3)
CU(d, BACK, 1, 3, u)
CU(e, ONE, 1, u, 8)
CU(f, ONE, 1, 5, u)
CU(g, BACK, 1, u, 1)
CU(h, TWO, 2, u, 1)
CU(i, TWO, 2, 5, u)
CU(j, TWO, 2, 3, u)
CU(k, THREE, 3, u, 4)
CU(l, THREE, 3, 6, u)
CU(m, THREE, 3, u, 0.5)
