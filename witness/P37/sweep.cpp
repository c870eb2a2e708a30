#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algorithm/segment_intersection.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
typedef std::vector<S2> SV;
static double tr(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static bool btw(const P2& a, const P2& b, const P2& c) { return tr(a,b,c) == 0 && (c[0]-a[0])*(c[0]-b[0]) <= 0 && (c[1]-a[1])*(c[1]-b[1]) <= 0; }
static bool meet(const S2& s, const S2& t) { P2 a = s.get_start(), b = s.get_end(), c = t.get_start(), d = t.get_end(); double p = tr(a,b,c), q = tr(a,b,d), r = tr(c,d,a), w = tr(c,d,b);
  return (((p > 0 && q < 0) || (p < 0 && q > 0)) && ((r > 0 && w < 0) || (r < 0 && w > 0))) || btw(a,b,c) || btw(a,b,d) || btw(c,d,a) || btw(c,d,b); }
static bool same(const S2& s, const S2& t) { P2 a = s.get_start(), b = s.get_end(), c = t.get_start(), d = t.get_end(); return (a[0]==c[0] && a[1]==c[1] && b[0]==d[0] && b[1]==d[1]) || (a[0]==d[0] && a[1]==d[1] && b[0]==c[0] && b[1]==c[1]); }
struct VIS { int* o; const SV* e; double* last; template <typename P, typename I> void operator()(const P& x, I f, I l) const { int n = (int)e->size(); if (o[n*n+1] && !(last[0] < x[0] || (last[0] == x[0] && last[1] < x[1]))) o[n*n] = 1; o[n*n+1] = 1; last[0] = x[0]; last[1] = x[1]; int in[5] = {}; for (I i = f; i != l; ++i) for (int k = 0; k < n; ++k) if (same((*e)[k], **i)) { in[k] = 1; if (tr((*e)[k].get_start(), (*e)[k].get_end(), x) != 0) o[n*n] = 1; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) o[i*n+j] += in[i] * in[j]; } };
// every meeting pair is reported in exactly one event, on both of its segments, and the events come in order
static void run(int* o, const SV& e) { int n = (int)e.size(); for (int i = 0; i < n*n+2; ++i) o[i] = 0; double last[2] = {0,0}; VIS v = {o, &e, last}; bentley_ottmann_segment_intersection(e, v, EXACT()); o[n*n+1] = 0; }
static void all(int* o, const SV& e) { int n = (int)e.size(); for (int i = 0; i < n*n+2; ++i) o[i] = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) o[i*n+j] = meet(e[i], e[j]); }
static bool lap(const SV& e) { bool r = false; int n = (int)e.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) r = r || (tr(e[i].get_start(), e[i].get_end(), e[j].get_start()) == 0 && tr(e[i].get_start(), e[i].get_end(), e[j].get_end()) == 0); for (int i = 0; i < n; ++i) r = r || (e[i].get_start()[0] == e[i].get_end()[0] && e[i].get_start()[1] == e[i].get_end()[1]); return r; }
static SV mk(const double* p, int n, int k, double x, double y) { SV r; for (int i = 0; i < n; ++i) { double a[4] = {p[4*i], p[4*i+1], p[4*i+2], p[4*i+3]}; if (k/2 == i) { a[2*(k&1)] = x; a[2*(k&1)+1] = y; } r.push_back(S2(P2(a[0],a[1]),P2(a[2],a[3]))); } return r; }
static const double A2[8] = {0,0, 4,4, 0,3, 5,0}, B3[12] = {0,0, 6,3, 1,4, 5,0, 3,5, 3,-1}, C4[16] = {0,0, 8,4, 0,4, 8,0, 2,5, 6,-1, 4,0, 4,6}, D3[12] = {0,1, 7,1, 2,3, 6,0, 5,4, 0,2};
#define SW(n, S, N, K, X, Y) LIB(void, sw##n, int* o, double u) { run(o, mk(S,N,K,X,Y)); } REF(void, sw##n, int* o, double u) { all(o, mk(S,N,K,X,Y)); } PRE(sw##n, int* o, double u) { return !lap(mk(S,N,K,X,Y)); }
//@ anchor geometrix/algorithm/bentley_ottmann_segment_intersection.hpp bentley_ottmann_segment_intersection
SW(a, A2, 2, 3, u, 0) SW(b, A2, 2, 3, 5, u) SW(c, B3, 3, 5, 3, u) SW(d, B3, 3, 3, u, 0) SW(e, B3, 3, 1, 6, u) SW(f, D3, 3, 1, u, 1) SW(g, D3, 3, 4, 5, u) SW(h, D3, 3, 0, u, u) SW(i, A2, 2, 0, u, u) SW(j, C4, 4, 5, 6, u) SW(k, C4, 4, 7, 4, u)
