//@ flags -fno-builtin
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <set>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
typedef std::vector<S2> SV;
typedef node_bsp_tree_2d<S2> BSP;
typedef partition_policies::first_segment_selector_policy<S2> FIRST;
typedef partition_policies::scored_segment_selector_policy<S2, EXACT> SCORED;
static SV ring(const double* p, int n) { SV r; for (int i = 0; i < n; ++i) { int j = i+1 == n ? 0 : i+1; r.push_back(S2(P2(p[2*i],p[2*i+1]), P2(p[2*j],p[2*j+1]))); } return r; }
static SV flip(const SV& a) { SV r; for (std::size_t i = a.size(); i-- > 0;) r.push_back(S2(a[i].get_end(), a[i].get_start())); return r; }
static const double ELL[12] = {0,0, 6,0, 6,2, 3,2, 3,6, 0,6}, SQR[8] = {0,0, 4,0, 4,4, 0,4}, UU[16] = {0,0, 6,0, 6,5, 4,5, 4,2, 2,2, 2,5, 0,5}, ZED[16] = {0,0, 4,0, 4,2, 7,2, 7,4, 3,4, 3,2, 0,2}, SAW[20] = {0,0, 9,0, 9,2, 7,4, 6,2, 5,2, 4,4, 3,2, 2,2, 0,3}, TRG[6] = {0,0, 5,1, 2,4}, DIA[8] = {2,0, 4,3, 2,5, 0,2}, ARR[8] = {0,0, 4,2, 0,4, 1,2}, STAR[12] = {0,0, 3,1, 6,0, 4,3, 3,6, 2,3};
// on an edge, else by the parity of the crossings of a ray: 1 inside, 0 boundary, -1 outside
template <int N> static int loc(const double* p, double x, double y) { bool in = false; for (int i = 0; i < N; ++i) { int j = (i+1)%N; double ax = p[2*i], ay = p[2*i+1], bx = p[2*j], by = p[2*j+1], c = (bx-ax)*(y-ay) - (by-ay)*(x-ax);
  if (c == 0 && (x-ax)*(x-bx) <= 0 && (y-ay)*(y-by) <= 0) return 0; if ((ay <= y) != (by <= y) && (by > ay ? c > 0 : c < 0)) in = !in; } return in ? 1 : -1; }
static int sgn(point_location_classification c) { return c == e_inside ? 1 : c == e_boundary ? 0 : -1; }
#define NL(n, S, N) LIB(int, nl##n, double u, double v) { BSP t(ring(S,N), FIRST(), EXACT()); return sgn(t.locate_point(P2(u,v), EXACT())); } REF(int, nl##n, double u, double v) { return loc<N>(S,u,v); } \
LIB(int, ns##n, double u, double v) { BSP t(ring(S,N), SCORED(EXACT()), EXACT()); return sgn(t.locate_point(P2(u,v), EXACT())); } REF(int, ns##n, double u, double v) { return loc<N>(S,u,v); } \
LIB(int, nf##n, double u, double v) { BSP t(flip(ring(S,N)), FIRST(), EXACT()); return sgn(t.locate_point(P2(u,v), EXACT())); } REF(int, nf##n, double u, double v) { return -loc<N>(S,u,v); }
//@ anchor geometrix/algorithm/node_bsp_tree_2d.hpp locate_point
NL(sqr, SQR, 4) NL(ell, ELL, 6) NL(uu, UU, 8) NL(zed, ZED, 8) NL(trg, TRG, 3) NL(dia, DIA, 4) NL(arr, ARR, 4) NL(star, STAR, 6) NL(saw, SAW, 10)
static const double TIP[16] = {6,2, 3,2, 3,6, 0,6, 1,2, -1,3, -1,0, 6,0};
NL(tip, TIP, 8)
// seen from p, nothing drawn later is hidden by something drawn earlier; everything but what is seen edge-on is drawn once
static double trn(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static bool hides(const P2& p, const S2& f, const S2& g) { P2 a = f.get_start(), b = f.get_end(), c = g.get_start(), d = g.get_end(); if (trn(p,a,b) < 0) { P2 t = a; a = b; b = t; } if (trn(p,c,d) < 0) { P2 t = c; c = d; d = t; }
  if (trn(p,a,b) == 0 || trn(p,c,d) == 0) return false; bool r = false;
  r = r || (trn(p,a,c) > 0 && trn(p,c,b) > 0 && trn(a,b,c) < 0); r = r || (trn(p,a,d) > 0 && trn(p,d,b) > 0 && trn(a,b,d) < 0);
  r = r || (trn(p,c,a) > 0 && trn(p,a,d) > 0 && trn(c,d,a) > 0); r = r || (trn(p,c,b) > 0 && trn(p,b,d) > 0 && trn(c,d,b) > 0); return r; }
static double len(const S2& s) { double x = s.get_end()[0]-s.get_start()[0], y = s.get_end()[1]-s.get_start()[1]; return (x < 0 ? -x : x) + (y < 0 ? -y : y); }
static bool on(const S2& s, const S2& t) { return trn(s.get_start(),s.get_end(),t.get_start()) == 0 && trn(s.get_start(),s.get_end(),t.get_end()) == 0 && len(S2(s.get_start(),t.get_start()))+len(S2(t.get_start(),t.get_end()))+len(S2(t.get_end(),s.get_end())) == len(s); }
template <typename P> static void paint(int* o, double* q, const SV& e, const P& pol, const P2& p) { BSP t(e, pol, EXACT()); SV v; t.painters_traversal(p, [&](const S2& s) { v.push_back(s); }, EXACT()); o[0] = o[1] = 1; q[0] = 0;
  for (std::size_t i = 0; i < v.size(); ++i) { bool s = false; for (std::size_t j = 0; j < e.size(); ++j) s = s || on(e[j], v[i]); if (!s) o[0] = 0; if (trn(p, v[i].get_start(), v[i].get_end()) != 0) q[0] += len(v[i]); for (std::size_t j = 0; j < i; ++j) if (hides(p, v[j], v[i])) o[1] = 0; } }
static void painted(int* o, double* q, const SV& e, const P2& p) { o[0] = o[1] = 1; q[0] = 0; for (std::size_t i = 0; i < e.size(); ++i) if (trn(p, e[i].get_start(), e[i].get_end()) != 0) q[0] += len(e[i]); }
#define PT(n, E, X, Y) LIB(void, pf##n, int* o, double* q, double u) { paint(o, q, E, FIRST(), P2(X,Y)); } REF(void, pf##n, int* o, double* q, double u) { painted(o, q, E, P2(X,Y)); } LIB(void, ps##n, int* o, double* q, double u) { paint(o, q, E, SCORED(EXACT()), P2(X,Y)); } REF(void, ps##n, int* o, double* q, double u) { painted(o, q, E, P2(X,Y)); }
static const double BARS[20] = {0,0, 1,4, 3,1, 5,2, 4,4, 7,3, 2,5, 2,8, 6,5, 6,9};
static SV bars() { SV r; for (int i = 0; i < 5; ++i) r.push_back(S2(P2(BARS[4*i],BARS[4*i+1]), P2(BARS[4*i+2],BARS[4*i+3]))); return r; }
//@ anchor geometrix/algorithm/node_bsp_tree_2d.hpp painters_traversal
PT(a, ring(SQR,4), u, 2) PT(b, ring(ELL,6), u, 3) PT(c, ring(UU,8), 3, u) PT(d, ring(TRG,3), u, u) PT(e, ring(ARR,4), u, 1) PT(f, ring(ZED,8), u, -1) PT(g, ring(STAR,6), u, 2) PT(h, bars(), u, 0) PT(i, bars(), 4, u) PT(j, bars(), u, u) PT(k, bars(), u, 6)
// edges added later count like those given at first
#define NI(n, S, N, K) LIB(int, ni##n, double u, double v) { SV r = ring(S,N), a(r.begin(), r.begin()+K), b(r.begin()+K, r.end()); BSP t(a, FIRST(), EXACT()); t.insert(b, FIRST(), EXACT()); return sgn(t.locate_point(P2(u,v), EXACT())); } REF(int, ni##n, double u, double v) { return loc<N>(S,u,v); }
//@ anchor geometrix/algorithm/node_bsp_tree_2d.hpp insert
NI(a, ELL, 6, 2) NI(b, UU, 8, 5) NI(c, ARR, 4, 1) NI(d, TIP, 8, 3)
