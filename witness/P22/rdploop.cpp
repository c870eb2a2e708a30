//@ flags -fno-builtin
#include "geo.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
typedef polyline<P2> PL;
template <class S> static void dump(double* o, const S& g, int n) { o[0] = g.size(); for (int i = 0; i < n; ++i) { o[1+2*i] = i < (int)g.size() ? get<0>(g[i]) : 0; o[2+2*i] = i < (int)g.size() ? get<1>(g[i]) : 0; } }
static double off2(const P2& p, const P2& a, const P2& b) { double dx = b[0]-a[0], dy = b[1]-a[1], c = (p[0]-a[0])*dy - (p[1]-a[1])*dx; return c*c/(dx*dx+dy*dy); }
// keep the farthest corner from the chord when it is further than eps, and repeat on both parts
static void rdp(const P2* g, bool* k, int a, int b, double e2) { int w = -1; double m = 0; for (int i = a+1; i < b; ++i) { double d = off2(g[i],g[a],g[b]); if (d > m) { m = d; w = i; } } if (m > e2) { k[w] = true; rdp(g,k,a,w,e2); rdp(g,k,w,b,e2); } }
template <int N> static void ref(double* o, const P2* g, double e2) { bool k[N] = {}; k[0] = k[N-1] = true; rdp(g,k,0,N-1,e2); std::vector<P2> r; for (int i = 0; i < N; ++i) if (k[i]) r.push_back(g[i]); dump(o, r, N); }
static double offz(const P2& p, const P2& a, const P2& b) { double dx = b[0]-a[0], dy = b[1]-a[1]; return dx*dx+dy*dy == 0 ? sq(p[0]-a[0])+sq(p[1]-a[1]) : off2(p,a,b); }
static void rdpl(const P2* g, bool* k, int a, int b, double e2) { int w = -1; double m = 0; for (int i = a+1; i < b; ++i) { double d = offz(g[i],g[a],g[b]); if (d > m) { m = d; w = i; } } if (m > e2) { k[w] = true; rdpl(g,k,a,w,e2); rdpl(g,k,w,b,e2); } }
template <int N> static void refl(double* o, const P2* g, double e2) { bool k[N] = {}; k[0] = k[N-1] = true; rdpl(g,k,0,N-1,e2); std::vector<P2> r; for (int i = 0; i < N; ++i) if (k[i]) r.push_back(g[i]); dump(o, r, N); }
// loops: the chord has no direction, corners are measured from the common end
#define LOOP(n, E, ...) LIB(void, loop##n, double* o, double u, double v) { P2 g[] = {__VA_ARGS__}; dump(o, ramer_douglas_peucker_algorithm(PL(g,g+sizeof(g)/sizeof(P2)), E), sizeof(g)/sizeof(P2)); } \
REF(void, loop##n, double* o, double u, double v) { P2 g[] = {__VA_ARGS__}; refl<sizeof(g)/sizeof(P2)>(o, g, double(E)*double(E)); }
//@ anchor geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp ramer_douglas_peucker_algorithm
LOOP(a, 1., P2(0,0), P2(4,0), P2(u,3), P2(0,0)) LOOP(b, 1., P2(0,0), P2(3,1), P2(4,u), P2(0,4), P2(0,0)) LOOP(c, 2., P2(1,1), P2(u,1), P2(1,1))
