//@ flags -fno-builtin
#include "geo.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
typedef polyline<P2> PL;
template <class S> static void dump(double* o, const S& g, int n) { o[0] = g.size(); for (int i = 0; i < n; ++i) { o[1+2*i] = i < (int)g.size() ? get<0>(g[i]) : 0; o[2+2*i] = i < (int)g.size() ? get<1>(g[i]) : 0; } }
static double off2(const P2& p, const P2& a, const P2& b) { double dx = b[0]-a[0], dy = b[1]-a[1], c = (p[0]-a[0])*dy - (p[1]-a[1])*dx; return c*c/(dx*dx+dy*dy); }
// keep the farthest corner from the chord when it is further than eps, and repeat on both parts
static void rdp(const P2* g, bool* k, int a, int b, double e2) { int w = -1; double m = 0; for (int i = a+1; i < b; ++i) { double d = off2(g[i],g[a],g[b]); if (d > m) { m = d; w = i; } } if (m > e2) { k[w] = true; rdp(g,k,a,w,e2); rdp(g,k,w,b,e2); } }
template <int N> static void ref(double* o, const P2* g, double e2) { bool k[N] = {}; k[0] = k[N-1] = true; rdp(g,k,0,N-1,e2); std::vector<P2> r; for (int i = 0; i < N; ++i) if (k[i]) r.push_back(g[i]); dump(o, r, N); }
#define SH5(X, Y) P2 g[5] = {P2(0,0), P2(2,1), P2(X,Y), P2(6,1), P2(8,0)};
#define SH4(X, Y) P2 g[4] = {P2(0,0), P2(3,2), P2(X,Y), P2(8,1)};
#define RDP(n, N, X, Y, E) LIB(void, rdp##n, double* o, double u, double v) { SH##N(X,Y) dump(o, ramer_douglas_peucker_algorithm(PL(g,g+N), E), N); } \
REF(void, rdp##n, double* o, double u, double v) { SH##N(X,Y) ref<N>(o, g, double(E)*double(E)); }
//@ anchor geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp ramer_douglas_peucker_algorithm
RDP(a, 4, 6., u, 1.) RDP(b, 4, u, 3., 1.) RDP(c, 5, 4., u, 1.) RDP(d, 5, u, 2., 1.) RDP(e, 5, u, 1., 1.5)
LIB(void, rdpz, double* o, double ax, double ay, double bx, double by, double cx, double cy, double e) { P2 g[3] = {P2(ax,ay),P2(bx,by),P2(cx,cy)}; dump(o, ramer_douglas_peucker_algorithm(PL(g,g+3), e), 3); }
REF(void, rdpz, double* o, double ax, double ay, double bx, double by, double cx, double cy, double e) { P2 g[3] = {P2(ax,ay),P2(bx,by),P2(cx,cy)}; ref<3>(o, g, e*e); }
PRE(rdpz, double*, double ax, double ay, double bx, double by, double cx, double cy, double e) { return e >= 0 && d2sq(ax,ay,cx,cy) > 0; }
