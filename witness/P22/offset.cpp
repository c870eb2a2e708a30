//@ flags -fno-builtin
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
typedef polyline<P2> PL;
template <class S> static void dump(double* o, const S& g, int n) { o[0] = g.size(); for (int i = 0; i < n; ++i) { o[1+2*i] = i < (int)g.size() ? get<0>(g[i]) : 0; o[2+2*i] = i < (int)g.size() ? get<1>(g[i]) : 0; } }
// offset chain: end points move along the normal of the end piece, a corner to the point at distance h from both pieces' lines (h > 0 on the left)
#define CH(X0, Y0, X1, Y1, X2, Y2, X3, Y3) P2 g[4] = {P2(X0,Y0), P2(X1,Y1), P2(X2,Y2), P2(X3,Y3)};
static void ref(double* o, const P2* g, double h) { double nx[3], ny[3]; o[0] = 4; for (int i = 0; i < 3; ++i) { double dx = g[i+1][0]-g[i][0], dy = g[i+1][1]-g[i][1], l = std::sqrt(dx*dx+dy*dy); nx[i] = -dy/l; ny[i] = dx/l; }
  o[1] = g[0][0] + h*nx[0]; o[2] = g[0][1] + h*ny[0]; for (int i = 1; i < 3; ++i) { double k = h/(1 + nx[i-1]*nx[i] + ny[i-1]*ny[i]); o[1+2*i] = g[i][0] + k*(nx[i-1]+nx[i]); o[2+2*i] = g[i][1] + k*(ny[i-1]+ny[i]); } o[7] = g[3][0] + h*nx[2]; o[8] = g[3][1] + h*ny[2]; }
#define OFF(n, ...) LIB(void, ofl##n, double* o, double x, double y, double a, double b, double c, double h) { CH(__VA_ARGS__) dump(o, polyline_offset(PL(g,g+4), oriented_left, h, EXACT()), 4); } \
LIB(void, ofr##n, double* o, double x, double y, double a, double b, double c, double h) { CH(__VA_ARGS__) dump(o, polyline_offset(PL(g,g+4), oriented_right, h, EXACT()), 4); } \
REF(void, ofl##n, double* o, double x, double y, double a, double b, double c, double h) { CH(__VA_ARGS__) ref(o, g, h); } REF(void, ofr##n, double* o, double x, double y, double a, double b, double c, double h) { CH(__VA_ARGS__) ref(o, g, -h); } \
PRE(ofl##n, double* o, double x, double y, double a, double b, double c, double h) { return (a > 0) & (b > 0) & (c > 0) & (h > 0); } PRE(ofr##n, double* o, double x, double y, double a, double b, double c, double h) { return (a > 0) & (b > 0) & (c > 0) & (h > 0); }
//@ anchor geometrix/algorithm/point_sequence/polyline_offset.hpp polyline_offset
OFF(a, x,y, x+a,y, x+a,y+b, x+a-c,y+b) OFF(b, x,y, x+4*a,y+3*a, x+4*a+5*b,y+3*a, x+4*a+5*b,y+3*a-c) OFF(c, x,y, x-a,y, x-a-3*b,y-4*b, x-a-3*b+4*c,y-4*b-3*c) OFF(d, x,y, x+a,y, x+a+b,y, x+a+b,y+c) OFF(e, x,y, x,y+a, x,y+a+b, x,y+a+b+c)
// curvature at a corner: four times the area of the triangle over the product of its sides (signed), times the mean length of the two pieces when integrated
#define C4 double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy
#define G4 P2 g[4] = {P2(ax,ay),P2(bx,by),P2(cx,cy),P2(dx,dy)};
static double len(const P2& a, const P2& b) { return std::sqrt(d2sq(a[0],a[1],b[0],b[1])); }
static double trn(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static double kap(const P2* g, int i) { return i < 1 || i > 2 ? 0 : 2*trn(g[i-1],g[i],g[i+1])/std::sqrt(d2sq(g[i-1][0],g[i-1][1],g[i][0],g[i][1])*d2sq(g[i+1][0],g[i+1][1],g[i][0],g[i][1])*d2sq(g[i-1][0],g[i-1][1],g[i+1][0],g[i+1][1])); }
static bool distinct(const P2* g, int n) { bool r = true; for (int i = 0; i+1 < n; ++i) r = r & (d2sq(g[i][0],g[i][1],g[i+1][0],g[i+1][1]) > 0); for (int i = 0; i+2 < n; ++i) r = r & (d2sq(g[i][0],g[i][1],g[i+2][0],g[i+2][1]) > 0); return r; }
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp polyline_signed_curvature_at_index / polyline_total_curvature_over_index / polyline_total_curvature / polyline_total_absolute_curvature
#define KAP(J) LIB(double, kap##J, C4) { G4 return polyline_signed_curvature_at_index(PL(g,g+4), J); } REF(double, kap##J, C4) { G4 return kap(g, J); } PRE(kap##J, C4) { G4 return distinct(g,4); } \
LIB(double, kto##J, C4) { G4 return polyline_total_curvature_over_index(PL(g,g+4), J); } REF(double, kto##J, C4) { G4 return J < 1 || J > 2 ? 0 : 0.5*(len(g[J-1],g[J])+len(g[J],g[J+1]))*std::fabs(kap(g, J)); } PRE(kto##J, C4) { G4 return distinct(g,4); }
KAP(0) KAP(1) KAP(2) KAP(3)
LIB(double, ktot, C4) { G4 return polyline_total_curvature(PL(g,g+4)); } REF(double, ktot, C4) { G4 double s = 0; for (int i = 1; i < 3; ++i) s += 0.5*(len(g[i-1],g[i])+len(g[i],g[i+1]))*kap(g, i); return s; } PRE(ktot, C4) { G4 return distinct(g,4); }
LIB(double, ktab, C4) { G4 return polyline_total_absolute_curvature(PL(g,g+4)); } REF(double, ktab, C4) { G4 double s = 0; for (int i = 1; i < 3; ++i) s += 0.5*(len(g[i-1],g[i])+len(g[i],g[i+1]))*std::fabs(kap(g, i)); return s; } PRE(ktab, C4) { G4 return distinct(g,4); }
LIB(double, ktshort, double ax, double ay, double bx, double by) { P2 g[2] = {P2(ax,ay),P2(bx,by)}; return polyline_total_curvature(PL(g,g+2)) + polyline_total_absolute_curvature(PL(g,g+2)); } REF(double, ktshort, double ax, double ay, double bx, double by) { return 0; }
// cutting at the corners where the sense of turning changes: the pieces in order are the chain
#define CV(X, Y) P2 g[6] = {P2(0,0), P2(3,0), P2(X,Y), P2(7,3), P2(10,3), P2(12,5)};
template <class R> static void dumps(double* o, const R& r) { o[0] = r.size(); for (int k = 0; k < 5; ++k) { o[1+15*k] = k < (int)r.size() ? r[k].size() : 0; for (int i = 0; i < 6; ++i) { o[2+15*k+2*i] = k < (int)r.size() && i < (int)r[k].size() ? r[k][i][0] : 0; o[3+15*k+2*i] = k < (int)r.size() && i < (int)r[k].size() ? r[k][i][1] : 0; } } }
static int sgn(double t) { return t < 0 ? -1 : 1; } // straight counts as left, and so do the ends
#define INF(n, X, Y) LIB(void, inf##n, int* o, double u, double v) { CV(X,Y) auto r = inflection_points(PL(g,g+6)); o[0] = r.size(); for (int i = 0; i < 6; ++i) o[1+i] = i < (int)r.size() ? (int)r[i] : -1; } \
REF(void, inf##n, int* o, double u, double v) { CV(X,Y) int cnt = 0, was = 1; for (int i = 0; i < 6; ++i) o[1+i] = -1; for (int i = 1; i < 6; ++i) { int s = i < 5 ? sgn(trn(g[i-1],g[i],g[i+1])) : 1; if (s != was) { o[1+cnt++] = i; was = s; } } o[0] = cnt; } \
LIB(void, spi##n, double* o, double u, double v) { CV(X,Y) dumps(o, split_polyline_by_inflection_points(PL(g,g+6))); } \
REF(void, spi##n, double* o, double u, double v) { CV(X,Y) std::vector<PL> r; PL cur{g[0]}; int s0 = 1; for (int i = 1; i < 6; ++i) { int s = i < 5 ? sgn(trn(g[i-1],g[i],g[i+1])) : 1; cur.push_back(g[i]); if (s != s0 || i == 5) { r.push_back(cur); cur = PL{g[i]}; s0 = s; } } dumps(o, r); } \
PRE(inf##n, int* o, double u, double v) { CV(X,Y) return distinct(g,6); } PRE(spi##n, double* o, double u, double v) { CV(X,Y) return distinct(g,6); }
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp inflection_points / split_polyline_by_inflection_points
INF(a, u, 2.) INF(b, 5., u) INF(c, u, -1.) INF(d, u, u)
