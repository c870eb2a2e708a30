#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <array>
template <int N> static std::array<P2,N> seq(const double* p, int rot = 0) { std::array<P2,N> a; for (int i = 0; i < N; ++i) { int k = (i+rot)%N; a[i] = P2(p[2*k],p[2*k+1]); } return a; }
#define X(i) p[2*((i)%N)]
#define Y(i) p[2*((i)%N)+1]
// number of edges crossed by the rightward ray (an edge owns its lower end), odd inside
template <int N> static bool parity(double x, double y, const double* p) { bool in = false;
  for (int i = 0; i < N; ++i) { bool up = Y(i+1) > y, ui = Y(i) > y; if (up != ui) { double t = turn(X(i),Y(i),X(i+1),Y(i+1),x,y); if (up ? t > 0 : t < 0) in = !in; } } return in; }
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon
#define PIP(N) \
LIB(bool, pip##N, double x, double y, const double* p) { return point_in_polygon(P2(x,y), seq<N>(p)); } \
REF(bool, pip##N, double x, double y, const double* p) { return parity<N>(x,y,p); } \
LIB(bool, rot##N, double x, double y, const double* p) { return point_in_polygon(P2(x,y), seq<N>(p,1)); } \
REF(bool, rot##N, double x, double y, const double* p) { return point_in_polygon(P2(x,y), seq<N>(p)); }
PIP(3) PIP(4) PIP(5) PIP(6)
LIB(bool, pip2, double x, double y, const double* p) { return point_in_polygon(P2(x,y), seq<2>(p)); }
REF(bool, pip2, double x, double y, const double* p) { return false; }
// strictly inside / strictly outside triangles and convex quadrilaterals of either winding
template <int N> static int side(double x, double y, const double* p, double w) { bool all = true, any = false; for (int i = 0; i < N; ++i) { double t = w*turn(X(i),Y(i),X(i+1),Y(i+1),x,y); if (!(t > 0)) all = false; if (t < 0) any = true; } return all ? 1 : any ? -1 : 0; }
template <int N> static bool convex(const double* p, double w) { bool r = true; for (int i = 0; i < N; ++i) r = r && w*turn(X(i),Y(i),X(i+1),Y(i+1),X(i+2),Y(i+2)) > 0; return r; }
#define INOUT(n, N, w, val, sg) \
PRE(n, double x, double y, const double* p) { return convex<N>(p,w) && side<N>(x,y,p,w) == sg; } \
LIB(bool, n, double x, double y, const double* p) { return point_in_polygon(P2(x,y), seq<N>(p)); } \
REF(bool, n, double x, double y, const double* p) { return val; }
INOUT(in3l,3,1,true,1) INOUT(in3r,3,-1,true,1) INOUT(out3l,3,1,false,-1) INOUT(out3r,3,-1,false,-1)
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_triangle
LIB(bool, tri2, const double* q, const double* a, const double* b, const double* c) { return point_in_triangle(P2(q[0],q[1]), P2(a[0],a[1]), P2(b[0],b[1]), P2(c[0],c[1]), EXACT()); }
REF(bool, tri2, const double* q, const double* a, const double* b, const double* c) { return turn(a[0],a[1],b[0],b[1],q[0],q[1]) >= 0 && turn(b[0],b[1],c[0],c[1],q[0],q[1]) >= 0 && turn(c[0],c[1],a[0],a[1],q[0],q[1]) >= 0; }
// in space: the point of the plane of a,b,c with barycentric coordinates u,v,1-u-v is inside iff they are all non-negative
PRE(tri3, double u, double v, const double* b, const double* c) { return sq(b[1]*c[2]-b[2]*c[1])+sq(b[2]*c[0]-b[0]*c[2])+sq(b[0]*c[1]-b[1]*c[0]) > 0; }
LIB(bool, tri3, double u, double v, const double* b, const double* c) { return point_in_triangle(P3(u*b[0]+v*c[0],u*b[1]+v*c[1],u*b[2]+v*c[2]), P3(0,0,0), P3(b[0],b[1],b[2]), P3(c[0],c[1],c[2]), EXACT()); }
REF(bool, tri3, double u, double v, const double* b, const double* c) { return u >= 0 && v >= 0 && 1-u-v >= 0; }
// convex shapes, whichever vertex comes first; an edge along the x axis
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_convex_quadrilateral
#define CQ(F, N, n, ...) \
LIB(bool, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return F(P2(x,y), seq<N>(p), EXACT()); } \
REF(bool, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return side<N>(x,y,p,1) >= 0; }
CQ(point_in_convex_quadrilateral,4,qa, 0,0, 4,-1, 6,3, 1,5)
CQ(point_in_convex_quadrilateral,4,qb, 4,-1, 6,3, 1,5, 0,0)
CQ(point_in_convex_quadrilateral,4,qc, -1,-1, 1,-1, 1,1, -1,1)
CQ(point_in_convex_quadrilateral,4,qd, 0,-3, 2,0, 0,5, -7,0)
PRE(quad, double x, double y, double a, double b, double c, double d) { return b > 0 && d > 0 && c < a + 1 && turn(1,0,a,b,c,d) > 0 && turn(a,b,c,d,0,0) > 0; }
LIB(bool, quad, double x, double y, double a, double b, double c, double d) { const double p[] = {0,0,1,0,a,b,c,d}; return point_in_convex_quadrilateral(P2(x,y), seq<4>(p), EXACT()); }
REF(bool, quad, double x, double y, double a, double b, double c, double d) { const double p[] = {0,0,1,0,a,b,c,d}; return side<4>(x,y,p,1) >= 0; }
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_convex_polygon
#define PCP(N) PRE(pcp##N, double x, double y, const double* p) { return convex<N>(p,1); } \
LIB(bool, pcp##N, double x, double y, const double* p) { return point_in_convex_polygon(P2(x,y), seq<N>(p), EXACT()); } \
REF(bool, pcp##N, double x, double y, const double* p) { return side<N>(x,y,p,1) >= 0; }
PCP(3)
CQ(point_in_convex_polygon,3,ta, 0,0, 4,-1, 6,3)
CQ(point_in_convex_polygon,4,ca, 0,0, 4,-1, 6,3, 1,5)
CQ(point_in_convex_polygon,4,cb, -1,-1, 1,-1, 1,1, -1,1)
CQ(point_in_convex_polygon,5,pa, 0,0, 4,-1, 6,3, 3,6, 1,5)
CQ(point_in_convex_polygon,6,ha, 0,-2, 2,-1, 2,1, 0,2, -2,1, -2,-1)
CQ(point_in_convex_polygon,7,sa, 0,0, 3,-2, 6,-2, 8,1, 6,4, 3,5, 0,3)
// the classification with borders: convex, reflex, clockwise, level edges, vertices in line with an edge
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_polygon_containment_or_on_border
template <int N> static int cls(double x, double y, const double* p) { bool in = false, on = false, v = false; for (int i = 0; i < N; ++i) { double x0=X(i),y0=Y(i),x1=X(i+1),y1=Y(i+1); if (x == x0 && y == y0) v = true; double t = turn(x0,y0,x1,y1,x,y); double k=(x-x0)*(x1-x0)+(y-y0)*(y1-y0), m=d2sq(x0,y0,x1,y1); if (t == 0 && k > 0 && k < m) on = true; bool up = y1 > y, ui = y0 > y; if (up != ui && (up ? t > 0 : t < 0)) in = !in; } return v ? 3 : on ? 2 : in ? 1 : 0; }
#define BRD(N, n, ...) \
LIB(int, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return (int)point_polygon_containment_or_on_border(P2(x,y), seq<N>(p), EXACT()); } \
REF(int, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return cls<N>(x,y,p); }
BRD(3,b3, 0,0, 4,-1, 6,3)
BRD(3,b3h, 0,0, 4,0, 2,4)
BRD(4,b4, 0,0, 4,0, 4,4, 0,4)
BRD(4,b4r, 0,4, 4,4, 4,0, 0,0)
BRD(4,b4c, 0,0, 8,1, 4,2, 3,8)
BRD(4,b4t, 0,0, 2,0, 4,0, 2,4)
BRD(5,b5, 0,0, 4,0, 4,4, 2,1, 0,4)
BRD(6,b6, 0,0, 4,0, 4,2, 2,2, 2,4, 0,4)
#define CL(N, n, sh, ...) \
LIB(bool, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return point_in_polygon(P2(x,y), seq<N>(p,sh)); } \
REF(bool, n, double x, double y) { static const double p[] = { __VA_ARGS__ }; return parity<N>(x,y,p); }
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon
CL(4,c4c,1, 0,0, 8,1, 4,2, 3,8)
CL(8,c8,3, 0,0, 8,0, 8,2, 2,2, 2,4, 6,4, 6,6, 0,6)
