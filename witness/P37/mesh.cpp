//@ flags -fno-builtin
#include <geometrix/test/test.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <functional>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
typedef mesh_2d<double> MESH;
struct FIX { std::vector<P2> p; std::vector<std::size_t> i; };
// a 4 x 3 rectangle around an inner vertex, triangles of both orientations
static FIX fx(double a, double b) { FIX f; f.p = {P2(0,0), P2(4,0), P2(4,3), P2(0,3), P2(a,b)}; f.i = {0,1,4, 4,2,1, 2,3,4, 0,4,3}; return f; }
static double tr(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static bool inside(const P2& a, const P2& b, const P2& c, const P2& x) { double s = tr(a,b,c), p = tr(a,b,x), q = tr(b,c,x), r = tr(c,a,x); return s > 0 ? p >= 0 && q >= 0 && r >= 0 : p <= 0 && q <= 0 && r <= 0; }
//@ anchor geometrix/algorithm/mesh_2d.hpp find_triangle
static int fnd(double x, double y) { FIX f = fx(2,1); MESH m(f.p, f.i, EXACT()); auto r = m.find_triangle(P2(x,y), EXACT()); if (!r) return 0; int t = (int)*r; return inside(f.p[f.i[3*t]], f.p[f.i[3*t+1]], f.p[f.i[3*t+2]], P2(x,y)) ? 1 : 2; }
static int fnr(double x, double y) { return x >= 0 && x <= 4 && y >= 0 && y <= 3; }
#define MF(n, X, Y) LIB(int, mf##n, double u) { return fnd(X,Y); } REF(int, mf##n, double u) { return fnr(X,Y); } PRE(mf##n, double u) { return u > -10 && u < 10; }
MF(k, 1, 1)
MF(a, u, 1)
MF(b, 2, u)
MF(c, 1, u)
MF(d, 3.5, u)
MF(e, 0, u)
MF(f, u, 3)
struct NOC { template <typename A, typename B> NOC(const A&, const B&) {} template <typename P> boost::container::flat_set<std::size_t> find_indices(const P&) const { return boost::container::flat_set<std::size_t>(); } };
typedef mesh_2d<double, mesh_traits<NOC>> PLAIN;
// an edge belongs to two triangles exactly when both list it as neighbour across that edge
//@ anchor geometrix/algorithm/mesh_2d.hpp get_adjacency_matrix
LIB(void, madj, int* o, double u) { FIX f = fx(u,1); PLAIN m(f.p, f.i, EXACT()); auto const& a = m.get_adjacency_matrix(); for (int t = 0; t < 4; ++t) for (int k = 0; k < 3; ++k) { auto const& d = m.get_triangle_indices(t); int x = (int)d[k], y = (int)d[(k+1)%3]; o[5*x+y] = a[t][k] == (std::size_t)-1 ? -1 : (int)a[t][k]; } }
REF(void, madj, int* o, double u) { FIX f = fx(u,1); for (int t = 0; t < 4; ++t) { int d[3]; for (int k = 0; k < 3; ++k) d[k] = (int)f.i[3*t+k]; if (tr(f.p[d[0]], f.p[d[1]], f.p[d[2]]) < 0) { int z = d[1]; d[1] = d[2]; d[2] = z; }
  for (int k = 0; k < 3; ++k) { int x = d[k], y = d[(k+1)%3], r = -1; for (int q = 0; q < 4; ++q) if (q != t) { int h = 0; for (int j = 0; j < 3; ++j) h += (int)f.i[3*q+j] == x || (int)f.i[3*q+j] == y; if (h == 2) r = q; } o[5*x+y] = r; } } }
PRE(madj, int* o, double u) { return u > 0 && u < 4; }
// the sampled point: the triangle is drawn with probability proportional to its area, the point by the square-root rule
//@ anchor geometrix/algorithm/mesh_2d.hpp get_random_position
LIB(void, mrnd, double* o, double t, double r, double q) { FIX f = fx(2,1); MESH m(f.p, f.i, EXACT()); P2 p = m.get_random_position(t,r,q); o[0] = p[0]; o[1] = p[1]; }
REF(void, mrnd, double* o, double t, double r, double q) { FIX f = fx(2,1); double c = 0; int k = 0; for (int i = 0; i < 3; ++i) { double a = tr(f.p[f.i[3*i]], f.p[f.i[3*i+1]], f.p[f.i[3*i+2]]); c += (a < 0 ? -a : a)/24; if (t > c) k = i+1; } std::size_t x = f.i[3*k], y = f.i[3*k+1], z = f.i[3*k+2]; if (tr(f.p[x],f.p[y],f.p[z]) < 0) { std::size_t w = y; y = z; z = w; } double s = std::sqrt(r); for (int j = 0; j < 2; ++j) o[j] = (1-s)*f.p[x][j] + s*(1-q)*f.p[y][j] + s*q*f.p[z][j]; }
PRE(mrnd, double* o, double t, double r, double q) { return t >= 0 && t <= 1 && r >= 0 && r <= 1 && q >= 0 && q <= 1; }
// a search from a point in an L-shaped room finds exactly the corners in sight
typedef visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, PLAIN, absolute_tolerance_comparison_policy<double>>> VV;
static FIX room() { FIX f; f.p = {P2(0,0), P2(8,0), P2(8,2), P2(3,2), P2(3,6), P2(0,6)}; f.i = {0,1,3, 1,2,3, 0,3,5, 3,4,5}; return f; }
static bool cross(const P2& a, const P2& b, const P2& c, const P2& d) { double p = tr(a,b,c), q = tr(a,b,d), r = tr(c,d,a), w = tr(c,d,b); return ((p > 0 && q < 0) || (p < 0 && q > 0)) && ((r > 0 && w < 0) || (r < 0 && w > 0)); }
static void vlib(int* o, int t, double x, double y) { FIX f = room(); PLAIN m(f.p, f.i, EXACT()); for (int i = 0; i < 6; ++i) o[i] = 0; VV s(P2(x,y), t, m); m.search(s); for (std::size_t k : s.get_vertices()) o[k] = 1; }
static void vref(int* o, double x, double y) { FIX f = room(); P2 g(x,y); for (int i = 0; i < 6; ++i) { bool b = true; for (int j = 0; j < 6; ++j) b = b && !cross(g, f.p[i], f.p[j], f.p[(j+1)%6]); o[i] = b; } }
static bool vpre(int t, double x, double y) { FIX f = room(); P2 g(x,y); bool b = inside(f.p[f.i[3*t]], f.p[f.i[3*t+1]], f.p[f.i[3*t+2]], g); for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) b = b && tr(f.p[i], f.p[j], g) != 0; return b; }
//@ anchor geometrix/algorithm/visible_vertices_mesh_search.hpp get_vertices
#define MV(n, T, X, Y) LIB(void, mv##n, int* o, double u) { vlib(o,T,X,Y); } REF(void, mv##n, int* o, double u) { vref(o,X,Y); } PRE(mv##n, int* o, double u) { return vpre(T,X,Y); }
MV(a, 0, u, 1)
MV(b, 1, u, 1)
MV(c, 2, u, 3)
MV(d, 3, u, 5)
MV(e, 3, 2.5, u)
MV(f, 2, 1, u)
MV(g, 0, 5, u)
