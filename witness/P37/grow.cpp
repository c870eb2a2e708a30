//@ flags -fno-builtin
//@ grow 40 geometrix/algorithm/mesh_2d.hpp geometrix/algorithm/mesh_traits.hpp
#include <geometrix/test/test.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <functional>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include "grow.hpp"
// a strip of many triangles, each one with one or two neighbours
struct NOC { template <typename A, typename B> NOC(const A&, const B&) {} template <typename P> boost::container::flat_set<std::size_t> find_indices(const P&) const { return boost::container::flat_set<std::size_t>(); } };
typedef mesh_2d<double, mesh_traits<NOC>> PLAIN;
enum { TR = SZ - 2 };
struct FIX { std::vector<P2> p; std::vector<std::size_t> i; };
static FIX strip() { FIX f; for (int k = 0; k < SZ; ++k) f.p.push_back(P2(k, k % 2 ? 2 : 0)); for (int k = 0; k < TR; ++k) { f.i.push_back(k); f.i.push_back(k+1); f.i.push_back(k+2); } return f; }
//@ anchor geometrix/algorithm/mesh_2d.hpp get_adjacency_matrix
LIB(void, gadj, int* o, double u) { FIX f = strip(); PLAIN m(f.p, f.i, EXACT()); auto const& a = m.get_adjacency_matrix(); o[0] = (int)m.get_number_triangles(); for (int t = 0; t < TR; ++t) { int lo = -1, hi = -1, no = 0; for (int k = 0; k < 3; ++k) { int x = a[t][k] == (std::size_t)-1 ? -1 : (int)a[t][k]; if (x == -1) ++no; else if (x < t) lo = x; else hi = x; } o[1+3*t] = lo; o[2+3*t] = hi; o[3+3*t] = no; } }
REF(void, gadj, int* o, double u) { o[0] = TR; for (int t = 0; t < TR; ++t) { o[1+3*t] = t ? t-1 : -1; o[2+3*t] = t < TR-1 ? t+1 : -1; o[3+3*t] = 1 + (t == 0) + (t == TR-1); } }
//@ anchor geometrix/algorithm/mesh_2d.hpp get_triangle_vertices / get_area
LIB(void, gtri, double* o, double u) { FIX f = strip(); PLAIN m(f.p, f.i, EXACT()); for (int t = 0; t < TR; ++t) { auto const& v = m.get_triangle_vertices(t); double x = 0, y = 0; for (int k = 0; k < 3; ++k) { x += v[k][0]; y += v[k][1]; } o[3*t] = x; o[3*t+1] = y; o[3*t+2] = (v[1][0]-v[0][0])*(v[2][1]-v[0][1]) - (v[1][1]-v[0][1])*(v[2][0]-v[0][0]); } }
REF(void, gtri, double* o, double u) { for (int t = 0; t < TR; ++t) { o[3*t] = 3*t+3; o[3*t+1] = t % 2 ? 4 : 2; o[3*t+2] = 4; } }
//@ anchor geometrix/algorithm/mesh_2d.hpp get_random_position
static double tr(const P2& a, const P2& b, const P2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
LIB(int, grnd, double t, double r, double q) { FIX f = strip(); PLAIN m(f.p, f.i, EXACT()); P2 p = m.get_random_position(t,r,q); int k = SZ/2, w = k % 2 ? 1 : -1; return (w*tr(f.p[k],f.p[k+1],p) >= 0) & (w*tr(f.p[k+1],f.p[k+2],p) >= 0) & (w*tr(f.p[k+2],f.p[k],p) >= 0); }
REF(int, grnd, double t, double r, double q) { return 1; }
PRE(grnd, double t, double r, double q) { double w = 1.0/TR; return (t > w*(SZ/2)+w/4) & (t < w*(SZ/2)+w/2) & (r >= 0) & (r <= 1) & (q >= 0) & (q <= 1) & (SZ/2 < TR); }
