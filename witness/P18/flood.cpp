#include "geo.hpp"
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <map>
#include <set>
#include <boost/scope_exit.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
#include "hashrt.hpp"
using namespace geometrix;
typedef grid_traits<double> GT; typedef polygon<P2> PG;
static GT gt() { return GT(0., 4., 0., 4., 1.); }
// cells of a filled rectangle: every cell it covers, each once
static int bits(const PG& p) { int c[16] = {}; bool ok = true; floodfill_grid_traversal(gt(), p, [&](unsigned i, unsigned j) { if (i < 4 && j < 4) ++c[4*i + j]; else ok = false; }, EXACT()); int r = 0; for (int k = 0; k < 16; ++k) { ok = ok && c[k] < 2; r = 2*r + (c[k] ? 1 : 0); } return ok ? r : -1; }
//@ anchor geometrix/algorithm/floodfill_grid_traversal.hpp floodfill_grid_traversal
LIB(int, rect, double a, double b, double c, double d) { return bits(PG{P2(a, b), P2(2 + c, b), P2(2 + c, 2 + d), P2(a, 2 + d)}); }
REF(int, rect, double, double, double, double) { return 0xeee0; }
PRE(rect, double a, double b, double c, double d) { return 0 < a && a < 1 && 0 < b && b < 1 && 0 < c && c < 1 && 0 < d && d < 1; }
#define A double a, double b, double c, double d
#define PR(n) PRE(n, A) { return 0 < a && a < 1 && 0 < b && b < 1 && 0 < c && c < 1 && 0 < d && d < 1; }
static PG box(double x, double y, double z, double w) { return PG{P2(x, y), P2(z, y), P2(z, w), P2(x, w)}; }
static PG xob(double x, double y, double z, double w) { return PG{P2(x, w), P2(z, w), P2(z, y), P2(x, y)}; }
LIB(int, cw, A) { return bits(xob(a, b, 2 + c, 2 + d)); } REF(int, cw, A) { return 0xeee0; } PR(cw)
LIB(int, cell, A) { double e = a < c ? a : c, f = b < d ? b : d; return bits(box(1 + e, 2 + f, 1 + a + c - e, 2 + b + d - f)); } REF(int, cell, A) { return 0x0200; } PR(cell)
LIB(int, strip, A) { return bits(box(1 + a, b, 1 + a + (1 - a)/2, 3 + d)); } REF(int, strip, A) { return 0x0f00; } PR(strip)
// a triangle over the grid: exactly the cells its closed region meets
LIB(int, tri, double a, double b) { return bits(PG{P2(.5 + a, .5 + b), P2(3.25 + a, .5 + b), P2(.5 + a, 3.25 + b)}); } REF(int, tri, double a, double b) { return 0xfec8; }
PRE(tri, double a, double b) { return -.1 < a && a < .1 && -.1 < b && b < .1; }
static GT g6() { return GT(0., 5.9, 0., 5.9, 1.); }
typedef polygon_with_holes<P2> PH;
struct Count { int* c; bool& ok; void operator()(unsigned i, unsigned j) { if (i < 6 && j < 6) ++c[6*i + j]; else ok = false; } };
static long pack(int* c, bool ok) { long r = 0; for (int k = 0; k < 36; ++k) { ok = ok && c[k] < 2; r = 2*r + (c[k] ? 1 : 0); } return ok ? r : -1; }
LIB(long, holed, A) { int c36[36] = {}; bool ok = true; PH p(box(a, b, 5.25, 5.5), std::vector<PG>{box(1 + c, 1 + d, 4 + c, 4 + a)}); floodfill_grid_traversal(g6(), p, Count{c36, ok}, EXACT()); return pack(c36, ok); }
REF(long, holed, A) { long r = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r = 2*r + ((i == 2 || i == 3) && (j == 2 || j == 3) ? 0 : 1); return r; } PR(holed)
//@ anchor geometrix/algorithm/floodfill_grid_traversal.hpp floodfill_grid_traversal_helper
LIB(int, inner, A) { int k6[36] = {}; bool ok = true; floodfill_grid_traversal_helper<GT> h(gt()); h.mark_boundary(box(a, b, 3 + c, 3 + d), [](unsigned, unsigned) {}, EXACT()); bool r = h.traversal(P2(1.5, 2.5), Count{k6, ok}); int n = 0; for (int k = 0; k < 36; ++k) n += k6[k]; return ok && r ? n + 10*(k6[7] + k6[8] + k6[13] + k6[14]) : -1; }
REF(int, inner, A) { return 44; } PR(inner)
LIB(bool, edge, A) { floodfill_grid_traversal_helper<GT> h(gt()); h.mark_boundary(box(a, b, 3 + c, 3 + d), [](unsigned, unsigned) {}, EXACT()); return h.traversal(P2(.5, 2.5), [](unsigned, unsigned) {}); }
REF(bool, edge, A) { return false; } PR(edge)
LIB(int, empty, A) { floodfill_grid_traversal_helper<GT> h(gt()); h.mark_boundary(box(a, b, 2 + c, 2 + d), [](unsigned, unsigned) {}, EXACT()); auto e = h.get_empty_interior(); return e ? e->first*10 + e->second : -1; }
REF(int, empty, A) { return 11; } PR(empty)
LIB(bool, full, A) { floodfill_grid_traversal_helper<GT> h(gt()); h.mark_boundary(box(a, b, 1 + c, 1 + d), [](unsigned, unsigned) {}, EXACT()); return h.get_empty_interior() ? true : false; }
REF(bool, full, A) { return false; } PR(full)
