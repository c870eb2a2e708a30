#include "geo.hpp"
#include <geometrix/algorithm/grid_2d.hpp>
using namespace geometrix;
typedef grid_traits<double> GT; typedef grid_2d<double, GT> G;
static GT gt() { return GT(0., 2.5, 0., 1.5, 1.); }  // 3 x 2 cells
#define IJ unsigned i, unsigned j
#define OK(i, j) (i < 3 && j < 2)
// what is written to one cell is read back there and nowhere else
//@ anchor geometrix/algorithm/grid_2d.hpp get_cell
LIB(double, store, IJ, unsigned k, unsigned l, double a, double b) { G g(gt()); g.get_cell(i, j) = a; g.get_cell(k, l) = b; return g.get_cell(i, j); }
REF(double, store, IJ, unsigned k, unsigned l, double a, double b) { return i == k && j == l ? b : a; }
PRE(store, IJ, unsigned k, unsigned l, double a, double b) { return OK(i, j) && OK(k, l); }
LIB(double, init, IJ) { G g(gt()); const G& c = g; return c.get_cell(i, j); } REF(double, init, IJ) { return 0; } PRE(init, IJ) { return OK(i, j); }
LIB(double, other, IJ, unsigned k, unsigned l, double a) { G g(gt()); g.get_cell(i, j) = a; const G& c = g; return c.get_cell(k, l); }
REF(double, other, IJ, unsigned k, unsigned l, double a) { return i == k && j == l ? a : 0; }
PRE(other, IJ, unsigned k, unsigned l, double a) { return OK(i, j) && OK(k, l); }
// by point
LIB(double, atp, double x, double y, unsigned k, unsigned l, double a) { G g(gt()); g.get_cell(P2(x, y)) = a; return g.get_cell(k, l); }
REF(double, atp, double x, double y, unsigned k, unsigned l, double a) { return std::floor(x) == k && std::floor(y) == l ? a : 0; }
PRE(atp, double x, double y, unsigned k, unsigned l, double a) { return OK(k, l) && 0 <= x && x <= 2.5 && 0 <= y && y <= 1.5; }
LIB(double, fromp, double x, double y, IJ, double a) { G g(gt()); g.get_cell(i, j) = a; const G& c = g; return c.get_cell(P2(x, y)); }
REF(double, fromp, double x, double y, IJ, double a) { return std::floor(x) == i && std::floor(y) == j ? a : 0; }
PRE(fromp, double x, double y, IJ, double a) { return OK(i, j) && 0 <= x && x <= 2.5 && 0 <= y && y <= 1.5; }
LIB(bool, cont, double x, double y) { G g(gt()); return g.is_contained(P2(x, y)); } REF(bool, cont, double x, double y) { return 0 <= x && x <= 2.5 && 0 <= y && y <= 1.5; }
// a copy has cells of its own
LIB(double, copy, IJ, double a, double b) { G g(gt()); g.get_cell(i, j) = a; G h(g); g.get_cell(i, j) = b; return h.get_cell(i, j); } REF(double, copy, IJ, double a, double b) { return a; } PRE(copy, IJ, double a, double b) { return OK(i, j); }
