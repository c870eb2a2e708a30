#include "geo.hpp"
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include "hashrt.hpp"
using namespace geometrix;
typedef grid_traits<double> GT; typedef hash_grid_2d<double, GT> G;
static GT gt() { return GT(0., 2.5, 0., 1.5, 1.); }  // 3 x 2 cells
#define IJ unsigned i, unsigned j
#define KL unsigned k, unsigned l
#define OK(i, j) (i < 3 && j < 2)
static unsigned in(unsigned i) { return i == 0 ? 0u : i == 1 ? 1u : 2u; }
static double at(const G& g, IJ) { const double* p = g.find_cell(in(i), in(j)); return p ? *p : -1; }
//@ anchor geometrix/algorithm/hash_grid_2d.hpp get_cell, find_cell
LIB(double, store, IJ, KL, double a, double b) { G g(gt()); g.get_cell(in(i), in(j)) = a; g.get_cell(in(k), in(l)) = b; return g.get_cell(in(i), in(j)); }
REF(double, store, IJ, KL, double a, double b) { return i == k && j == l ? b : a; }
PRE(store, IJ, KL, double a, double b) { return OK(i, j) && OK(k, l); }
LIB(double, fresh, IJ) { G g(gt()); return g.get_cell(in(i), in(j)); } REF(double, fresh, IJ) { return 0; } PRE(fresh, IJ) { return OK(i, j); }
LIB(bool, none, IJ) { G g(gt()); const G& c = g; return c.find_cell(in(i), in(j)) == nullptr && g.find_cell(in(i), in(j)) == nullptr; } REF(bool, none, IJ) { return true; } PRE(none, IJ) { return OK(i, j); }
LIB(double, find, IJ, KL, double a) { G g(gt()); g.get_cell(in(i), in(j)) = a; double* p = g.find_cell(in(k), in(l)); return p ? *p : -1; }
REF(double, find, IJ, KL, double a) { return i == k && j == l ? a : -1; }
PRE(find, IJ, KL, double a) { return OK(i, j) && OK(k, l); }
LIB(double, cfind, IJ, KL, double a) { G g(gt()); g.get_cell(in(i), in(j)) = a; return at(g, k, l); }
REF(double, cfind, IJ, KL, double a) { return i == k && j == l ? a : -1; }
PRE(cfind, IJ, KL, double a) { return OK(i, j) && OK(k, l); }
LIB(bool, same, IJ) { G g(gt()); double* p = &g.get_cell(in(i), in(j)); g.get_cell(5, 5); return p == &g.get_cell(in(i), in(j)) && p == g.find_cell(in(i), in(j)); } REF(bool, same, IJ) { return true; } PRE(same, IJ) { return OK(i, j); }
//@ anchor geometrix/algorithm/hash_grid_2d.hpp access by point
LIB(double, atp, double a, double b, double c) { G g(gt()); g.get_cell(1, 1) = a; g.get_cell(2, 0) = b; g.get_cell(P2(0.5, 1)) = c; const G& k = g; return g.get_cell(P2(1.5, 1.25)) + 3*g.get_cell(P2(2, 0.5)) + 5*g.get_cell(0, 1) + 7**g.find_cell(P2(1, 1)) + 11**k.find_cell(P2(2.5, 0)) + 13**k.find_cell(0, 1) + (k.find_cell(P2(0, 0)) || g.find_cell(P2(1.5, 0.5)) ? 1 : 0); }
REF(double, atp, double a, double b, double c) { return 8*a + 14*b + 18*c; }
LIB(double, atq, double a) { G g(gt()); g.get_cell(2, 0) = a; return g.get_cell(P2(2.25, 0.75)) + g.get_cell(P2(0.25, 1.25)); } REF(double, atq, double a) { return a; }
LIB(bool, cont, double x, double y) { G g(gt()); return g.is_contained(P2(x, y)); } REF(bool, cont, double x, double y) { return 0 <= x && x <= 2.5 && 0 <= y && y <= 1.5; }
//@ anchor geometrix/algorithm/hash_grid_2d.hpp erase, clear
LIB(void, era, IJ, KL, double a, double b, double c, double* o) { G g(gt()); g.get_cell(0, 0) = a; g.get_cell(1, 0) = b; g.get_cell(2, 1) = c; g.erase(in(i), in(j)); *o = at(g, k, l); }
REF(void, era, IJ, KL, double a, double b, double c, double* o) { double r = k == 0 && l == 0 ? a : k == 1 && l == 0 ? b : k == 2 && l == 1 ? c : -1; *o = i == k && j == l ? -1 : r; }
PRE(era, IJ, KL, double a, double b, double c, double*) { return OK(i, j) && OK(k, l); }
LIB(double, clr, KL, double a, double b) { G g(gt()); g.get_cell(0, 0) = a; g.get_cell(1, 0) = b; g.clear(); return at(g, k, l); }
REF(double, clr, KL, double a, double b) { return -1; }
PRE(clr, KL, double a, double b) { return OK(k, l); }
LIB(double, again, KL, double a, double b) { G g(gt()); g.get_cell(0, 0) = a; g.get_cell(1, 0) = b; g.erase(0, 0); g.get_cell(0, 0); return at(g, k, l); }
REF(double, again, KL, double a, double b) { return k == 0 && l == 0 ? 0 : k == 1 && l == 0 ? b : -1; }
PRE(again, KL, double a, double b) { return OK(k, l); }
LIB(double, moved, KL, double a, double b) { G g(gt()); g.get_cell(0, 0) = a; g.get_cell(1, 0) = b; G h(std::move(g)); return at(h, k, l); }
REF(double, moved, KL, double a, double b) { return k == 0 && l == 0 ? a : k == 1 && l == 0 ? b : -1; }
PRE(moved, KL, double a, double b) { return OK(k, l); }
