#include "geo.hpp"
#include <geometrix/algorithm/grid_traits.hpp>
using namespace geometrix;
typedef grid_traits<double> G;
// five numbers give a grid; w the cell width
#define GRID double x0, double x1, double y0, double y1, double w
#define MK G g(x0, x1, y0, y1, w)
#define OKG (w > 0 && x0 < x1 && y0 < y1 && x1 - x0 < 1e6*w && y1 - y0 < 1e6*w)
//@ anchor geometrix/algorithm/grid_traits.hpp grid_traits::get_x_index, get_y_index, is_contained
// the query point is given by its cell coordinate: x = x0 + t*w
LIB(unsigned, xi, GRID, double t) { MK; return g.get_x_index(x0 + t*w); }
REF(unsigned, xi, GRID, double t) { return (unsigned)std::floor(t); }
PRE(xi, GRID, double t) { return OKG && t >= 0 && x0 + t*w <= x1; }
LIB(unsigned, yi, GRID, double t) { MK; return g.get_y_index(y0 + t*w); }
REF(unsigned, yi, GRID, double t) { return (unsigned)std::floor(t); }
PRE(yi, GRID, double t) { return OKG && t >= 0 && y0 + t*w <= y1; }
LIB(bool, cont, GRID, double x, double y) { MK; return g.is_contained(P2(x, y)); }
REF(bool, cont, GRID, double x, double y) { return x0 <= x && x <= x1 && y0 <= y && y <= y1; }
PRE(cont, GRID, double x, double y) { return OKG; }
// the cell found for a contained point is one of the grid's cells and its box holds the point
LIB(bool, incellx, double x0, double w, double n, double t) { G g(x0, x0 + n*w, 0, 1, w); double x = x0 + t*w; auto i = g.get_x_index(x); auto b = g.get_cell_aabb(i, 0); return i < g.get_width() && get<0>(b.get_lower_bound()) <= x && x < get<0>(b.get_upper_bound()); }
REF(bool, incellx, double, double, double, double) { return true; }
PRE(incellx, double x0, double w, double n, double t) { return w > 0 && n > 0 && n < 1e6 && t >= 0 && t <= n && w < 1e6 && 1 < 1e6*w; }
LIB(bool, incelly, double y0, double w, double n, double t) { G g(0, 1, y0, y0 + n*w, w); double y = y0 + t*w; auto i = g.get_y_index(y); auto b = g.get_cell_aabb(0, i); return i < g.get_height() && get<1>(b.get_lower_bound()) <= y && y < get<1>(b.get_upper_bound()); }
REF(bool, incelly, double, double, double, double) { return true; }
PRE(incelly, double y0, double w, double n, double t) { return w > 0 && n > 0 && n < 1e6 && t >= 0 && t <= n && w < 1e6 && 1 < 1e6*w; }
LIB(unsigned, width, GRID) { MK; return g.get_width(); } REF(unsigned, width, GRID) { return (unsigned)std::floor((x1 - x0)/w) + 1; } PRE(width, GRID) { return OKG; }
LIB(unsigned, height, GRID) { MK; return g.get_height(); } REF(unsigned, height, GRID) { return (unsigned)std::floor((y1 - y0)/w) + 1; } PRE(height, GRID) { return OKG; }
LIB(unsigned, tw, GRID) { G g(std::make_tuple(x0, x1, y0, y1), w); return g.get_width() + 3*g.get_height(); } REF(unsigned, tw, GRID) { return (unsigned)std::floor((x1 - x0)/w) + 1 + 3*((unsigned)std::floor((y1 - y0)/w) + 1); } PRE(tw, GRID) { return OKG; }
LIB(void, tupled, GRID, double* o) { G g(std::make_tuple(x0, x1, y0, y1), w); o[0] = g.get_min_x(); o[1] = g.get_max_x(); o[2] = g.get_min_y(); o[3] = g.get_max_y(); o[4] = g.get_cell_size(); o[5] = get<0>(g.get_origin()); o[6] = get<1>(g.get_origin()); }
REF(void, tupled, GRID, double* o) { o[0] = x0; o[1] = x1; o[2] = y0; o[3] = y1; o[4] = w; o[5] = x0; o[6] = y0; }
PRE(tupled, GRID, double*) { return OKG; }
LIB(void, ext, GRID, double* o) { MK; o[0] = g.get_min_x(); o[1] = g.get_max_x(); o[2] = g.get_min_y(); o[3] = g.get_max_y(); o[4] = g.get_cell_size(); o[5] = get<0>(g.get_origin()); o[6] = get<1>(g.get_origin()); }
REF(void, ext, GRID, double* o) { o[0] = x0; o[1] = x1; o[2] = y0; o[3] = y1; o[4] = w; o[5] = x0; o[6] = y0; }
PRE(ext, GRID, double*) { return OKG; }
//@ anchor geometrix/algorithm/grid_traits.hpp cell geometry
static void put(double*& o, const P2& p) { *o++ = get<0>(p); *o++ = get<1>(p); }
LIB(void, corners, GRID, unsigned i, unsigned j, double* o) { MK; put(o, g.get_cell_corner0(i, j)); put(o, g.get_cell_corner1(i, j)); put(o, g.get_cell_corner2(i, j)); put(o, g.get_cell_corner3(i, j)); put(o, g.get_cell_centroid(i, j)); auto b = g.get_cell_aabb(i, j); put(o, b.get_lower_bound()); put(o, b.get_upper_bound()); }
REF(void, corners, GRID, unsigned i, unsigned j, double* o) { double a = x0 + i*w, b = x0 + (i + 1.0)*w, c = y0 + j*w, d = y0 + (j + 1.0)*w; double r[] = {a, c, b, c, b, d, a, d, (a+b)/2, (c+d)/2, a, c, b, d}; for (int k = 0; k < 14; ++k) o[k] = r[k]; }
PRE(corners, GRID, unsigned i, unsigned j, double*) { return OKG && i < 1000000 && j < 1000000; }
LIB(void, cellpoly, GRID, unsigned i, unsigned j, double* o) { MK; auto p = g.get_cell_polygon(i, j); o[8] = p.size(); for (int k = 0; k < 4; ++k) put(o, p[k]); }
REF(void, cellpoly, GRID, unsigned i, unsigned j, double* o) { double a = x0 + i*w, b = x0 + (i + 1.0)*w, c = y0 + j*w, d = y0 + (j + 1.0)*w; double r[] = {a, c, b, c, b, d, a, d, 4}; for (int k = 0; k < 9; ++k) o[k] = r[k]; }
PRE(cellpoly, GRID, unsigned i, unsigned j, double*) { return OKG && i < 1000000 && j < 1000000; }
// the index of a cell's centre and of its lower corner is the cell itself
LIB(bool, inverse, GRID, unsigned i, unsigned j) { MK; auto c = g.get_cell_centroid(i, j), d = g.get_cell_corner0(i, j); return g.get_x_index(get<0>(c)) == i && g.get_y_index(get<1>(c)) == j && g.get_x_index(get<0>(d)) == i && g.get_y_index(get<1>(d)) == j; }
REF(bool, inverse, GRID, unsigned i, unsigned j) { return true; }
PRE(inverse, GRID, unsigned i, unsigned j) { return OKG && i < 1000000 && j < 1000000; }
LIB(void, scaled, GRID, double x, double y, double* o) { MK; o[0] = g.get_scaled_grid_coordinate_x(x); o[1] = g.get_scaled_grid_coordinate_y(y); }
REF(void, scaled, GRID, double x, double y, double* o) { o[0] = (x - x0)/w; o[1] = (y - y0)/w; }
PRE(scaled, GRID, double, double, double*) { return OKG; }
