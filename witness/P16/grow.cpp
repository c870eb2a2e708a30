//@ grow geometrix/primitive/point_sequence_utilities.hpp geometrix/primitive/axis_aligned_bounding_box.hpp
#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include "grow.hpp"
// the box of many points, one of them anywhere, at any place of the sequence
typedef axis_aligned_bounding_box<P2> B2;
static std::array<P2,SZ> ring(int k, double x, double y) { auto r = arf(par); r[k] = P2(x,y); return r; }
static void want(double* o, int k, double x, double y, int i0, int i1) { o[0] = o[1] = 1e9; o[2] = o[3] = -1e9; for (int i = i0; i <= i1; ++i) { double a = i == k ? x : i, b = i == k ? y : i*i; o[0] = std::fmin(o[0], a); o[1] = std::fmin(o[1], b); o[2] = std::fmax(o[2], a); o[3] = std::fmax(o[3], b); } }
static void box(double* o, const B2& b) { for (int i = 0; i < 2; ++i) { o[i] = b.get_lower_bound()[i]; o[2+i] = b.get_upper_bound()[i]; } }
#define PRX(n) PRE(n, double*, double x, double y) { return x > -1e6 && x < 1e6 && y > -1e6 && y < 1e6; }
#define GB(n, K) LIB(void, gb##n, double* o, double x, double y) { auto b = get_bounds(ring(K, x, y), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_xmax>(b); o[3] = std::get<e_ymax>(b); } REF(void, gb##n, double* o, double x, double y) { want(o, K, x, y, 0, SZ-1); } PRX(gb##n) \
LIB(void, mk##n, double* o, double x, double y) { box(o, make_aabb<P2>(ring(K, x, y))); } REF(void, mk##n, double* o, double x, double y) { want(o, K, x, y, 0, SZ-1); } PRX(mk##n) \
LIB(void, rg##n, double* o, double x, double y) { auto b = get_bounds(ring(K, x, y), std::make_tuple((std::size_t)1, (std::size_t)(SZ-2)), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_xmax>(b); o[3] = std::get<e_ymax>(b); } REF(void, rg##n, double* o, double x, double y) { want(o, K, x, y, 1, SZ-2); } PRX(rg##n)
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_bounds
GB(0, 0) GB(1, 1) GB(h, SZ/2) GB(p, SZ-2) GB(l, SZ-1)
