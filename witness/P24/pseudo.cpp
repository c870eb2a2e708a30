#include "geo.hpp"
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/algorithm/orientation_enum.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#define V2A double ax, double ay
//@ anchor geometrix/tensor/is_null.hpp is_null
LIB(bool, null2, double x, double y) { return is_null(V2(x, y)); } REF(bool, null2, double x, double y) { return x == 0 && y == 0; }
LIB(bool, null3, double x, double y, double z) { return is_null(V3(x, y, z)); } REF(bool, null3, double x, double y, double z) { return x == 0 && y == 0 && z == 0; }
LIB(bool, null3t, double x, double y, double z, double t) { return is_null(V3(x, y, z), absolute_tolerance_comparison_policy<double>(t)); } REF(bool, null3t, double x, double y, double z, double t) { return x <= t && x >= -t && y <= t && y >= -t && z <= t && z >= -t; } PRE(null3t, double x, double y, double z, double t) { return t > 0; }
//@ anchor geometrix/arithmetic/vector/is_antiparallel.hpp is_antiparallel
LIB(bool, antip, V2A, double k, double l) { return is_antiparallel(V2(ax,ay), V2(k*ax-l*ay, k*ay+l*ax), direct_comparison_policy()); } REF(bool, antip, V2A, double k, double l) { return l == 0 && k < 0; } PRE(antip, V2A, double k, double l) { return (ax != 0 || ay != 0) && (k != 0 || l != 0); }
LIB(bool, antip_x, double x, double y) { return is_antiparallel(V2(3,4), V2(x,y), direct_comparison_policy()); } REF(bool, antip_x, double x, double y) { return 3*y == 4*x && x < 0; } PRE(antip_x, double x, double y) { return x != 0 || y != 0; }
//@ anchor geometrix/algorithm/orientation_enum.hpp opposite_orientation
LIB(void, oppo, int* o) { o[0] = opposite_orientation(oriented_left); o[1] = opposite_orientation(oriented_right); o[2] = opposite_orientation(oriented_collinear); } REF(void, oppo, int* o) { o[0] = -1; o[1] = 1; o[2] = 0; }
//@ anchor geometrix/utility/vector_angle_compare.hpp pseudo_angle
static double ab(double x) { return x < 0 ? -x : x; }
LIB(double, psa, double x, double y) { return pseudo_angle(V2(x, y)); } REF(double, psa, double x, double y) { double c = x/(ab(x)+ab(y)); return y >= 0 ? 1-c : 3+c; } PRE(psa, double x, double y) { return x != 0 || y != 0; }
// ordering by it is ordering by the angle from the x axis, measured counter-clockwise
static bool before(double ax, double ay, double bx, double by) { bool ha = ay < 0 || (ay == 0 && ax < 0), hb = by < 0 || (by == 0 && bx < 0); if (ha != hb) return hb; return ax*by - ay*bx > 0; }
LIB(bool, psord, double ax, double ay, double bx, double by) { return pseudo_angle(V2(ax, ay)) < pseudo_angle(V2(bx, by)); } REF(bool, psord, double ax, double ay, double bx, double by) { return before(ax, ay, bx, by); } PRE(psord, double ax, double ay, double bx, double by) { return (ax != 0 || ay != 0) && (bx != 0 || by != 0); }
LIB(bool, psrange, double x, double y) { double a = pseudo_angle(V2(x, y)); return a >= 0 && a < 4; } REF(bool, psrange, double x, double y) { return true; } PRE(psrange, double x, double y) { return x != 0 || y != 0; }
