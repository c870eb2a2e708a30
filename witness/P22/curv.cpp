#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
typedef polyline<P2> PL;
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp split_by_total_curvature
// zig zag of 3-4-5 pieces: every inner corner adds 1.6; pieces end where the sum passes the limit and begin again at that corner
static PL zig() { return PL{P2(0,0), P2(3,4), P2(6,0), P2(9,4), P2(12,0), P2(15,4)}; }
LIB(void, spl, double* o, double t) { std::vector<PL> r = split_by_total_curvature(zig(), t); o[0] = r.size(); int m = 1; for (std::size_t k = 0; k < 5; ++k) { o[m++] = k < r.size() ? get<0>(r[k].front()) : -1; o[m++] = k < r.size() ? get<0>(r[k].back()) : -1; o[m++] = k < r.size() ? r[k].size() : 0; } }
REF(void, spl, double* o, double t) { int n = 0; double s = 0; int from = 0; for (int k = 0; k < 16; ++k) o[k] = k ? (k%3 == 0 ? 0 : -1) : 0; for (int i = 1; i < 6; ++i) { if (i < 5) s += 1.6; bool cut = s > t && i < 5; if (cut || i == 5) { if (!(i == 5 && from == 5)) { o[1+3*n] = 3*from; o[2+3*n] = 3*i; o[3+3*n] = i-from+1; ++n; } from = i; s = 0; } } o[0] = n; }
PRE(spl, double*, double t) { return t > 0; }
