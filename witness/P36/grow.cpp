//@ grow geometrix/algorithm/point_sequence/find_subsequence.hpp geometrix/primitive/point_sequence_utilities.hpp
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include "grow.hpp"
// the border of long polygons
static P2 stair(int k) { return P2(2*((k+1)/2), 2*(k/2)); }
static P2 ring(int k) { return k == 0 ? P2(-200,200) : k == SZ-1 ? P2(200,200) : stair(k); }
static P2 by(int k, double w) { P2 a = stair(k), b = stair(k+1); if (k % 2) w = -w; return P2((a[0]+b[0])/2 + w*(b[1]-a[1])/2, (a[1]+b[1])/2 + w*(a[0]-b[0])/2); }
static P2 on(int k, double f) { P2 a = stair(k), b = stair(k+1); return P2(a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])); }
//@ anchor geometrix/algorithm/point_sequence/find_subsequence.hpp find_closest_polygon_border_segment / find_containing_polygon_border_segment
#define FC(n, K) LIB(int, gfc##n, double u) { return (int)find_closest_polygon_border_segment(arf(ring), by(K,u)); } REF(int, gfc##n, double u) { return K; } PRE(gfc##n, double u) { return (u > 0) & (u < 1) & (K >= 1) & (K <= SZ-3); } \
LIB(int, gfo##n, double f) { auto r = find_containing_polygon_border_segment(arf(ring), on(K,f), EXACT()); return r ? (int)*r : -1; } REF(int, gfo##n, double f) { return K; } PRE(gfo##n, double f) { return (f > 0) & (f < 1) & (K >= 1) & (K <= SZ-3); } \
LIB(int, gfe##n, double f) { return (int)find_containing_or_closest_polygon_border_segment(arf(ring), on(K,f), EXACT()); } REF(int, gfe##n, double f) { return K; } PRE(gfe##n, double f) { return (f > 0) & (f < 1) & (K >= 1) & (K <= SZ-3); } \
LIB(bool, gnc##n, double u) { return (bool)find_containing_polygon_border_segment(arf(ring), by(K,u), EXACT()); } REF(bool, gnc##n, double u) { return false; } PRE(gnc##n, double u) { return (u > 0) & (u < 1) & (K >= 1) & (K <= SZ-3); }
FC(0, 2) FC(h, (SZ/4*2)) FC(l, (SZ%2 ? SZ-3 : SZ-4))
//@ anchor geometrix/algorithm/point_sequence/find_subsequence.hpp polygons_equal
