//@ grow geometrix/algorithm/kd_tree.hpp geometrix/algorithm/median_partitioning_strategy.hpp
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include "grow.hpp"
// a range search among many points finds each one of the closed box once and no other one
typedef axis_aligned_bounding_box<P2> BOX;
static P2 site(int k) { return P2((7*k) % 43, (11*k+5) % 47); }
static P2 back(int k) { return site(SZ-1-k); }
#define KD(n, site, X0, Y0, X1, Y1) LIB(void, gkd##n, int* o, double x) { std::vector<P2> v; for (int i = 0; i < SZ; ++i) { v.push_back(site(i)); o[i] = 0; } kd_tree<P2> t(v, EXACT(), median_partitioning_strategy()); \
  t.search(BOX(P2(X0,Y0),P2(X1,Y1)), [&](const P2& q) { for (int i = 0; i < SZ; ++i) if (q[0] == site(i)[0] && q[1] == site(i)[1]) o[i]++; }, EXACT()); } \
REF(void, gkd##n, int* o, double x) { for (int i = 0; i < SZ; ++i) { P2 p = site(i); o[i] = p[0] >= X0 && p[0] <= X1 && p[1] >= Y0 && p[1] <= Y1; } } PRE(gkd##n, int* o, double x) { return (X0 <= X1) & (Y0 <= Y1); }
//@ anchor geometrix/algorithm/kd_tree.hpp search
KD(a, site, x, 8, 36, 40) KD(b, site, 5, x, 30, x+6) KD(c, site, x, 3, x, 44)
// the same points listed backwards
KD(d, back, 0, x, x+9, 44) KD(e, back, x, 3, x, 44)
