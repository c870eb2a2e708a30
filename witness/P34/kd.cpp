#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
typedef axis_aligned_bounding_box<P2> BOX;
// a range search visits every stored point of the closed box once and no other one
static const double A5[10] = {0,0, 4,1, 2,3, 1,4, 5,5}, B6[12] = {2,2, 2,5, 2,0, 5,2, 0,2, 4,4}, C7[14] = {0,3, 1,1, 2,6, 3,0, 4,5, 5,2, 6,4};
template <int N> static void hits(int* o, const double* p, double x0, double y0, double x1, double y1) { std::vector<P2> v; for (int i = 0; i < N; ++i) { v.push_back(P2(p[2*i],p[2*i+1])); o[i] = 0; }
  kd_tree<P2> t(v, EXACT(), median_partitioning_strategy()); t.search(BOX(P2(x0,y0),P2(x1,y1)), [&](const P2& q) { for (int i = 0; i < N; ++i) if (q[0] == p[2*i] && q[1] == p[2*i+1]) o[i]++; }, EXACT()); }
template <int N> static void scan(int* o, const double* p, double x0, double y0, double x1, double y1) { for (int i = 0; i < N; ++i) o[i] = p[2*i] >= x0 && p[2*i] <= x1 && p[2*i+1] >= y0 && p[2*i+1] <= y1; }
#define KD(n, S, N, X0, Y0, X1, Y1) LIB(void, kd##n, int* o, double x, double y) { hits<N>(o, S, X0, Y0, X1, Y1); } REF(void, kd##n, int* o, double x, double y) { scan<N>(o, S, X0, Y0, X1, Y1); } PRE(kd##n, int* o, double x, double y) { return (X0 <= X1) & (Y0 <= Y1); }
//@ anchor geometrix/algorithm/kd_tree.hpp search
KD(a, A5, 5, x,y, x+3,y+1) KD(b, B6, 6, x,y, x+2,y+3) KD(c, C7, 7, x,y, x+1,y+1) KD(d, A5, 5, 0,0, x,y) KD(e, B6, 6, x,y, 5,5) KD(f, C7, 7, 2,x, 5,y) KD(g, C7, 7, x,1, y,4) KD(h, B6, 6, x,2, y,2) KD(i, A5, 1, x,y, x+1,y+1) KD(j, A5, 2, x,y, x+1,y+1)
LIB(void, kdall, int* o, double x0, double y0, double x1, double y1) { hits<3>(o, A5, x0, y0, x1, y1); } REF(void, kdall, int* o, double x0, double y0, double x1, double y1) { scan<3>(o, A5, x0, y0, x1, y1); } PRE(kdall, int* o, double x0, double y0, double x1, double y1) { return (x0 <= x1) & (y0 <= y1); }
// the same for every position of one of the points
#define KM(n, S, N, K, X, Y, Q) LIB(void, km##n, int* o, double u) { double p[2*N]; for (int i = 0; i < 2*N; ++i) p[i] = S[i]; p[2*K] = X; p[2*K+1] = Y; std::vector<P2> v; for (int i = 0; i < N; ++i) v.push_back(P2(p[2*i],p[2*i+1])); o[0] = o[1] = 0; \
  kd_tree<P2> t(v, EXACT(), median_partitioning_strategy()); t.search(Q, [&](const P2& q) { o[0]++; if (q[0] == X && q[1] == Y) o[1]++; }, EXACT()); } \
REF(void, km##n, int* o, double u) { o[0] = o[1] = 0; BOX b(Q); for (int i = 0; i < N; ++i) { double x = i == K ? X : S[2*i], y = i == K ? Y : S[2*i+1]; bool in = x >= b.get_lower_bound()[0] && x <= b.get_upper_bound()[0] && y >= b.get_lower_bound()[1] && y <= b.get_upper_bound()[1]; if (in) { o[0]++; if (x == X && y == Y) o[1]++; } } }
KM(a, A5, 5, 2, u, 2., BOX(P2(1,1),P2(4,3))) KM(b, A5, 5, 0, 3., u, BOX(P2(1,1),P2(4,3))) KM(c, B6, 6, 3, u, u, BOX(P2(1,1),P2(4,4))) KM(d, B6, 6, 1, u, 2., BOX(P2(0,0),P2(2,2)))
