#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
static double mn(double a, double b) { return b < a ? b : a; } static double mx(double a, double b) { return a < b ? b : a; }
template <class B> static void out(double* o, const B& b, int n) { for (int i = 0; i < n; ++i) { o[i] = b.get_lower_bound()[i]; o[n+i] = b.get_upper_bound()[i]; } }
template <int N> static std::array<P2,N> seq2(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
template <int N> static std::array<P3,N> seq3(const double* p) { std::array<P3,N> a; for (int i = 0; i < N; ++i) a[i] = P3(p[3*i],p[3*i+1],p[3*i+2]); return a; }
static void bnd(double* o, const double* p, int d, int i0, int i1) { for (int k = 0; k < d; ++k) { double l = p[d*i0+k], h = l; for (int i = i0+1; i <= i1; ++i) { l = mn(l, p[d*i+k]); h = mx(h, p[d*i+k]); } o[k] = l; o[d+k] = h; } }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_bounds
#define GB(N) \
LIB(void, gb2_##N, double* o, const double* p) { auto b = get_bounds(seq2<N>(p), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_xmax>(b); o[3] = std::get<e_ymax>(b); } \
REF(void, gb2_##N, double* o, const double* p) { bnd(o, p, 2, 0, N-1); } \
LIB(void, gb3_##N, double* o, const double* p) { auto b = get_bounds(seq3<N>(p), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_zmin>(b); o[3] = std::get<e_xmax>(b); o[4] = std::get<e_ymax>(b); o[5] = std::get<e_zmax>(b); } \
REF(void, gb3_##N, double* o, const double* p) { bnd(o, p, 3, 0, N-1); } \
LIB(void, mk2_##N, double* o, const double* p) { out(o, make_aabb<P2>(seq2<N>(p)), 2); } \
REF(void, mk2_##N, double* o, const double* p) { bnd(o, p, 2, 0, N-1); } \
LIB(void, mk3_##N, double* o, const double* p) { out(o, make_aabb<P3>(seq3<N>(p)), 3); } \
REF(void, mk3_##N, double* o, const double* p) { bnd(o, p, 3, 0, N-1); }
GB(1) GB(2) GB(3) GB(4)
LIB(void, gbs2, double* o, const double* p) { auto b = get_bounds(seq2<5>(p), std::tuple<std::size_t,std::size_t>(1, 3), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_xmax>(b); o[3] = std::get<e_ymax>(b); }
REF(void, gbs2, double* o, const double* p) { bnd(o, p, 2, 1, 3); }
LIB(void, gbs3, double* o, const double* p) { auto b = get_bounds(seq3<5>(p), std::tuple<std::size_t,std::size_t>(1, 3), EXACT()); o[0] = std::get<e_xmin>(b); o[1] = std::get<e_ymin>(b); o[2] = std::get<e_zmin>(b); o[3] = std::get<e_xmax>(b); o[4] = std::get<e_ymax>(b); o[5] = std::get<e_zmax>(b); }
REF(void, gbs3, double* o, const double* p) { bnd(o, p, 3, 1, 3); }
LIB(void, mks2r, double* o, const double* p) { out(o, make_aabb<P2>(seq2<4>(p), std::make_tuple(std::size_t(1), std::size_t(3))), 2); }
REF(void, mks2r, double* o, const double* p) { bnd(o, p, 2, 1, 3); }
LIB(void, mks3r, double* o, const double* p) { out(o, make_aabb<P3>(seq3<4>(p), std::make_tuple(std::size_t(0), std::size_t(2))), 3); }
REF(void, mks3r, double* o, const double* p) { bnd(o, p, 3, 0, 2); }
// the box never excludes a point it was built from (any tolerance widens by at most the tolerance)
LIB(bool, gbt, const double* p, double t) { auto s = seq2<3>(p); auto b = make_aabb<P2>(s, TOL(t)); bool r = true; for (auto& q : s) r = r && b.intersects(q, TOL(t)); return r; }
REF(bool, gbt, const double* p, double t) { return true; }
PRE(gbt, const double*, double t) { return t >= 0; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp update_bound
LIB(void, upd2, double* o, const double* a, const double* b) { auto r = update_bound(std::make_tuple(a[0],a[1],a[2],a[3]), std::make_tuple(b[0],b[1],b[2],b[3])); o[0] = std::get<0>(r); o[1] = std::get<1>(r); o[2] = std::get<2>(r); o[3] = std::get<3>(r); }
REF(void, upd2, double* o, const double* a, const double* b) { for (int i = 0; i < 4; ++i) o[i] = i%2 ? mx(a[i],b[i]) : mn(a[i],b[i]); }
LIB(void, upd3, double* o, const double* a, const double* b) { auto r = update_bound(std::make_tuple(a[0],a[1],a[2],a[3],a[4],a[5]), std::make_tuple(b[0],b[1],b[2],b[3],b[4],b[5])); o[0] = std::get<0>(r); o[1] = std::get<1>(r); o[2] = std::get<2>(r); o[3] = std::get<3>(r); o[4] = std::get<4>(r); o[5] = std::get<5>(r); }
REF(void, upd3, double* o, const double* a, const double* b) { for (int i = 0; i < 6; ++i) o[i] = i%2 ? mx(a[i],b[i]) : mn(a[i],b[i]); }
