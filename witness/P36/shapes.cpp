#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
template <int N> static std::array<P2,N> seq2(const double* p) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i],p[2*i+1]); return a; }
static bool near(double a, double b, double t) { double d = a - b; return d <= t && -d <= t; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp point_sequences_equal
LIB(bool, pse, const double* p, const double* q, double t) { return point_sequences_equal(seq2<2>(p), seq2<2>(q), TOL(t)); }
REF(bool, pse, const double* p, const double* q, double t) { bool r = true; for (int i = 0; i < 4; ++i) r = r && near(p[i], q[i], t); return r; }
PRE(pse, const double*, const double*, double t) { return t >= 0; }
LIB(bool, psd, const double* p, const double* q) { return point_sequences_equal(seq2<2>(p), seq2<3>(q), EXACT()) || point_sequences_equal(seq2<3>(p), seq2<2>(q), EXACT()); }
REF(bool, psd, const double* p, const double* q) { return false; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp polygons_equal
LIB(void, pge, double* o, const double* p, const double* q) { for (int k = 0; k < 3; ++k) o[k] = polygons_equal(seq2<3>(p), seq2<3>(q), k, EXACT()); }
REF(void, pge, double* o, const double* p, const double* q) { for (int k = 0; k < 3; ++k) { bool r = true; for (int i = 0; i < 3; ++i) r = r && p[2*i] == q[2*((i+k)%3)] && p[2*i+1] == q[2*((i+k)%3)+1]; o[k] = r; } }
LIB(bool, pgd, const double* p, const double* q) { return polygons_equal(seq2<3>(p), seq2<4>(q), 0, EXACT()); } REF(bool, pgd, const double* p, const double* q) { return false; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp polygon_polygon_offset
LIB(double, off, const double* p, const double* q) { std::size_t r = polygon_polygon_offset(seq2<4>(p), seq2<4>(q), EXACT()); return r == (std::numeric_limits<std::size_t>::max)() ? -1 : double(r); }
REF(double, off, const double* p, const double* q) { for (int i = 0; i < 4; ++i) if (p[0] == q[2*i] && p[1] == q[2*i+1]) return i; return -1; }
//@ anchor geometrix/algorithm/point_sequence/is_congruent.hpp are_polylines_congruent
// rigid motion (c,s,x,y) with c^2+s^2 = 1
template <int N> static std::array<P2,N> move(const double* p, double c, double s, double x, double y) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(c*p[2*i]-s*p[2*i+1]+x, s*p[2*i]+c*p[2*i+1]+y); return a; }
LIB(bool, cong3, const double* p, double c, double s, double x, double y) { return are_polylines_congruent(seq2<3>(p), move<3>(p,c,s,x,y), EXACT()); }
REF(bool, cong3, const double* p, double c, double s, double x, double y) { return true; } PRE(cong3, const double*, double c, double s, double, double) { return c*c+s*s == 1; }
LIB(bool, cong4, const double* p, double c, double s, double x, double y) { return are_polylines_congruent(seq2<4>(p), move<4>(p,c,s,x,y), EXACT()); }
REF(bool, cong4, const double* p, double c, double s, double x, double y) { return true; } PRE(cong4, const double*, double c, double s, double, double) { return c*c+s*s == 1; }
// first edge on the x-axis of both: congruent exactly when equal
#define AX(N, FN, NAME) LIB(bool, NAME, const double* p, const double* q) { std::array<P2,N> a, b; a[0] = b[0] = P2(0,0); for (int i = 1; i < N; ++i) { a[i] = P2(p[2*i], i == 1 ? 0. : p[2*i+1]); b[i] = P2(q[2*i], i == 1 ? 0. : q[2*i+1]); } return FN(a, b, EXACT()); } \
REF(bool, NAME, const double* p, const double* q) { bool r = p[2] == q[2]; for (int i = 2; i < N; ++i) r = r && p[2*i] == q[2*i] && p[2*i+1] == q[2*i+1]; return r; }
AX(2, are_polylines_congruent, ax2) PRE(ax2, const double* p, const double* q) { return p[2] > 0 && q[2] > 0; }
AX(3, are_polylines_congruent, ax3) PRE(ax3, const double* p, const double* q) { return p[2] > 0 && q[2] > 0; }
// four vertices, the first three shared: congruent exactly when the last one is shared too
#define LAST(FN, NAME) LIB(bool, NAME, const double* p, const double* q) { auto a = seq2<4>(p), b = a; b[3] = P2(q[0], q[1]); return FN(a, b, EXACT()); } \
REF(bool, NAME, const double* p, const double* q) { return p[6] == q[0] && p[7] == q[1]; } PRE(NAME, const double* p, const double*) { return p[4] == 0 && p[5] == 0 && p[2] > 0 && p[3] == 0; }
LAST(are_polylines_congruent, last4) LAST(are_polygons_congruent, last4g)
AX(3, are_polygons_congruent, axg3) PRE(axg3, const double* p, const double* q) { return p[2] > 0 && q[2] > 0 && d2sq(p[2],0,p[4],p[5]) > 0; }
LIB(bool, congsz, const double* p, const double* q) { return are_polylines_congruent(seq2<2>(p), seq2<3>(q), EXACT()) || are_polygons_congruent(seq2<4>(p), seq2<3>(q), EXACT()); } REF(bool, congsz, const double* p, const double* q) { return false; }
LIB(bool, congg, const double* p, double c, double s, double x, double y) { return are_polygons_congruent(seq2<4>(p), move<4>(p,c,s,x,y), EXACT()); }
REF(bool, congg, const double* p, double c, double s, double x, double y) { return true; } PRE(congg, const double*, double c, double s, double, double) { return c*c+s*s == 1; }
