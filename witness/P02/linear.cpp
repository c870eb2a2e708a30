#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
using namespace geometrix;
template <int N> using V = vector<double, N>;
template <int N> using Pt = point<double, N>;
template <class T, int N> static T mk(const double* p) { T t; for (int i = 0; i < N; ++i) t[i] = p[i]; return t; }
template <int N, class T> static void put(double* o, const T& t) { for (int i = 0; i < N; ++i) o[i] = t[i]; }

#define DIMS(M) M(2) M(3) M(4) M(5)
//@ anchor geometrix/algebra/functions/addition.hpp operator + (vector, vector)
#define O(N) LIB(void, vadd##N, double* o, const double* a, const double* b) { V<N> r; r <<= mk<V<N>,N>(a) + mk<V<N>,N>(b); put<N>(o, r); } \
             REF(void, vadd##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = a[i] + b[i]; }
DIMS(O)
#undef O
#define O(N) LIB(void, padd##N, double* o, const double* a, const double* b) { Pt<N> r = mk<Pt<N>,N>(a) + mk<V<N>,N>(b); put<N>(o, r); } \
             REF(void, padd##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = a[i] + b[i]; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/subtraction.hpp operator -
#define O(N) LIB(void, vsub##N, double* o, const double* a, const double* b) { V<N> r = mk<V<N>,N>(a) - mk<V<N>,N>(b); put<N>(o, r); } \
             REF(void, vsub##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = a[i] - b[i]; }
DIMS(O)
#undef O
#define O(N) LIB(void, ppsub##N, double* o, const double* a, const double* b) { V<N> r = mk<Pt<N>,N>(a) - mk<Pt<N>,N>(b); put<N>(o, r); } \
             REF(void, ppsub##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = a[i] - b[i]; }
DIMS(O)
#undef O
#define O(N) LIB(void, pvsub##N, double* o, const double* a, const double* b) { Pt<N> r = mk<Pt<N>,N>(a) - mk<V<N>,N>(b); put<N>(o, r); } \
             REF(void, pvsub##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = a[i] - b[i]; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/multiplication.hpp operator *
#define O(N) LIB(void, vscale##N, double* o, const double* a, double k) { V<N> r = mk<V<N>,N>(a) * k; put<N>(o, r); V<N> q = k * mk<V<N>,N>(a); put<N>(o + N, q); } \
             REF(void, vscale##N, double* o, const double* a, double k) { for (int i = 0; i < N; ++i) o[i] = o[i + N] = a[i] * k; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/division.hpp operator /
#define O(N) LIB(void, vdiv##N, double* o, const double* a, double k) { V<N> r = mk<V<N>,N>(a) / k; put<N>(o, r); } \
             REF(void, vdiv##N, double* o, const double* a, double k) { for (int i = 0; i < N; ++i) o[i] = a[i] / k; } \
             PRE(vdiv##N, double*, const double*, double k) { return k != 0; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/negate.hpp operator - (unary)
#define O(N) LIB(void, vneg##N, double* o, const double* a) { V<N> r = -mk<V<N>,N>(a); put<N>(o, r); } \
             REF(void, vneg##N, double* o, const double* a) { for (int i = 0; i < N; ++i) o[i] = -a[i]; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/expression.hpp composed expressions and assignment
#define O(N) LIB(void, vmix##N, double* o, const double* p, const double* a, const double* b, double k, double m) \
             { Pt<N> r; r <<= mk<Pt<N>,N>(p) + k * (mk<V<N>,N>(a) - mk<V<N>,N>(b)) / m; put<N>(o, r); } \
             REF(void, vmix##N, double* o, const double* p, const double* a, const double* b, double k, double m) { for (int i = 0; i < N; ++i) o[i] = p[i] + k * (a[i] - b[i]) / m; } \
             PRE(vmix##N, double*, const double*, const double*, const double*, double, double m) { return m != 0; }
DIMS(O)
#undef O
#define O(N) LIB(void, vselfassign##N, double* o, const double* a, const double* b) \
             { V<N> r = mk<V<N>,N>(a), s = mk<V<N>,N>(b); r <<= s - r; put<N>(o, r); r = r + s; put<N>(o + N, r); } \
             REF(void, vselfassign##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) { o[i] = b[i] - a[i]; o[i + N] = b[i] - a[i] + b[i]; } }
DIMS(O)
#undef O
// point/vector round trip: p + (q - p) == q ; (p + v) - p == v
#define O(N) LIB(void, roundtrip##N, double* o, const double* a, const double* b) \
             { Pt<N> p = mk<Pt<N>,N>(a), q = mk<Pt<N>,N>(b); Pt<N> r = p + (q - p); put<N>(o, r); V<N> v = mk<V<N>,N>(b); V<N> w = (p + v) - p; put<N>(o + N, w); } \
             REF(void, roundtrip##N, double* o, const double* a, const double* b) { for (int i = 0; i < N; ++i) o[i] = o[i + N] = b[i]; }
DIMS(O)
#undef O
//@ anchor geometrix/primitive/point_traits.hpp as_vector / as_point
#define O(N) LIB(void, asconv##N, double* o, const double* a) { V<N> r = as_vector(mk<Pt<N>,N>(a)); put<N>(o, r); Pt<N> q = as_point(mk<V<N>,N>(a)); put<N>(o + N, q); } \
             REF(void, asconv##N, double* o, const double* a) { for (int i = 0; i < N; ++i) o[i] = o[i + N] = a[i]; }
DIMS(O)
#undef O
//@ anchor geometrix/tensor/numeric_sequence_compare.hpp numeric_sequence_equals
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#define O(N) LIB(bool, eqv##N, const double* a, const double* b, double t) { absolute_tolerance_comparison_policy<double> c(t); return numeric_sequence_equals(mk<V<N>,N>(a), mk<V<N>,N>(b), c); } \
             REF(bool, eqv##N, const double* a, const double* b, double t) { for (int i = 0; i < N; ++i) if (!(std::fabs(a[i] - b[i]) <= t)) return false; return true; } \
             PRE(eqv##N, const double*, const double*, double t) { return t >= 0; } \
             LIB(bool, eqp##N, const double* a, const double* b) { direct_comparison_policy c; return numeric_sequence_equals(mk<Pt<N>,N>(a), mk<Pt<N>,N>(b), c); } \
             REF(bool, eqp##N, const double* a, const double* b) { for (int i = 0; i < N; ++i) if (a[i] != b[i]) return false; return true; }
DIMS(O) O(6)
#undef O
//@ anchor geometrix/tensor/numeric_sequence_compare.hpp numeric_sequence_equals_2d / _3d
LIB(bool, eqs2, const double* a, const double* b, double t) { absolute_tolerance_comparison_policy<double> c(t); return numeric_sequence_equals_2d(mk<Pt<2>,2>(a), mk<Pt<2>,2>(b), c); }
REF(bool, eqs2, const double* a, const double* b, double t) { return std::fabs(a[0] - b[0]) <= t && std::fabs(a[1] - b[1]) <= t; }
PRE(eqs2, const double*, const double*, double t) { return t >= 0; }
LIB(bool, eqs3, const double* a, const double* b, double t) { absolute_tolerance_comparison_policy<double> c(t); return numeric_sequence_equals_3d(mk<Pt<3>,3>(a), mk<Pt<3>,3>(b), c); }
REF(bool, eqs3, const double* a, const double* b, double t) { return std::fabs(a[0] - b[0]) <= t && std::fabs(a[1] - b[1]) <= t && std::fabs(a[2] - b[2]) <= t; }
PRE(eqs3, const double*, const double*, double t) { return t >= 0; }
#define O(N) LIB(void, vin##N, double* o, const double* p, const double* a, const double* b, double k) { V<N> r = mk<V<N>,N>(a); r += mk<V<N>,N>(b); put<N>(o, r); r -= mk<V<N>,N>(p); put<N>(o + N, r); r *= k; put<N>(o + 2*N, r); r /= k; put<N>(o + 3*N, r); } \
             REF(void, vin##N, double* o, const double* p, const double* a, const double* b, double k) { for (int i = 0; i < N; ++i) { o[i] = a[i] + b[i]; o[i+N] = a[i] + b[i] - p[i]; o[i+2*N] = k*(a[i] + b[i] - p[i]); o[i+3*N] = a[i] + b[i] - p[i]; } } \
             PRE(vin##N, double*, const double*, const double*, const double*, double k) { return k != 0; }
//@ anchor geometrix/arithmetic/vector.hpp compound assignment
DIMS(O)
#undef O
#define DIMS6(M) M(6) M(7)
#define O(N) LIB(void, wide##N, double* o, const double* a, const double* b, double k) { V<N> r; r <<= mk<V<N>,N>(a) + k * (mk<V<N>,N>(b) - mk<V<N>,N>(a)); put<N>(o, r); V<N> n = -mk<V<N>,N>(b); put<N>(o + N, n); } \
             REF(void, wide##N, double* o, const double* a, const double* b, double k) { for (int i = 0; i < N; ++i) { o[i] = a[i] + k * (b[i] - a[i]); o[i+N] = -b[i]; } }
//@ anchor geometrix/algebra/expression.hpp expressions in dimensions six and seven
DIMS6(O)
#undef O
