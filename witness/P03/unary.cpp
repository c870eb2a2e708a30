#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <cmath>
using namespace geometrix;
template <int N> using V = vector<double, N>;
template <int N> using Pt = point<double, N>;
template <class T, int N> static T mk(const double* p) { T t; for (int i = 0; i < N; ++i) t[i] = p[i]; return t; }
template <int N, class T> static void put(double* o, const T& t) { for (int i = 0; i < N; ++i) o[i] = t[i]; }
#define DIMS(M) M(2) M(3) M(4)
//@ anchor geometrix/algebra/functions/reciprocal.hpp rec / reciprocal of a vector
#define O(N) LIB(void, vrec##N, double* o, const double* a) { V<N> r; r <<= rec(mk<V<N>,N>(a)); put<N>(o, r); } \
             REF(void, vrec##N, double* o, const double* a) { for (int i = 0; i < N; ++i) o[i] = 1 / a[i]; } \
             PRE(vrec##N, const double* a) { bool z = true; for (int i = 0; i < N; ++i) z = z & (a[i] != 0); return z; } \
             LIB(void, srec##N, double* o, const double* a, double s) { V<N> r; r <<= s * reciprocal(mk<V<N>,N>(a)); put<N>(o, r); } \
             REF(void, srec##N, double* o, const double* a, double s) { for (int i = 0; i < N; ++i) o[i] = s / a[i]; } \
             PRE(srec##N, const double* a, double s) { bool z = true; for (int i = 0; i < N; ++i) z = z & (a[i] != 0); return z; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/magnitude.hpp mag
#define O(N) LIB(double, vmag##N, const double* a) { double r; r <<= mag(mk<V<N>,N>(a)); return r; } \
             REF(double, vmag##N, const double* a) { double s = 0; for (int i = 0; i < N; ++i) s += a[i] * a[i]; return std::sqrt(s); }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/expression_generator.hpp as<T>(expression) / construct<T>(expression) / assign
#define O(N) LIB(void, cvt##N, double* o, const double* a, const double* b, double s) { auto v = as<V<N>>(mk<V<N>,N>(a) + s * mk<V<N>,N>(b)); put<N>(o, v); auto w = construct<V<N>>(mk<Pt<N>,N>(a) - mk<Pt<N>,N>(b)); put<N>(o+N, w); auto p = as<Pt<N>>(mk<Pt<N>,N>(a) + mk<V<N>,N>(b)); put<N>(o+2*N, p); V<N> x; x <<= v; put<N>(o+3*N, x); assign(x, w - v); put<N>(o+4*N, x); o[5*N] = as<double>(v * w); } \
             REF(void, cvt##N, double* o, const double* a, const double* b, double s) { double q = 0; for (int i = 0; i < N; ++i) { double v = a[i] + s*b[i], w = a[i] - b[i]; o[i] = v; o[N+i] = w; o[2*N+i] = a[i] + b[i]; o[3*N+i] = v; o[4*N+i] = w - v; q += v*w; } o[5*N] = q; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/expression_generator.hpp expr_cast<T> in an assignment (rotation about an axis)
LIB(void, rodr, double* o, const double* a, const double* b, double c, double s) { auto v = mk<V<3>,3>(a), u = mk<V<3>,3>(b); Pt<3> p; p <<= expr_cast<Pt<3>>(c*v + (1.0 - c)*(v*u)*u + s*(u^v)); put<3>(o, p); }
REF(void, rodr, double* o, const double* v, const double* u, double c, double s) { double d = v[0]*u[0] + v[1]*u[1] + v[2]*u[2]; for (int i = 0; i < 3; ++i) { int j = (i+1)%3, k = (i+2)%3; o[i] = c*v[i] + (1-c)*d*u[i] + s*(u[j]*v[k] - u[k]*v[j]); } }
