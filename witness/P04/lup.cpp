#include "w.hpp"
#include <stdexcept>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <boost/array.hpp>
#include <boost/concept_check.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
using namespace geometrix;
template <int N> static void solve(double* o, const double* a, const double* v) {
  matrix<double,N,N> m; boost::array<std::size_t,N> pi; boost::array<double,N> b;
  for (int i = 0; i < N; ++i) { b[i] = v[i]; for (int j = 0; j < N; ++j) m[i][j] = a[i*N+j]; }
  lup_decomposition(m, pi); boost::array<double,N> x = lup_solve(m, pi, b); for (int i = 0; i < N; ++i) o[i] = x[i]; }
static double d2(double a, double b, double c, double d) { return a*d - b*c; }
static double d3(const double* a) { return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
//@ anchor geometrix/algebra/detail/preprocessed/lup_decomposition.hpp lup_solve (2x2)
LIB(void, lup2, double* o, const double* a, const double* v) { solve<2>(o, a, v); }
REF(void, lup2, double* o, const double* a, const double* v) { double d = d2(a[0],a[1],a[2],a[3]); o[0] = d2(v[0],a[1],v[1],a[3])/d; o[1] = d2(a[0],v[0],a[2],v[1])/d; }
PRE(lup2, double*, const double* a, const double*) { return d2(a[0],a[1],a[2],a[3]) != 0; }
//@ anchor geometrix/algebra/detail/preprocessed/lup_decomposition.hpp lup_solve (3x3)
LIB(void, lup3, double* o, const double* a, const double* v) { solve<3>(o, a, v); }
REF(void, lup3, double* o, const double* a, const double* v) { double d = d3(a); for (int c = 0; c < 3; ++c) { double m[9]; for (int i = 0; i < 9; ++i) m[i] = i%3 == c ? v[i/3] : a[i]; o[c] = d3(m)/d; } }
// (the second conjunct is implied by the first: a row with a[k][0] != 0 and both its 2x2 minors zero makes the determinant zero)
PRE(lup3, double*, const double* a, const double*) { bool ok = d3(a) != 0;
  for (int k = 0; k < 3; ++k) { int i = (k+1)%3, j = (k+2)%3;
    ok = ok & !((a[3*k] != 0) & (a[3*k]*a[3*i+1]-a[3*k+1]*a[3*i] == 0) & (a[3*k]*a[3*j+1]-a[3*k+1]*a[3*j] == 0)); }
  return ok; }
// larger systems: dense matrices that exercise every row exchange, all right-hand sides, all scales and all large last entries
static double ent(int s, int i, int j) { static const int t[13] = {3,-1,4,1,-5,2,-6,5,3,-4,8,7,-9}; return t[(5*i + 3*j + i*j + 4*s*(i+1) + s*j) % 13]; }
template <int N> static void big(double* o, int s, double u, double e, const double* v) { double a[N*N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a[i*N+j] = u*ent(s,i,j); a[N*N-1] = e; double x[N]; solve<N>(x, a, v);
  for (int i = 0; i < N; ++i) { double t = 0; for (int j = 0; j < N; ++j) t += a[i*N+j]*x[j]; o[i] = t; } }
#define BIG(N, s) \
PRE(lu##N##_##s, double* o, double u, double e, const double* v) { return u > 0 && e > 1000*u; } \
LIB(void, lu##N##_##s, double* o, double u, double e, const double* v) { big<N>(o, s, u, e, v); } \
REF(void, lu##N##_##s, double* o, double u, double e, const double* v) { for (int i = 0; i < N; ++i) o[i] = v[i]; }
//@ anchor geometrix/algebra/detail/preprocessed/lup_decomposition.hpp lup_solve (4x4)
BIG(4,0) BIG(4,1) BIG(4,2) BIG(4,3) BIG(4,4) BIG(4,5) BIG(4,6) BIG(4,7)
//@ anchor geometrix/algebra/detail/preprocessed/lup_decomposition.hpp lup_solve (5x5)
BIG(5,0) BIG(5,1) BIG(5,2) BIG(5,3) BIG(5,4) BIG(5,5) BIG(5,6) BIG(5,7)
//@ anchor geometrix/algebra/detail/preprocessed/lup_decomposition.hpp lup_solve (6x6)
BIG(6,0) BIG(6,1) BIG(6,2) BIG(6,3) BIG(6,4) BIG(6,5) BIG(6,6) BIG(6,7)
