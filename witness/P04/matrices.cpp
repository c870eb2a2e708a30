#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <boost/array.hpp>
using namespace geometrix;
template <int R, int C> using M = matrix<double, R, C>;
template <int R, int C> static M<R,C> mk(const double* p) { M<R,C> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m[i][j] = p[i*C+j]; return m; }
template <int R, int C> static void put(double* o, const M<R,C>& m) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) o[i*C+j] = m[i][j]; }
template <int R, int C, int K> static void mul(double* o, const double* a, const double* b) { for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { double s = 0; for (int k = 0; k < C; ++k) s += a[i*C+k]*b[k*K+j]; o[i*K+j] = s; } }
static double det2(const double* a) { return a[0]*a[3] - a[1]*a[2]; }
static double det3(const double* a) { return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
static double det4(const double* a) { double s = 0; for (int c = 0; c < 4; ++c) { double m[9]; int n = 0; for (int i = 1; i < 4; ++i) for (int j = 0; j < 4; ++j) if (j != c) m[n++] = a[i*4+j]; s += (c % 2 ? -1 : 1) * a[c] * det3(m); } return s; }
//@ anchor geometrix/algebra/functions/matrix_product.hpp operator * (matrix, matrix)
LIB(void, mm222, double* o, const double* a, const double* b) { M<2,2> r; r <<= mk<2,2>(a) * mk<2,2>(b); put<2,2>(o, r); }
REF(void, mm222, double* o, const double* a, const double* b) { mul<2,2,2>(o, a, b); }
LIB(void, mm233, double* o, const double* a, const double* b) { M<2,3> r; r <<= mk<2,3>(a) * mk<3,3>(b); put<2,3>(o, r); }
REF(void, mm233, double* o, const double* a, const double* b) { mul<2,3,3>(o, a, b); }
LIB(void, mm333, double* o, const double* a, const double* b) { M<3,3> r; r <<= mk<3,3>(a) * mk<3,3>(b); put<3,3>(o, r); }
REF(void, mm333, double* o, const double* a, const double* b) { mul<3,3,3>(o, a, b); }
LIB(void, mm324, double* o, const double* a, const double* b) { M<3,4> r; r <<= mk<3,2>(a) * mk<2,4>(b); put<3,4>(o, r); }
REF(void, mm324, double* o, const double* a, const double* b) { mul<3,2,4>(o, a, b); }
LIB(void, mself, double* o, const double* a, const double* b) { M<2,2> r = mk<2,2>(a); r <<= r * mk<2,2>(b); put<2,2>(o, r); }
REF(void, mself, double* o, const double* a, const double* b) { mul<2,2,2>(o, a, b); }
//@ anchor geometrix/algebra/functions/addition.hpp matrix addition / subtraction
LIB(void, madd, double* o, const double* a, const double* b) { M<3,2> r; r <<= mk<3,2>(a) + mk<3,2>(b); put<3,2>(o, r); r <<= mk<3,2>(a) - mk<3,2>(b); put<3,2>(o + 6, r); }
REF(void, madd, double* o, const double* a, const double* b) { for (int i = 0; i < 6; ++i) { o[i] = a[i] + b[i]; o[i+6] = a[i] - b[i]; } }
//@ anchor geometrix/algebra/functions/multiplication.hpp scalar * matrix, -matrix
LIB(void, mscale, double* o, const double* a, double k) { M<2,3> r; r <<= mk<2,3>(a) * k; put<2,3>(o, r); r <<= k * mk<2,3>(a); put<2,3>(o+6, r); r <<= -mk<2,3>(a); put<2,3>(o+12, r); r <<= mk<2,3>(a) / k; put<2,3>(o+18, r); }
REF(void, mscale, double* o, const double* a, double k) { for (int i = 0; i < 6; ++i) { o[i] = o[i+6] = k * a[i]; o[i+12] = -a[i]; o[i+18] = a[i] / k; } }
PRE(mscale, double*, const double*, double k) { return k != 0; }
//@ anchor geometrix/algebra/functions/matrix_product.hpp operator * (matrix, vector)
LIB(void, mv2, double* o, const double* a, const double* v) { vector<double,2> x(v[0], v[1]), r; r <<= mk<2,2>(a) * x; o[0] = r[0]; o[1] = r[1]; }
REF(void, mv2, double* o, const double* a, const double* v) { mul<2,2,1>(o, a, v); }
LIB(void, mv3, double* o, const double* a, const double* v) { vector<double,3> x(v[0], v[1], v[2]), r; r <<= mk<3,3>(a) * x; o[0] = r[0]; o[1] = r[1]; o[2] = r[2]; }
REF(void, mv3, double* o, const double* a, const double* v) { mul<3,3,1>(o, a, v); }
//@ anchor geometrix/algebra/functions/transpose.hpp trans
LIB(void, trans, double* o, const double* a) { M<3,2> r; auto m = mk<2,3>(a); r <<= trans(m); put<3,2>(o, r); }
REF(void, trans, double* o, const double* a) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) o[i*2+j] = a[j*3+i]; }
//@ anchor geometrix/arithmetic/detail/determinant.hpp determinant
LIB(double, det1, const double* a) { return determinant(mk<2,2>(a)); }
REF(double, det1, const double* a) { return det2(a); }
LIB(double, det3, const double* a) { return determinant(mk<3,3>(a)); }
REF(double, det3, const double* a) { return det3(a); }
LIB(double, det4, const double* a) { return determinant(mk<4,4>(a)); }
REF(double, det4, const double* a) { return det4(a); }
//@ anchor geometrix/algebra/functions/determinant.hpp det
LIB(double, detx, const double* a) { double d; d <<= det(mk<3,3>(a)); return d; }
REF(double, detx, const double* a) { return det3(a); }
//@ anchor geometrix/arithmetic/matrix/trace.hpp trace
LIB(double, tr2, const double* a) { return trace(mk<2,2>(a)); }
REF(double, tr2, const double* a) { return a[0] + a[3]; }
LIB(double, tr3, const double* a) { return trace(mk<3,3>(a)); }
REF(double, tr3, const double* a) { return a[0] + a[4] + a[8]; }
LIB(double, tr4, const double* a) { return trace(mk<4,4>(a)); }
REF(double, tr4, const double* a) { return a[0] + a[5] + a[10] + a[15]; }
//@ anchor geometrix/algebra/functions/inverse.hpp inv
LIB(void, inv2, double* o, const double* a) { M<2,2> r; r <<= inv(mk<2,2>(a)); put<2,2>(o, r); }
REF(void, inv2, double* o, const double* a) { double d = det2(a); o[0] = a[3]/d; o[1] = -a[1]/d; o[2] = -a[2]/d; o[3] = a[0]/d; }
PRE(inv2, double*, const double* a) { return det2(a) != 0; }
LIB(void, inv3, double* o, const double* a) { M<3,3> r; r <<= inv(mk<3,3>(a)); put<3,3>(o, r); }
REF(void, inv3, double* o, const double* a) { double d = det3(a);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int r0 = (j+1)%3, r1 = (j+2)%3, c0 = (i+1)%3, c1 = (i+2)%3; o[i*3+j] = (a[r0*3+c0]*a[r1*3+c1] - a[r0*3+c1]*a[r1*3+c0]) / d; } }
PRE(inv3, double*, const double* a) { return det3(a) != 0; }
//@ anchor geometrix/arithmetic/matrix_arithmetic.hpp inverse_at_index
LIB(void, invs, double* o, const double* a) { M<2,2> r; r <<= inv(mk<2,2>(a)); put<2,2>(o, r); }
REF(void, invs, double* o, const double* a) { double d = det2(a); if (d == 0) throw std::logic_error("singular"); o[0] = a[3]/d; o[1] = -a[1]/d; o[2] = -a[2]/d; o[3] = a[0]/d; }
