#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/arithmetic/tensor_arithmetic.hpp>
using namespace geometrix;
template <int R, int C> using M = matrix<double, R, C>;
template <int R, int C> static M<R,C> mk(const double* p) { M<R,C> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m[i][j] = p[i*C+j]; return m; }
template <int R, int C> static void put(double* o, const M<R,C>& m) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) o[i*C+j] = m[i][j]; }
template <int R, int C, int K> static void mul(double* o, const double* a, const double* b) { for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { double s = 0; for (int k = 0; k < C; ++k) s += a[i*C+k]*b[k*K+j]; o[i*K+j] = s; } }
// one expression built from several operations
//@ anchor geometrix/algebra/functions/transpose.hpp transpose
LIB(void, xtr, double* o, const double* a, const double* b) { M<2,2> r; auto x = mk<2,3>(a), y = mk<2,3>(b); r <<= x * transpose(y); put<2,2>(o, r); }
REF(void, xtr, double* o, const double* a, const double* b) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += a[i*3+k]*b[j*3+k]; o[i*2+j] = s; } }
LIB(void, xtt, double* o, const double* a) { M<2,3> r; auto x = mk<2,3>(a); r <<= trans(trans(x)); put<2,3>(o, r); }
REF(void, xtt, double* o, const double* a) { for (int i = 0; i < 6; ++i) o[i] = a[i]; }
LIB(void, xself, double* o, const double* a) { M<3,3> r = mk<3,3>(a); M<3,3> c = r; r <<= trans(c) + c; put<3,3>(o, r); }
REF(void, xself, double* o, const double* a) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[i*3+j] = a[i*3+j] + a[j*3+i]; }
LIB(void, xalias, double* o, const double* a) { M<3,3> r = mk<3,3>(a); r <<= trans(r); put<3,3>(o, r); }
REF(void, xalias, double* o, const double* a) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[i*3+j] = a[j*3+i]; }
//@ anchor geometrix/algebra/functions/inverse.hpp inverse
LIB(void, xid, double* o, const double* a) { auto x = mk<2,2>(a); M<2,2> r; r <<= x * inverse(x); put<2,2>(o, r); }
REF(void, xid, double* o, const double* a) { o[0] = o[3] = 1; o[1] = o[2] = 0; } PRE(xid, double*, const double* a) { return a[0]*a[3] - a[1]*a[2] != 0; }
LIB(void, xinvalias, double* o, const double* a) { auto x = mk<2,2>(a); x <<= inverse(x); put<2,2>(o, x); }
REF(void, xinvalias, double* o, const double* a) { double d = a[0]*a[3] - a[1]*a[2]; o[0] = a[3]/d; o[1] = -a[1]/d; o[2] = -a[2]/d; o[3] = a[0]/d; } PRE(xinvalias, double*, const double* a) { return a[0]*a[3] - a[1]*a[2] != 0; }
LIB(void, xinvprod, double* o, const double* a, const double* v) { auto x = mk<2,2>(a); vector<double,2> b(v[0],v[1]), r; r <<= inv(x) * b; o[0] = r[0]; o[1] = r[1]; }
REF(void, xinvprod, double* o, const double* a, const double* v) { double d = a[0]*a[3] - a[1]*a[2]; o[0] = (a[3]*v[0] - a[1]*v[1])/d; o[1] = (a[0]*v[1] - a[2]*v[0])/d; } PRE(xinvprod, double*, const double* a, const double* v) { return a[0]*a[3] - a[1]*a[2] != 0; }
//@ anchor geometrix/algebra/functions/matrix_product.hpp operator * (expressions)
LIB(void, xabc, double* o, const double* a, const double* b, const double* c) { M<2,2> r; r <<= mk<2,3>(a) * mk<3,2>(b) * mk<2,2>(c); put<2,2>(o, r); }
REF(void, xabc, double* o, const double* a, const double* b, const double* c) { double t[4]; mul<2,3,2>(t, a, b); mul<2,2,2>(o, t, c); }
LIB(void, xdist, double* o, const double* a, const double* b, const double* v) { vector<double,3> x(v[0],v[1],v[2]); vector<double,2> r; auto p = mk<2,3>(a), q = mk<2,3>(b); r <<= (p + q) * x; o[0] = r[0]; o[1] = r[1]; }
REF(void, xdist, double* o, const double* a, const double* b, const double* v) { for (int i = 0; i < 2; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s += (a[i*3+k] + b[i*3+k])*v[k]; o[i] = s; } }
LIB(void, xlin, double* o, const double* a, const double* b, double k) { M<2,3> r; auto p = mk<2,3>(a), q = mk<2,3>(b); r <<= -(p - k*q); put<2,3>(o, r); }
REF(void, xlin, double* o, const double* a, const double* b, double k) { for (int i = 0; i < 6; ++i) o[i] = k*b[i] - a[i]; }
LIB(void, xdiv, double* o, const double* a, double k) { M<2,3> r; auto p = mk<2,3>(a); r <<= p / k; put<2,3>(o, r); }
REF(void, xdiv, double* o, const double* a, double k) { for (int i = 0; i < 6; ++i) o[i] = a[i]/k; } PRE(xdiv, double* o, const double* a, double k) { return k != 0; }
LIB(void, xvself, double* o, const double* a, const double* v) { vector<double,3> r(v[0],v[1],v[2]); auto p = mk<3,3>(a); r <<= p * r; for (int i = 0; i < 3; ++i) o[i] = r[i]; }
REF(void, xvself, double* o, const double* a, const double* v) { mul<3,3,1>(o, a, v); }
LIB(double, xdetp, const double* a, const double* b) { double d; auto p = mk<2,2>(a), q = mk<2,2>(b); d <<= det(p * q); return d; }
REF(double, xdetp, const double* a, const double* b) { return (a[0]*a[3] - a[1]*a[2])*(b[0]*b[3] - b[1]*b[2]); }
//@ anchor geometrix/algebra/functions/reciprocal.hpp reciprocal
LIB(void, recm, double* o, const double* a) { M<2,2> r; auto p = mk<2,2>(a); r <<= reciprocal(p); put<2,2>(o, r); }
REF(void, recm, double* o, const double* a) { for (int i = 0; i < 4; ++i) o[i] = 1/a[i]; } PRE(recm, double* o, const double* a) { return a[0]*a[1]*a[2]*a[3] != 0; }
LIB(void, recv, double* o, const double* a) { vector<double,3> p(a[0],a[1],a[2]), r; r <<= rec(p); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
REF(void, recv, double* o, const double* a) { for (int i = 0; i < 3; ++i) o[i] = 1/a[i]; } PRE(recv, double* o, const double* a) { return a[0]*a[1]*a[2] != 0; }
//@ anchor geometrix/algebra/functions/magnitude.hpp mag
LIB(void, magx, double* o, const double* a, const double* b) { vector<double,3> p(a[0],a[1],a[2]), q(b[0],b[1],b[2]), r; double l; l <<= mag(p - q); o[0] = l; r <<= p * (1/mag(q)); for (int i = 0; i < 3; ++i) o[1+i] = r[i]; }
REF(void, magx, double* o, const double* a, const double* b) { double s = 0, t = 0; for (int i = 0; i < 3; ++i) { s += (a[i]-b[i])*(a[i]-b[i]); t += b[i]*b[i]; } o[0] = sqrt(s); for (int i = 0; i < 3; ++i) o[1+i] = a[i]/sqrt(t); }
PRE(magx, double* o, const double* a, const double* b) { return b[0] > 0; }
//@ anchor geometrix/arithmetic/tensor_arithmetic.hpp tensor_product_element
LIB(void, tpe, double* o, const double* a, const double* b) { auto p = mk<2,2>(a); auto q = mk<2,3>(b); o[0] = tensor_product_element<0,0>(p,q); o[1] = tensor_product_element<0,4>(p,q); o[2] = tensor_product_element<1,2>(p,q); o[3] = tensor_product_element<2,5>(p,q); o[4] = tensor_product_element<3,1>(p,q); o[5] = tensor_product_element<3,5>(p,q); }
REF(void, tpe, double* o, const double* a, const double* b) { static const int r[6] = {0,0,1,2,3,3}, c[6] = {0,4,2,5,1,5}; for (int i = 0; i < 6; ++i) o[i] = a[r[i]/2*2 + c[i]/3]*b[r[i]%2*3 + c[i]%3]; }
LIB(void, tpv, double* o, const double* a, const double* b) { vector<double,3> p(a[0],a[1],a[2]), q(b[0],b[1],b[2]); o[0] = tensor_product_element<0,1>(p,q); o[1] = tensor_product_element<2,0>(p,q); o[2] = tensor_product_element<1,1>(p,q); }
REF(void, tpv, double* o, const double* a, const double* b) { o[0] = a[0]*b[1]; o[1] = a[2]*b[0]; o[2] = a[1]*b[1]; }
