#include "geo.hpp"
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/constants.hpp>
typedef matrix<double, 2, 3> M23; typedef matrix<double, 3, 3> M33;
static double ab(double x) { return x < 0 ? -x : x; }
//@ anchor geometrix/algebra/functions/reciprocal.hpp reciprocal
LIB(void, recv, double* o, double x, double y, double z) { V3 v; v <<= rec(V3(x,y,z)); o[0] = get<0>(v); o[1] = get<1>(v); o[2] = get<2>(v); V3 w; w <<= reciprocal(V3(x,y,z)); o[3] = get<0>(w); o[4] = get<1>(w); o[5] = get<2>(w); } REF(void, recv, double* o, double x, double y, double z) { o[0] = o[3] = 1/x; o[1] = o[4] = 1/y; o[2] = o[5] = 1/z; } PRE(recv, double* o, double x, double y, double z) { return x != 0 && y != 0 && z != 0; }
LIB(void, recm, double* o, const double* p) { M23 m; for (int i = 0; i < 6; ++i) m[i/3][i%3] = p[i]; M23 n; n <<= rec(m); for (int i = 0; i < 6; ++i) o[i] = n[i/3][i%3]; } REF(void, recm, double* o, const double* p) { for (int i = 0; i < 6; ++i) o[i] = 1/p[i]; } PRE(recm, double* o, const double* p) { bool b = true; for (int i = 0; i < 6; ++i) b = b && p[i] != 0; return b; }
//@ anchor geometrix/algebra/functions/negate.hpp negate
LIB(void, negm, double* o, const double* p) { M23 m; for (int i = 0; i < 6; ++i) m[i/3][i%3] = p[i]; M23 n; n <<= -m; for (int i = 0; i < 6; ++i) o[i] = n[i/3][i%3]; } REF(void, negm, double* o, const double* p) { for (int i = 0; i < 6; ++i) o[i] = -p[i]; }
//@ anchor geometrix/algebra/functions/trace.hpp trace
LIB(double, trm, const double* p) { M33 m; for (int i = 0; i < 9; ++i) m[i/3][i%3] = p[i]; double d = trace(m); return d; } REF(double, trm, const double* p) { return p[0]+p[4]+p[8]; }
//@ anchor geometrix/algebra/functions/addition.hpp matrices
LIB(void, addm, double* o, const double* p) { M23 m, k; for (int i = 0; i < 6; ++i) { m[i/3][i%3] = p[i]; k[i/3][i%3] = p[6+i]; } M23 n; n <<= m + k; for (int i = 0; i < 6; ++i) o[i] = n[i/3][i%3]; n <<= m - k; for (int i = 0; i < 6; ++i) o[6+i] = n[i/3][i%3]; n <<= m * p[12]; for (int i = 0; i < 6; ++i) o[12+i] = n[i/3][i%3]; n <<= p[12] * k; for (int i = 0; i < 6; ++i) o[18+i] = n[i/3][i%3]; n <<= m / p[12]; for (int i = 0; i < 6; ++i) o[24+i] = n[i/3][i%3]; } REF(void, addm, double* o, const double* p) { for (int i = 0; i < 6; ++i) { o[i] = p[i]+p[6+i]; o[6+i] = p[i]-p[6+i]; o[12+i] = p[i]*p[12]; o[18+i] = p[12]*p[6+i]; o[24+i] = p[i]/p[12]; } } PRE(addm, double*, const double* p) { return p[12] != 0; }
//@ anchor geometrix/tensor/vector_matrix_adaptors.hpp column_vector
LIB(void, colv, double* o, const double* p) { V3 v(p[0],p[1],p[2]); auto c = as_column_vector(v); o[0] = get<0,0>(c); o[1] = get<1,0>(c); o[2] = get<2,0>(c); set<1,0>(c, p[3]); o[3] = get<0>(v); o[4] = get<1>(v); o[5] = get<2>(v); } REF(void, colv, double* o, const double* p) { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = p[0]; o[4] = p[3]; o[5] = p[2]; }
LIB(void, rowv, double* o, const double* p) { V3 v(p[0],p[1],p[2]); auto c = as_row_vector(v); o[0] = get<0,0>(c); o[1] = get<0,1>(c); o[2] = get<0,2>(c); set<0,2>(c, p[3]); o[3] = get<0>(v); o[4] = get<1>(v); o[5] = get<2>(v); } REF(void, rowv, double* o, const double* p) { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = p[0]; o[4] = p[1]; o[5] = p[3]; }
LIB(void, colcol, double* o, const double* p) { V3 v(p[0],p[1],p[2]); auto c = as_column_vector(v); column<column_vector<V3>,0> k(c); o[0] = k.template get<0>(); o[1] = k.template get<1>(); o[2] = k.template get<2>(); v[1] = p[3]; o[3] = get<1>(v); } REF(void, colcol, double* o, const double* p) { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = p[3]; }
LIB(void, rowrow, double* o, const double* p) { V3 v(p[0],p[1],p[2]); auto c = as_row_vector(v); row<row_vector<V3>,0> k(c); o[0] = k.template get<0>(); o[1] = k.template get<1>(); o[2] = k.template get<2>(); } REF(void, rowrow, double* o, const double* p) { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; }
//@ anchor geometrix/tensor/matrix_row.hpp get/set
//@ anchor geometrix/tensor/matrix_column.hpp get/set
//@ anchor geometrix/tensor/detail/matrix_base.hpp get
LIB(void, mget, double* o, const double* p) { M23 m; for (int i = 0; i < 6; ++i) m[i/3][i%3] = p[i]; const M23& k = m; o[0] = k.template get<1,2>(); o[1] = k.get(0, 1); m.template get<0,2>() = p[6]; m.get(1, 0) = p[7]; for (int i = 0; i < 6; ++i) o[2+i] = m[i/3][i%3]; } REF(void, mget, double* o, const double* p) { o[0] = p[5]; o[1] = p[1]; for (int i = 0; i < 6; ++i) o[2+i] = i == 2 ? p[6] : i == 3 ? p[7] : p[i]; }
//@ anchor geometrix/tensor/identity_matrix.hpp get
LIB(void, idm, double* o) { identity_matrix<double,3,3> m; o[0] = m.template get<0,0>(); o[1] = m.template get<1,0>(); o[2] = m.template get<2,2>(); for (int i = 0; i < 9; ++i) o[3+i] = m[i/3][i%3]; } REF(void, idm, double* o) { o[0] = o[2] = 1; o[1] = 0; for (int i = 0; i < 9; ++i) o[3+i] = i%4 == 0; }
//@ anchor geometrix/tensor/matrix_minor_adaptor.hpp as_matrix_minor
LIB(void, mmin, double* o, const double* p) { M33 m; for (int i = 0; i < 9; ++i) m[i/3][i%3] = p[i]; auto n = as_matrix_minor<1,0>(m); o[0] = geometrix::get<0,0>(n); o[1] = geometrix::get<0,1>(n); o[2] = geometrix::get<1,0>(n); o[3] = geometrix::get<1,1>(n); } REF(void, mmin, double* o, const double* p) { o[0] = p[1]; o[1] = p[2]; o[2] = p[7]; o[3] = p[8]; }
LIB(void, mminrc, double* o, const double* p) { M33 m; for (int i = 0; i < 9; ++i) m[i/3][i%3] = p[i]; matrix_minor<M33,0,1> n(m); row<matrix_minor<M33,0,1>,1> r(n); column<matrix_minor<M33,0,1>,1> c(n); o[0] = r.template get<0>(); o[1] = r.template get<1>(); o[2] = c.template get<0>(); o[3] = c.template get<1>(); } REF(void, mminrc, double* o, const double* p) { o[0] = p[6]; o[1] = p[8]; o[2] = p[5]; o[3] = p[8]; }
//@ anchor geometrix/tensor/detail/numeric_sequence_n.hpp get/set
typedef numeric_sequence<double, 3> N3;
LIB(void, nsq, double* o, const double* p, int i) { N3 n(p[0],p[1],p[2]); const N3& k = n; o[0] = k.template get<1>(); o[1] = k.get(i); n.template set<0>(p[3]); n.set(2, p[4]); n.get(1) = p[5]; for (int j = 0; j < 3; ++j) o[2+j] = n[j]; } REF(void, nsq, double* o, const double* p, int i) { o[0] = p[1]; o[1] = i == 0 ? p[0] : i == 1 ? p[1] : p[2]; o[2] = p[3]; o[3] = p[5]; o[4] = p[4]; } PRE(nsq, double*, const double* p, int i) { return i >= 0 && i <= 2; }
