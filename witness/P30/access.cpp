#include "geo.hpp"
#include <boost/tuple/tuple.hpp>
#include <boost/fusion/include/boost_tuple.hpp>
#include <boost/fusion/include/adapt_struct.hpp>
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/index_operator_vector_access_policy.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/triangle.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
// user-defined storages ------------------------------------------------------------------
struct tup3 : boost::tuple<double, double, double> { typedef boost::tuple<double, double, double> B; tup3(double x = 0, double y = 0, double z = 0) : B(x, y, z) {} };
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(tup3, double, get, 3);
namespace geometrix { template <> struct construction_policy<tup3> { static tup3 construct(double x, double y, double z) { return tup3(x, y, z); } template <class S> static tup3 construct(const S& a) { return tup3(geometrix::get<0>(a), geometrix::get<1>(a), geometrix::get<2>(a)); } }; }
GEOMETRIX_DEFINE_POINT_TRAITS(tup3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<tup3>);
struct mem3 { mem3(double x = 0, double y = 0, double z = 0) : a(x), b(y), c(z) {} double& get_x() { return a; } double& get_y() { return b; } double& get_z() { return c; } const double& get_x() const { return a; } const double& get_y() const { return b; } const double& get_z() const { return c; } void set_x(const double& v) { a = v; } void set_y(const double& v) { b = v; } void set_z(const double& v) { c = v; } double a, b, c; };
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(mem3, (double&, const double&, get_x, set_x) (double&, const double&, get_y, set_y) (double&, const double&, get_z, set_z));
GEOMETRIX_DEFINE_POINT_TRAITS(mem3, (double), 3, double, double, cartesian_reference_frame_3d, fusion_vector_member_function_access_policy<mem3>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(mem3, 3);
struct idx3 { idx3(double x = 0, double y = 0, double z = 0) { p[0] = x; p[1] = y; p[2] = z; } const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } double p[3]; };
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(idx3, double, 3);
GEOMETRIX_DEFINE_POINT_TRAITS(idx3, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<idx3>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(idx3, 3);
#define XYZ double x, double y, double z
#define D3 double* o, XYZ
static void id3(double* o, XYZ) { o[0] = x; o[1] = y; o[2] = z; }
template <class T> static void rd(double* o, const T& p) { o[0] = geometrix::get<0>(p); o[1] = geometrix::get<1>(p); o[2] = geometrix::get<2>(p); }
template <class T> static void wr(double* o, XYZ, double v) { T p(x,y,z), q(x,y,z), r(x,y,z); geometrix::set<0>(p, v); geometrix::set<1>(q, v); geometrix::set<2>(r, v); rd(o, p); rd(o+3, q); rd(o+6, r); }
#define RW(T) LIB(void, rd_##T, D3) { rd(o, T(x,y,z)); } REF(void, rd_##T, D3) { id3(o, x, y, z); } \
LIB(void, wr_##T, D3, double v) { wr<T>(o, x, y, z, v); } REF(void, wr_##T, D3, double v) { id3(o, v, y, z); id3(o+3, x, v, z); id3(o+6, x, y, v); } \
LIB(void, cons_##T, D3) { rd(o, construct<T>(x,y,z)); rd(o+3, construct<T>(P3(x,y,z))); rd(o+6, construct<P3>(T(x,y,z))); } REF(void, cons_##T, D3) { id3(o, x,y,z); id3(o+3, x,y,z); id3(o+6, x,y,z); }
//@ anchor geometrix/tensor/tuple_vector_access_policy.hpp get/set
RW(tup3)
//@ anchor geometrix/tensor/fusion_vector_access_policy.hpp member function get/set
RW(mem3)
//@ anchor geometrix/tensor/index_operator_vector_access_policy.hpp get/set
RW(idx3)
typedef numeric_sequence<double, 3> N3; typedef numeric_sequence<double, 5> N5;
RW(P3) RW(V3)
template <class T> static void rtime(double* o, XYZ, int i, double v) { T p(x,y,z); typedef index_operator_vector_access_policy<T> A; o[0] = A::get(p, i); A::set(p, i, v); rd(o+1, p); }
#define RT(T) LIB(void, rt_##T, D3, int i, double v) { rtime<T>(o, x, y, z, i, v); } REF(void, rt_##T, D3, int i, double v) { o[0] = i == 0 ? x : i == 1 ? y : z; o[1] = i == 0 ? v : x; o[2] = i == 1 ? v : y; o[3] = i == 2 ? v : z; } PRE(rt_##T, double*, XYZ, int i, double v) { return i >= 0 && i < 3; }
RT(P3) RT(V3) RT(idx3)
//@ anchor geometrix/tensor/numeric_sequence.hpp storage
LIB(void, n5, double* o, const double* p) { N5 n(p[0],p[1],p[2],p[3],p[4]); for (int i = 0; i < 5; ++i) o[i] = n[i]; n[3] = p[5]; for (int i = 0; i < 5; ++i) o[5+i] = n[i]; }
REF(void, n5, double* o, const double* p) { for (int i = 0; i < 5; ++i) { o[i] = p[i]; o[5+i] = i == 3 ? p[5] : p[i]; } }
//@ anchor geometrix/primitive/point_traits.hpp as_vector
LIB(void, asv, D3) { P3 p(x,y,z); rd(o, as_vector(p)); V3 w(x,y,z); geometrix::set<1>(as_vector(w), 7.0); rd(o+3, w); } REF(void, asv, D3) { id3(o, x,y,z); id3(o+3, x,7,z); }
//@ anchor geometrix/tensor/matrix.hpp rows, columns, elements
typedef matrix<double, 2, 3> M23; typedef matrix<double, 3, 3> M33;
template <class M> static M mk(const double* p, int r, int c) { M m; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m[i][j] = p[i*c+j]; return m; }
LIB(void, mel, double* o, const double* p) { M23 m = mk<M23>(p, 2, 3); o[0] = get<0,0>(m); o[1] = get<0,1>(m); o[2] = get<0,2>(m); o[3] = get<1,0>(m); o[4] = get<1,1>(m); o[5] = get<1,2>(m); for (int i = 0; i < 6; ++i) o[6+i] = m[i/3][i%3]; }
REF(void, mel, double* o, const double* p) { for (int i = 0; i < 6; ++i) o[i] = o[6+i] = p[i]; }
LIB(void, mset, double* o, const double* p) { M23 m = mk<M23>(p, 2, 3); set<1,0>(m, p[6]); set<0,2>(m, p[7]); m[1][2] = p[8]; for (int i = 0; i < 6; ++i) o[i] = m[i/3][i%3]; }
REF(void, mset, double* o, const double* p) { for (int i = 0; i < 6; ++i) o[i] = p[i]; o[3] = p[6]; o[2] = p[7]; o[5] = p[8]; }
LIB(void, mrc, double* o, const double* p) { M33 m = mk<M33>(p, 3, 3); row<M33,1> r(m); column<M33,2> c(m); rd(o, r); rd(o+3, c);  m[1][2] = p[9]; m[0][2] = p[10]; for (int i = 0; i < 9; ++i) o[6+i] = m[i/3][i%3]; rd(o+15, r); rd(o+18, c); }
REF(void, mrc, double* o, const double* p) { id3(o, p[3],p[4],p[5]); id3(o+3, p[2],p[5],p[8]); for (int i = 0; i < 9; ++i) o[6+i] = p[i]; o[6+5] = p[9]; o[6+2] = p[10]; id3(o+15, p[3],p[4],p[9]); id3(o+18, p[10],p[9],p[8]); }
//@ anchor geometrix/tensor/matrix_minor_adaptor.hpp matrix_minor
template <int R, int C> static void mnr(double* o, M33& m) { matrix_minor<M33,R,C> n(m); o[0] = geometrix::get<0,0>(n); o[1] = geometrix::get<0,1>(n); o[2] = geometrix::get<1,0>(n); o[3] = geometrix::get<1,1>(n); }
LIB(void, minors, double* o, const double* p) { M33 m = mk<M33>(p, 3, 3); mnr<0,0>(o, m); mnr<0,1>(o+4, m); mnr<0,2>(o+8, m); mnr<1,0>(o+12, m); mnr<1,1>(o+16, m); mnr<1,2>(o+20, m); mnr<2,0>(o+24, m); mnr<2,1>(o+28, m); mnr<2,2>(o+32, m); }
REF(void, minors, double* o, const double* p) { int n = 0; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != r && j != c) o[n++] = p[i*3+j]; }
//@ anchor geometrix/tensor/identity_matrix.hpp get
LIB(void, ident, double* o, int i, int j) { identity_matrix<double,3,3> m; o[0] = m.get(i, j); } REF(void, ident, double* o, int i, int j) { o[0] = i == j; }
//@ anchor geometrix/tensor/homogeneous_adaptor.hpp get
LIB(void, homo, double* o, double x, double y) { P2 p(x,y); V2 v(x,y); auto a = as_positional_homogeneous<double>(p); auto b = as_vectoral_homogeneous<double>(v); auto c = as_positional_homogeneous<double>(v); rd(o, a); rd(o+3, b); rd(o+6, c); } REF(void, homo, double* o, double x, double y) { id3(o, x,y,1); id3(o+3, x,y,0); id3(o+6, x,y,1); }
