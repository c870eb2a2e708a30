#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/normalize.hpp>
#include <geometrix/arithmetic/vector/magnitude.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algebra/dot_product.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <cmath>
using namespace geometrix;
template <int N> using V = vector<double, N>;
template <int N> using Pt = point<double, N>;
template <class T, int N> static T mk(const double* p) { T t; for (int i = 0; i < N; ++i) t[i] = p[i]; return t; }
template <int N, class T> static void put(double* o, const T& t) { for (int i = 0; i < N; ++i) o[i] = t[i]; }
static double dot(const double* a, const double* b, int n) { double s = 0; for (int i = 0; i < n; ++i) s += a[i] * b[i]; return s; }
static bool nz(const double* a, int n) { bool z = true; for (int i = 0; i < n; ++i) z = z & (a[i] == 0); return !z; }
#define DIMS(M) M(2) M(3) M(4) M(5)
//@ anchor geometrix/algebra/dot_product.hpp dot_product
#define O(N) LIB(double, dot##N, const double* a, const double* b) { return dot_product(mk<V<N>,N>(a), mk<V<N>,N>(b)); } \
             REF(double, dot##N, const double* a, const double* b) { return dot(a, b, N); }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/dot_product.hpp operator * (vector, vector)
#define O(N) LIB(double, dotop##N, const double* a, const double* b) { double r; r <<= mk<V<N>,N>(a) * mk<V<N>,N>(b); return r; } \
             REF(double, dotop##N, const double* a, const double* b) { return dot(a, b, N); }
DIMS(O)
#undef O
//@ anchor geometrix/arithmetic/vector/magnitude.hpp magnitude_sqrd
#define O(N) LIB(double, msq##N, const double* a) { return magnitude_sqrd(mk<V<N>,N>(a)); } \
             REF(double, msq##N, const double* a) { return dot(a, a, N); }
DIMS(O)
#undef O
//@ anchor geometrix/arithmetic/vector/magnitude.hpp magnitude
#define O(N) LIB(double, mag##N, const double* a) { return magnitude(mk<V<N>,N>(a)); } \
             REF(double, mag##N, const double* a) { return std::sqrt(dot(a, a, N)); }
DIMS(O)
#undef O
//@ anchor geometrix/arithmetic/vector/normalize.hpp normalize
#define O(N) LIB(void, norm##N, double* o, const double* a) { V<N> r = normalize(mk<V<N>,N>(a)); put<N>(o, r); } \
             REF(void, norm##N, double* o, const double* a) { double m = std::sqrt(dot(a, a, N)); for (int i = 0; i < N; ++i) o[i] = a[i] / m; } \
             PRE(norm##N, double*, const double* a) { return nz(a, N); }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/functions/normalize.hpp norm expression
#define O(N) LIB(void, normx##N, double* o, const double* a) { V<N> r; r <<= norm(mk<V<N>,N>(a)); put<N>(o, r); } \
             REF(void, normx##N, double* o, const double* a) { double m = std::sqrt(dot(a, a, N)); for (int i = 0; i < N; ++i) o[i] = a[i] / m; } \
             PRE(normx##N, double*, const double* a) { return nz(a, N); }
DIMS(O)
#undef O
//@ anchor geometrix/arithmetic/vector/normalize_at_index.hpp normal_at_index
#define O(N) LIB(double, normat##N, const double* a) { return normal_at_index<1>(mk<V<N>,N>(a)); } \
             REF(double, normat##N, const double* a) { return a[1] / std::sqrt(dot(a, a, N)); } \
             PRE(normat##N, const double* a) { return nz(a, N); }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/dot_product.hpp scalar_projection
#define O(N) LIB(double, sproj##N, const double* a, const double* b) { return scalar_projection(mk<V<N>,N>(a), mk<V<N>,N>(b)); } \
             REF(double, sproj##N, const double* a, const double* b) { return dot(a, b, N); }
O(2) O(3)
#undef O
//@ anchor geometrix/algebra/vector_projection.hpp vector_projection
#define O(N) LIB(void, vproj##N, double* o, const double* a, const double* b) { V<N> r = vector_projection(mk<V<N>,N>(a), mk<V<N>,N>(b)); put<N>(o, r); } \
             REF(void, vproj##N, double* o, const double* a, const double* b) { double k = dot(a, b, N) / dot(b, b, N); for (int i = 0; i < N; ++i) o[i] = k * b[i]; } \
             PRE(vproj##N, double*, const double*, const double* b) { return nz(b, N); }
O(2) O(3)
#undef O
//@ anchor geometrix/arithmetic/vector/lerp.hpp lerp
#define O(N) LIB(void, lerp##N, double* o, const double* a, const double* b, double t) { V<N> r = lerp(mk<V<N>,N>(a), mk<V<N>,N>(b), t); put<N>(o, r); } \
             REF(void, lerp##N, double* o, const double* a, const double* b, double t) { double c[N]; for (int i = 0; i < N; ++i) c[i] = (1 - t) * a[i] + t * b[i]; double m = std::sqrt(dot(c, c, N)); for (int i = 0; i < N; ++i) o[i] = c[i] / m; } \
             PRE(lerp##N, double*, const double* a, const double* b, double t) { double c[N]; for (int i = 0; i < N; ++i) c[i] = (1 - t) * a[i] + t * b[i]; return nz(c, N); }
O(2) O(3)
#undef O
//@ anchor geometrix/algebra/functions/cross_product.hpp operator ^
LIB(void, cross, double* o, const double* a, const double* b) { V<3> r; r <<= mk<V<3>,3>(a) ^ mk<V<3>,3>(b); put<3>(o, r); }
REF(void, cross, double* o, const double* a, const double* b) { o[0] = a[1]*b[2] - a[2]*b[1]; o[1] = a[2]*b[0] - a[0]*b[2]; o[2] = a[0]*b[1] - a[1]*b[0]; }
LIB(void, crossself, double* o, const double* a, const double* b) { V<3> r = mk<V<3>,3>(a); r <<= r ^ mk<V<3>,3>(b); put<3>(o, r); }
REF(void, crossself, double* o, const double* a, const double* b) { o[0] = a[1]*b[2] - a[2]*b[1]; o[1] = a[2]*b[0] - a[0]*b[2]; o[2] = a[0]*b[1] - a[1]*b[0]; }
//@ anchor geometrix/algebra/exterior_product.hpp exterior_product_area
LIB(double, ext2, const double* a, const double* b) { return exterior_product_area(mk<V<2>,2>(a), mk<V<2>,2>(b)); }
REF(double, ext2, const double* a, const double* b) { return a[0]*b[1] - a[1]*b[0]; }
LIB(double, ext3, const double* a, const double* b) { return exterior_product_area(mk<V<3>,3>(a), mk<V<3>,3>(b)); }
REF(double, ext3, const double* a, const double* b) { double x = a[1]*b[2] - a[2]*b[1], y = a[2]*b[0] - a[0]*b[2], z = a[0]*b[1] - a[1]*b[0]; return std::sqrt(x*x + y*y + z*z); }
//@ anchor geometrix/algebra/exterior_product.hpp exterior_product_volume
LIB(double, extvol, const double* a, const double* b, const double* c) { return exterior_product_volume(mk<V<3>,3>(a), mk<V<3>,3>(b), mk<V<3>,3>(c)); }
REF(double, extvol, const double* a, const double* b, const double* c) { return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]); }
//@ anchor geometrix/arithmetic/vector/perp.hpp perp / left_normal / right_normal
LIB(void, perp, double* o, const double* a) { V<2> r = perp(mk<V<2>,2>(a)); put<2>(o, r); r = left_normal(mk<V<2>,2>(a)); put<2>(o+2, r); r = right_normal(mk<V<2>,2>(a)); put<2>(o+4, r);
    r = oriented_normal<oriented_left>(mk<V<2>,2>(a)); put<2>(o+6, r); r = oriented_normal<oriented_right>(mk<V<2>,2>(a)); put<2>(o+8, r); }
REF(void, perp, double* o, const double* a) { o[0] = -a[1]; o[1] = a[0]; o[2] = -a[1]; o[3] = a[0]; o[4] = a[1]; o[5] = -a[0]; o[6] = -a[1]; o[7] = a[0]; o[8] = a[1]; o[9] = -a[0]; }
//@ anchor geometrix/algorithm/distance/point_point_distance.hpp point_point_distance
#define O(N) LIB(double, ppd##N, const double* a, const double* b) { return point_point_distance(mk<Pt<N>,N>(a), mk<Pt<N>,N>(b)); } \
             REF(double, ppd##N, const double* a, const double* b) { double s = 0; for (int i = 0; i < N; ++i) s += (a[i]-b[i])*(a[i]-b[i]); return std::sqrt(s); }
DIMS(O)
#undef O
//@ anchor geometrix/algorithm/distance/point_point_distance.hpp point_point_distance_sqrd
#define O(N) LIB(double, ppd2##N, const double* a, const double* b) { return point_point_distance_sqrd(mk<Pt<N>,N>(a), mk<Pt<N>,N>(b)); } \
             REF(double, ppd2##N, const double* a, const double* b) { double s = 0; for (int i = 0; i < N; ++i) s += (a[i]-b[i])*(a[i]-b[i]); return s; }
DIMS(O)
#undef O
//@ anchor geometrix/algebra/exterior_product.hpp exterior_product_area
LIB(double, ext3anti, const double* a, const double* b) { vector<double,3> x(a[0],a[1],a[2]), y(b[0],b[1],b[2]); return exterior_product_area(x, y) + exterior_product_area(y, x); }
REF(double, ext3anti, const double*, const double*) { return 0; }
LIB(double, ext3xy, const double* a, const double* b) { vector<double,3> x(a[0],a[1],0), y(b[0],b[1],0); return exterior_product_area(x, y); }
REF(double, ext3xy, const double* a, const double* b) { return a[0]*b[1] - a[1]*b[0]; }
