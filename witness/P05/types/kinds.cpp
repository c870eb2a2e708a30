#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <geometrix/utility/tagged_quantity.hpp>
#include <boost/units/systems/si.hpp>
namespace si = boost::units::si;
typedef boost::units::quantity<si::length,double> LEN; typedef boost::units::quantity<si::area,double> AREA; typedef boost::units::quantity<si::time,double> TIME; typedef boost::units::quantity<si::velocity,double> SPEED;
typedef point<LEN,2> PL2; typedef vector<LEN,2> VL2; typedef vector<AREA,2> VA2; typedef vector<double,2> VD2; typedef vector<SPEED,2> VS2; typedef point<LEN,3> PL3; typedef vector<LEN,3> VL3;
typedef matrix<double,2,2> M22; typedef matrix<double,3,3> M33;
struct tagA; struct tagB; typedef tagged_quantity<tagA,double> QA; typedef tagged_quantity<tagB,double> QB;
#define ENV P2 p(1,2), q(3,4); P3 p3(1,2,3), q3(p3); V2 v(1,2), w(3,4); V3 v3(1,2,3), w3(3,2,1); PL2 a(1*si::meters,2*si::meters), b(a); VL2 l(1*si::meters,2*si::meters); VA2 va; VS2 vs; LEN len = 1*si::meters; AREA area; TIME t = 1*si::seconds; SPEED sp; M22 m2; M33 m3; QA qa(1.0), qa2(2.0); QB qb(1.0); double d = 1; segment<PL2> sl(a, b); S2 s2(p, q);
template <typename T> using elem = typename arithmetic_type_of<T>::type;
#define KIND(e, pt, ve) static_assert(is_point<decltype(e)>::value == pt && is_vector<decltype(e)>::value == ve, #e)
//@ accept kind_point_minus_point geometrix/algebra/binary_functions.hpp subtract
KIND(p - q, false, true); V2 r = p - q;
//@ accept kind_point_plus_vector geometrix/algebra/binary_functions.hpp add
KIND(p + v, true, false); P2 r = p + v;
//@ accept kind_point_minus_vector geometrix/algebra/binary_functions.hpp subtract
KIND(p - v, true, false); P2 r = p - v;
//@ accept kind_vector_sum geometrix/algebra/binary_functions.hpp add
KIND(v + w, false, true); KIND(v - w, false, true); KIND(-v, false, true);
//@ accept kind_scaled geometrix/algebra/binary_functions.hpp multiply
KIND(2.0 * v, false, true); KIND(v * 2.0, false, true); KIND(v / 2.0, false, true);
//@ accept kind_products geometrix/algebra/binary_functions.hpp multiply
static_assert(is_scalar<decltype(v * w)>::value, ""); KIND(v3 ^ w3, false, true); KIND(m2 * v, false, true); static_assert(is_matrix<decltype(m2 * m2)>::value, "");
//@ accept dims geometrix/algebra/grammar.hpp dimension
static_assert(dimension_of<decltype(p + v)>::value == 2 && dimension_of<decltype(v3 ^ w3)>::value == 3 && dimension_of<decltype(p3 - q3)>::value == 3, "");
//@ accept nested geometrix/algebra/grammar.hpp vector_expression
P2 r = p + 2.0 * (q - p) - v / 2.0; V2 z = (p - q) + (v - w) * 3.0; KIND(p + 2.0 * (q - p), true, false);
//@ accept unit_difference geometrix/arithmetic/boost_units_arithmetic.hpp quantity
static_assert(std::is_same<elem<decltype(a - b)>, LEN>::value, ""); VL2 r = a - b; PL2 z = a + l;
//@ accept unit_products geometrix/arithmetic/boost_units_arithmetic.hpp quantity
static_assert(std::is_same<decltype(dot_product(l, l)), AREA>::value && std::is_same<decltype(magnitude(l)), LEN>::value, ""); VA2 r = l * len; V2 z = l / len; VL2 y = vs * t; V2 x = normalize(l);
//@ accept unit_measures geometrix/arithmetic/boost_units_arithmetic.hpp quantity
static_assert(std::is_same<std::decay_t<decltype(point_point_distance(a, b))>, LEN>::value && std::is_same<std::decay_t<decltype(point_point_distance_sqrd(a, b))>, AREA>::value, ""); LEN r = point_segment_distance(a, sl); std::array<PL2,3> s; AREA z = get_area(s); AREA y = exterior_product_area(l, l);
//@ accept unit_motion geometrix/arithmetic/boost_units_arithmetic.hpp quantity
PL2 r = a + vs * t; LEN z = scalar_projection(l, v); LEN y = dot_product(v, l);
//@ accept tag_same geometrix/utility/tagged_quantity.hpp operator
QA r = qa + qa2; QA z = qa * qa2; QA y = 2.0 * qa; r += qa; r -= qa; bool c = qa < qa2; bool e = qa == qa2; double u = qa.value();
//@ accept constructible geometrix/algebra/grammar.hpp point
static_assert(std::is_constructible<PL2, LEN, LEN>::value && std::is_constructible<VL2, LEN, LEN>::value && std::is_constructible<P3, double, double, double>::value, "");
static_assert(!std::is_constructible<PL2, double, double>::value && !std::is_constructible<PL2, LEN, AREA>::value && !std::is_constructible<P2, LEN, LEN>::value && !std::is_constructible<PL2, LEN, LEN, LEN>::value && !std::is_constructible<QA, QB>::value, "");
//@ reject point_plus_point geometrix/algebra/grammar.hpp binary
P2 r = p + q;
//@ but
P2 r = p + v;
//@ reject point_plus_point_as_vector geometrix/algebra/grammar.hpp binary
V2 r = p + q;
//@ but
V2 r = p - q;
//@ reject point_plus_point_assign geometrix/algebra/grammar.hpp binary
P2 r = p; assign(r, p + q);
//@ but
P2 r = p; assign(r, p + v);
//@ reject nested_point_sum geometrix/algebra/grammar.hpp binary
P2 r = p + (v + q);
//@ but
P2 r = p + (v + w);
//@ reject point_plus_displaced_point geometrix/algebra/grammar.hpp binary
P2 r = p + (q + v);
//@ but
P2 r = p + (q - p);
//@ reject vector_minus_point geometrix/algebra/grammar.hpp binary
V2 r = v - p;
//@ but
V2 r = p - v;
//@ reject vector_plus_point geometrix/algebra/grammar.hpp binary
P2 r = v + p;
//@ but
P2 r = p + v;
//@ reject vector_plus_scalar geometrix/algebra/grammar.hpp binary
V2 r = v + 2.0;
//@ but
V2 r = v * 2.0;
//@ reject scalar_plus_vector geometrix/algebra/grammar.hpp binary
V2 r = 2.0 + v;
//@ but
V2 r = 2.0 * v;
//@ reject point_plus_scalar geometrix/algebra/grammar.hpp binary
P2 r = p + 2.0;
//@ but
P2 r = p + v;
//@ reject point_times_scalar geometrix/algebra/grammar.hpp binary
P2 r = p * 2.0;
//@ but
V2 r = v * 2.0;
//@ reject scalar_times_point geometrix/algebra/grammar.hpp binary
P2 r = 2.0 * p;
//@ but
V2 r = 2.0 * v;
//@ reject scalar_over_vector geometrix/algebra/grammar.hpp binary
V2 r = 2.0 / v;
//@ but
V2 r = v / 2.0;
//@ reject vector_over_vector geometrix/algebra/grammar.hpp binary
V2 r = v / w;
//@ but
V2 r = v / 2.0;
//@ reject vector_from_scalar_product geometrix/algebra/grammar.hpp binary
V2 r = v * w;
//@ but
V2 r = v * 2.0;
//@ reject cross_in_the_plane geometrix/algebra/expression_generator.hpp operator
V2 r = v ^ w;
//@ but
V3 r = v3 ^ w3;
//@ reject cross_mixed geometrix/algebra/expression_generator.hpp operator
V3 r = v ^ w3;
//@ but
V3 r = v3 ^ w3;
//@ reject magnitude_of_point geometrix/arithmetic/vector.hpp magnitude
double r = magnitude(p);
//@ but
double r = magnitude(v);
//@ reject distance_point_vector geometrix/algorithm/distance/point_point_distance.hpp point_point_distance
double r = point_point_distance(p, v);
//@ but
double r = point_point_distance(p, q);
//@ reject compare_points geometrix/algebra/grammar.hpp binary
bool r = p == q;
//@ but
bool r = numeric_sequence_equals(p, q, EXACT());
//@ reject missing_coordinate geometrix/algebra/expression_generator.hpp get
auto r = get<2>(v + v3);
//@ but
auto r = get<1>(v + w);
//@ reject missing_coordinate_point geometrix/algebra/expression_generator.hpp get
V3 r = p3 - p;
//@ but
V3 r = p3 - q3;
//@ reject widened_sum geometrix/algebra/expression_generator.hpp get
V3 r = v3 + v;
//@ but
V3 r = v3 + w3;
//@ reject dot_mixed geometrix/algebra/dot_product.hpp dot_product
double r = dot_product(v, w3);
//@ but
double r = dot_product(v, w);
//@ reject exterior_mixed geometrix/algebra/exterior_product.hpp exterior_product_area
double r = exterior_product_area(v, w3);
//@ but
double r = exterior_product_area(v, w);
//@ reject normal_in_space geometrix/arithmetic/vector/perp.hpp left_normal
V2 r = left_normal(v3);
//@ but
V2 r = left_normal(v);
//@ reject matrix_vector_small geometrix/algebra/binary_functions.hpp multiply
V2 r = m3 * v;
//@ but
V2 r = m2 * v;
//@ reject matrix_vector_large geometrix/algebra/binary_functions.hpp multiply
V2 r = m2 * v3;
//@ but
V3 r = m3 * v3;
//@ reject segment_point_mixed geometrix/algorithm/distance/point_segment_distance.hpp point_segment_distance
double r = point_segment_distance(p3, s2);
//@ but
double r = point_segment_distance(p, s2);
//@ reject too_many_coordinates geometrix/primitive/point.hpp point
P2 r(1, 2, 3);
//@ but
P3 r(1, 2, 3);
//@ reject unit_point_plus_area geometrix/arithmetic/boost_units_arithmetic.hpp quantity
PL2 r = a + va;
//@ but
PL2 r = a + l;
//@ reject unit_vector_sum geometrix/arithmetic/boost_units_arithmetic.hpp quantity
VL2 r = l + va;
//@ but
VL2 r = l + l;
//@ reject unit_point_plus_pure geometrix/arithmetic/boost_units_arithmetic.hpp quantity
PL2 r = a + v;
//@ but
PL2 r = a + l;
//@ reject unit_point_plus_speed geometrix/arithmetic/boost_units_arithmetic.hpp quantity
PL2 r = a + vs;
//@ but
PL2 r = a + vs * t;
//@ reject unit_product_is_area geometrix/arithmetic/boost_units_arithmetic.hpp quantity
VL2 r = l * len;
//@ but
VA2 r = l * len;
//@ reject unit_quotient_is_pure geometrix/arithmetic/boost_units_arithmetic.hpp quantity
VL2 r = l / len;
//@ but
V2 r = l / len;
//@ reject unit_distance_not_number geometrix/arithmetic/boost_units_arithmetic.hpp quantity
double r = point_point_distance(a, b);
//@ but
LEN r = point_point_distance(a, b);
//@ reject unit_distance_not_area geometrix/arithmetic/boost_units_arithmetic.hpp quantity
AREA r = point_point_distance(a, b);
//@ but
AREA r = point_point_distance_sqrd(a, b);
//@ reject unit_dot_not_length geometrix/arithmetic/boost_units_arithmetic.hpp quantity
LEN r = dot_product(l, l);
//@ but
AREA r = dot_product(l, l);
//@ reject unit_magnitude_not_area geometrix/arithmetic/boost_units_arithmetic.hpp quantity
AREA r = magnitude(l);
//@ but
LEN r = magnitude(l);
//@ reject unit_normalized_is_pure geometrix/arithmetic/boost_units_arithmetic.hpp quantity
VL2 r = normalize(l);
//@ but
V2 r = normalize(l);
//@ reject unit_pure_from_length geometrix/arithmetic/boost_units_arithmetic.hpp quantity
P2 r = a;
//@ but
PL2 r = a;
//@ reject unit_length_from_pure geometrix/arithmetic/boost_units_arithmetic.hpp quantity
PL2 r = p;
//@ but
P2 r = p;
//@ reject unit_mixed_query geometrix/arithmetic/boost_units_arithmetic.hpp quantity
auto r = point_point_distance_sqrd(a, p);
//@ but
auto r = point_point_distance_sqrd(a, b);
//@ reject unit_mixed_segment geometrix/arithmetic/boost_units_arithmetic.hpp quantity
LEN r = point_segment_distance(p, sl);
//@ but
LEN r = point_segment_distance(a, sl);
//@ reject unit_area_not_length geometrix/arithmetic/boost_units_arithmetic.hpp quantity
std::array<PL2,3> s; LEN r = get_area(s);
//@ but
std::array<PL2,3> s; AREA r = get_area(s);
//@ reject unit_projection_onto_length geometrix/algebra/dot_product.hpp scalar_projection
auto r = scalar_projection(l, l);
//@ but
auto r = scalar_projection(l, v);
//@ reject tag_sum geometrix/utility/tagged_quantity.hpp operator+
QA r = qa + qb;
//@ but
QA r = qa + qa2;
//@ reject tag_init geometrix/utility/tagged_quantity.hpp tagged_quantity
QA r(qb);
//@ but
QA r(qa);
//@ reject tag_implicit geometrix/utility/tagged_quantity.hpp tagged_quantity
QA r = 1.0;
//@ but
QA r(1.0);
//@ reject tag_escape geometrix/utility/tagged_quantity.hpp tagged_quantity
double r = qa;
//@ but
double r = qa.value();
//@ reject tag_less geometrix/utility/tagged_quantity.hpp operator<
bool r = qa < qb;
//@ but
bool r = qa < qa2;
//@ reject tag_equal geometrix/utility/tagged_quantity.hpp operator==
bool r = qa == qb;
//@ but
bool r = qa == qa2;
//@ reject tag_assign geometrix/utility/tagged_quantity.hpp operator=
qa = qb;
//@ but
qa = qa2;
//@ reject tag_add_assign geometrix/utility/tagged_quantity.hpp operator+=
qa += qb;
//@ but
qa += qa2;
//@ reject tag_sub_assign geometrix/utility/tagged_quantity.hpp operator-=
qa -= qb;
//@ but
qa -= qa2;
//@ reject tag_mul_assign geometrix/utility/tagged_quantity.hpp operator*=
qa *= qb;
//@ but
qa *= qa2;
//@ reject tag_div_assign geometrix/utility/tagged_quantity.hpp operator/=
qa /= qb;
//@ but
qa /= qa2;
