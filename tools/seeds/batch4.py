SEEDS = []
def S(**k): SEEDS.append(k)
H = "#include <geometrix/primitive/point.hpp>\n#include <geometrix/primitive/segment.hpp>\n#include <geometrix/primitive/polygon.hpp>\n#include <geometrix/primitive/polyline.hpp>\n#include <geometrix/primitive/point_sequence_traits.hpp>\n#include <geometrix/primitive/vector_point_sequence.hpp>\n#include <geometrix/numeric/number_comparison_policy.hpp>\n#include <geometrix/algorithm/euclidean_distance.hpp>\n#include <geometrix/tensor/vector.hpp>\n#include <geometrix/algebra/algebra.hpp>\n#include <cmath>\n"
T = "using namespace geometrix; typedef point<double,2> P; typedef vector<double,2> V; typedef segment<P> Sg; static absolute_tolerance_comparison_policy<double> cmp(1e-10);\n"
S(id="p01-fraction-zero", property="P01", edits=[("geometrix/numeric/number_comparison_policy.hpp", "return u > v && !equals_zero( u, m_absoluteToleranceFactor );", "return u > v && !equals_zero( u, m_fractionTolerance );")],
  needs="a fraction policy whose absolute tolerance differs from its fraction tolerance, and a comparison with zero on the right", breaks="a number between the two tolerances is neither less than, equal to nor greater than zero",
  demo=H + r'''
using namespace geometrix;
int main() { fraction_tolerance_comparison_policy<double> c(1e-3, 1e-9); for (double u : {-1., -1e-5, -1e-10, 0., 1e-10, 1e-5, 1.}) for (double v : {-1., -1e-5, -1e-10, 0., 1e-10, 1e-5, 1.}) { if (c.less_than(u,v) + c.equals(u,v) + c.greater_than(u,v) != 1) return 1; if (c.greater_than(u,v) == c.less_than_or_equal(u,v)) return 2; } return 0; }
''')
S(id="p03-slerp-weight", property="P03", edits=[("geometrix/arithmetic/vector/slerp.hpp", "return normalize(u + t * (v - u));", "return u + t * (v - u);"), ("geometrix/arithmetic/vector/slerp.hpp", "if (d < constants::one<decltype(d)>())", "if (d * d < constants::one<decltype(d)>() * 0.25 || d < constants::zero<decltype(d)>())")],
  needs="two directions less than sixty degrees apart", breaks="the interpolated direction no longer has unit length and moves at an uneven speed",
  demo=H + r'''#include <geometrix/arithmetic/vector/slerp.hpp>
using namespace geometrix; typedef vector<double,2> V;
int main() { for (double a : {0.3, 0.9, 1.2, 2.5}) for (double t : {0., .25, .5, 1.}) { V r = slerp(V(1,0), V(std::cos(a), std::sin(a)), t); if (std::abs(r[0] - std::cos(t*a)) > 1e-9 || std::abs(r[1] - std::sin(t*a)) > 1e-9) return 1; } return 0; }
''')
S(id="p05-tag-mix", property="P05", edits=[("geometrix/utility/tagged_quantity.hpp", "template<typename YY>\n    this_type& operator-=(const tagged_quantity<Tag, YY>& source)", "template<typename Tag2, typename YY>\n    this_type& operator-=(const tagged_quantity<Tag2, YY>& source)")],
  needs="code that subtracts a quantity with another tag in place", breaks="mixing differently tagged quantities compiles",
  demo=H + r'''#include <geometrix/utility/tagged_quantity.hpp>
#include <type_traits>
using namespace geometrix; struct A; struct B;
template <typename X, typename Y> auto canadd(int) -> decltype(std::declval<X&>() += std::declval<Y>(), std::true_type()); template <typename, typename> std::false_type canadd(...);
template <typename X, typename Y> auto cansub(int) -> decltype(std::declval<X&>() -= std::declval<Y>(), std::true_type()); template <typename, typename> std::false_type cansub(...);
typedef tagged_quantity<A,double> QA; typedef tagged_quantity<B,double> QB;
int main() { return decltype(canadd<QA,QA>(0))::value && decltype(cansub<QA,QA>(0))::value && !decltype(canadd<QA,QB>(0))::value && !decltype(cansub<QA,QB>(0))::value ? 0 : 1; }
''')
S(id="p07-coincident", property="P07", edits=[("geometrix/algorithm/orientation.hpp", "return get_orientation(B-A, C-A, cmp);", "return numeric_sequence_equals(A, C, cmp) ? oriented_collinear : get_orientation(B-A, C-A, cmp);")],
  needs="a long baseline and a third point within tolerance of its first point, so that the turn is above the tolerance although the points nearly coincide", breaks="the answer is collinear there, while the same three points listed from another corner give a turn",
  demo=H + r'''#include <geometrix/algorithm/orientation.hpp>
''' + T + r'''
int main() { absolute_tolerance_comparison_policy<double> c(1e-3); P a(0,0), b(1000,0), d(0, 5e-4); return get_orientation(a, b, d, c) == oriented_left && get_orientation(b, d, a, c) == oriented_left && get_orientation(d, a, b, c) == oriented_left ? 0 : 1; }
''')
S(id="p08-opposite", property="P08", edits=[("geometrix/utility/utilities.hpp", "if (cmp.greater_than_or_equal(detac * detab, constants::zero<decltype(detac*detab)>()))", "if (cmp.greater_than(detac * detab, constants::zero<decltype(detac*detab)>()))")],
  needs="a direction exactly opposite to the first bound of a range wider than half a turn", breaks="the direction is reported outside the range",
  demo=H + r'''#include <geometrix/utility/utilities.hpp>
''' + T + r'''
int main() { if (!is_vector_between(V(1,0), V(0,-1), V(-1,0), false, cmp)) return 1; if (!is_vector_between(V(1,0), V(0,-1), V(-1,0.1), false, cmp)) return 2; if (is_vector_between(V(1,0), V(0,1), V(-1,0), false, cmp)) return 3; return is_vector_between(V(1,0), V(0,-1), V(-1,-0.1), false, cmp) ? 0 : 4; }
''')
S(id="p21-hole-edge", property="P21", edits=[("geometrix/algorithm/polygon_with_holes_as_segment_range.hpp", "size = access::size(hole);", "size = (std::min)(size, access::size(hole));")],
  needs="a hole with more vertices than the outer boundary", breaks="the last edges of the hole are missing and an edge that is not part of it appears",
  demo=H + r'''#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
''' + T + r'''
int main() { polygon<P> o{P(0,0), P(10,0), P(0,10)}, h{P(1,1), P(1,2), P(2,2), P(2,1)}; polygon_with_holes<P> p(o); p.add_hole(h); auto r = polygon_with_holes_as_segment_range<Sg>(p); if (r.size() != 7) return 1; for (std::size_t i = 0; i < 4; ++i) { if (get<0>(r[3+i].get_start()) != get<0>(h[i]) || get<1>(r[3+i].get_start()) != get<1>(h[i]) || get<0>(r[3+i].get_end()) != get<0>(h[(i+1)%4]) || get<1>(r[3+i].get_end()) != get<1>(h[(i+1)%4])) return 2; } return 0; }
''')
S(id="p24-half-turn", property="P24", edits=[("geometrix/utility/utilities.hpp", "auto n = floor(angle / twoPI);\n            if (n != constants::zero<decltype(n)>())\n                angle -= twoPI * n;", "auto n = floor(angle / twoPI + 0.25);\n            if (n != constants::zero<decltype(n)>())\n                angle -= twoPI * n;\n            if (n < constants::zero<decltype(n)>() && angle < constants::zero<CoordinateType>())\n                angle = -angle;")],
  needs="an angle below minus one turn in the last quarter turn of its circle", breaks="the normalised angle is mirrored instead of shifted by whole turns",
  demo=H + r'''#include <geometrix/utility/utilities.hpp>
using namespace geometrix;
int main() { for (double a = -40; a < 40; a += 0.1) { double r = normalize_angle_0_2pi_copy(a); if (r < 0 || r > 2*3.1415926535897931 + 1e-9 || std::abs(std::sin(a) - std::sin(r)) > 1e-9 || std::abs(std::cos(a) - std::cos(r)) > 1e-9) return 1; } return 0; }
''')
S(id="p25-safe-division", property="P25", edits=[("geometrix/utility/floating_point_comparison.hpp", "( rhs > one2 &&\n          lhs * one1 < rhs * (std::numeric_limits<NumericType2>::min)() ) )", "( rhs > one2 &&\n          lhs * one1 < rhs * (std::numeric_limits<NumericType2>::epsilon)() ) )")],
  needs="a quotient below machine epsilon but far above the smallest number", breaks="the quotient is flushed to zero",
  demo=H + r'''#include <geometrix/utility/floating_point_comparison.hpp>
int main() { double r = geometrix::safe_division(1e-8, 1e12); return std::abs(r - 1e-20) < 1e-26 && geometrix::safe_division(0., 5.) == 0 ? 0 : 1; }
''')
S(id="p30-reverse-middle", property="P30", edits=[("geometrix/primitive/array_point_sequence.hpp", "static const point_type&                     back(const container_type& pointSequence) { return pointSequence[N - 1]; }", "static const point_type&                     back(const container_type& pointSequence) { return pointSequence[N > 4 ? 4 - 1 : N - 1]; }")],
  needs="a constant array of five or more points", breaks="the last point read is the fourth one",
  demo=H + r'''#include <geometrix/primitive/array_point_sequence.hpp>
#include <array>
''' + T + r'''
int main() { const std::array<P,5> a{{P(0,0), P(1,0), P(2,0), P(3,0), P(4,0)}}; const std::array<P,3> b{{P(0,0), P(1,0), P(2,0)}}; return point_sequence_traits<std::array<P,5>>::back(a)[0] == 4 && point_sequence_traits<std::array<P,3>>::back(b)[0] == 2 ? 0 : 1; }
''')
S(id="p31-polar-below", property="P31", edits=[("geometrix/space/cartesian_polar_transformation.hpp", "boost::fusion::at_c<I>(state) = atan2( sqrt( sum ), get<I>( from ) );", "boost::fusion::at_c<I>(state) = atan( sqrt( sum ) / get<I>( from ) );")],
  needs="a point in space below the horizontal plane", breaks="the inclination read is negative, and reading back gives the opposite point",
  demo=r'''#include <boost/mpl/bool.hpp>
#include <geometrix/utility/array.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/reference_frame_adaptor.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/tensor/vector.hpp>
#include <cmath>
using namespace geometrix; typedef point<double,3> P;
int main() { for (double z : {2., -2., 0.5, -7.}) { P p(1, 2, z); reference_frame_adaptor<P, cartesian_reference_frame<3>> c(p); auto q = reference_frame_transformation<cartesian_reference_frame<3>, polar_reference_frame<3>>::transform<P>(c); double r = std::sqrt(5 + z*z); if (std::abs(q.get<0>() - r) > 1e-9 || std::abs(r * std::cos(q.get<2>()) - z) > 1e-9 || q.get<2>() < 0) return 1; } return 0; }
''')
S(id="p32-half-even", property="P32", edits=[("geometrix/numeric/fixed_point_traits.hpp", "bool even = two * floor(prev / two) == prev;", "bool even = std::fmod(prev, two) < static_cast<T>(1);")],
  needs="a negative number exactly halfway between two representable ones whose lower neighbour is odd", breaks="it is rounded to the odd neighbour",
  demo=r"""#include <boost/cstdint.hpp>
#include <limits>
#include <cmath>
#include <geometrix/numeric/fixed_point.hpp>
using namespace geometrix; typedef fixed_point<fixed_point_traits<int, binary_compile_time_scale_policy<8>, round_half_to_even>> F;
int main() { for (int k = -9; k <= 9; ++k) { double h = k + 0.5; int e = 2 * (int)std::floor((h + 0.5) / 2); int lo = k, hi = k + 1; int want = lo % 2 == 0 ? lo : hi; F f(h / 256); (void)e; if (f.get_scaled_value() != want) return 1; } return 0; }
""")
S(id="p41-circle-meet", property="P41", edits=[("geometrix/algorithm/point_sequence/polyline_mid_point.hpp", "return access::get_point(poly, next) + l * normalize(access::get_point(poly, index) - access::get_point(poly, next));", "if (cmp_zero(get<0>(access::get_point(poly, next)))) return access::get_point(poly, index);\n        return access::get_point(poly, next) + l * normalize(access::get_point(poly, index) - access::get_point(poly, next));")],
  needs="x", breaks="x", demo="int main(){}")
SEEDS.pop()
S(id="p41-mirror-frame", property="P41", edits=[("geometrix/algorithm/intersection/circle_circle_intersection.hpp", "if (cmp.equals(h, constants::zero<length_t>()))", "if (cmp.equals(h, constants::zero<length_t>()) || (cmp.equals(get<0>(v), constants::zero<length_t>()) && cmp.equals(get<1>(s1), constants::zero<length_t>())))")],
  needs="two circles one above the other that meet on the horizontal axis", breaks="one of the two common points is lost, and only there",
  demo=H + r'''#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
''' + T + r'''
int main() { typedef sphere<2,P> C; for (double y : {0., 1., -3., 7.}) { auto r = circle_circle_intersection(C(P(2,y-3), 5), C(P(2,y+3), 5), cmp); if (r.State != circle_intersection_state::two_intersections) return 1; if (std::abs((*r.IntersectionPoint0)[1] - y) > 1e-9 || std::abs((*r.IntersectionPoint1)[1] - y) > 1e-9) return 2; } return 0; }
''')
S(id="p44-int-quantity", property="P44", edits=[("geometrix/arithmetic/boost_units_arithmetic.hpp", "return quantity_type::from_value(a.value() + b);", "return quantity_type::from_value(a.value() + static_cast<Number>(b));")],
  needs="a dimensionless quantity carrying an integer and a fractional number", breaks="the fraction is lost",
  demo=H + r'''#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <boost/units/systems/si.hpp>
using namespace geometrix;
int main() { typedef boost::units::quantity<boost::units::si::dimensionless, int> Q; typedef boost::units::quantity<boost::units::si::dimensionless, double> D; Q q = Q::from_value(2); D d = D::from_value(2.5); return (q + 0.5).value() == 2.5 && (0.5 + q).value() == 2.5 && (d + 0.25).value() == 2.75 && (d - 0.25).value() == 2.25 ? 0 : 1; }
''')
