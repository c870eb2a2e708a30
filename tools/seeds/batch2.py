SEEDS = []
def S(**k): SEEDS.append(k)
H = "#include <geometrix/primitive/point.hpp>\n#include <geometrix/primitive/segment.hpp>\n#include <geometrix/primitive/polygon.hpp>\n#include <geometrix/primitive/polyline.hpp>\n#include <geometrix/primitive/point_sequence_traits.hpp>\n#include <geometrix/primitive/vector_point_sequence.hpp>\n#include <geometrix/numeric/number_comparison_policy.hpp>\n#include <geometrix/algorithm/euclidean_distance.hpp>\n#include <geometrix/tensor/vector.hpp>\n#include <geometrix/algebra/algebra.hpp>\n#include <cmath>\n"
T = "using namespace geometrix; typedef point<double,2> P; typedef vector<double,2> V; typedef segment<P> Sg; static absolute_tolerance_comparison_policy<double> cmp(1e-10);\n"
S(id="p26-direction", property="P26", edits=[("geometrix/algorithm/intersection/segment_sphere_intersection.hpp", "inline bool segment_sphere_intersection(const Point1& sa, Vector d, const LengthType& length", "inline bool segment_sphere_intersection(const Point1& sa, Vector&& d, const LengthType& length")],
  needs="a direction passed as a named variable and used again afterwards", breaks="segment_sphere_intersection normalises the caller's own direction vector",
  demo=H + "#include <geometrix/primitive/sphere.hpp>\n#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>\n" + T + r'''
int main() { V d(4, 0); double t = 0; P q; sphere<2,P> s(P(3,0), 1); bool r = segment_sphere_intersection(P(0,0), d, 4.0, s, t, q, cmp);
  if (!r || std::abs(t - 0.5) > 1e-12) return 1; return d[0] == 4 && d[1] == 0 ? 0 : 2; }
''')
S(id="p27-simple-cache", property="P27", edits=[("geometrix/algorithm/point_sequence/is_polygon_simple.hpp", "std::map<intersection_key, bool> cache;", "static std::map<intersection_key, bool> cache;")],
  needs="two polygons tested one after the other in the same process", breaks="intersections remembered for one polygon are reused for the next",
  demo=H + "#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>\n" + T + r'''
int main() { polygon<P> sq{P(0,0), P(2,0), P(2,2), P(0,2)}, bow{P(0,0), P(2,2), P(2,0), P(0,2)};
  bool a = is_polygon_simple_memoized(sq, cmp), b = is_polygon_simple_memoized(bow, cmp), c = is_polygon_simple_memoized(sq, cmp);
  return a && !b && c ? 0 : 1; }
''')
S(id="p27-static-tol", property="P27", edits=[("geometrix/algorithm/distance/segment_segment_closest_point.hpp", "area_t c = dot_product(d1, r);", "area_t c = dot_product(d1, r);\n            static const area_t flat = e * std::numeric_limits<double>::epsilon();"), ("geometrix/algorithm/distance/segment_segment_closest_point.hpp", "if (cmp.less_than_or_equal(e, zeroArea))\n            {\n                // Second segment degenerates into a point", "if (cmp.less_than_or_equal(e, zeroArea) || e <= flat)\n            {\n                // Second segment degenerates into a point")],
  nth=0, needs="a very long segment in the first call of the process, a short one in a later call", breaks="the degeneracy threshold is fixed by the first call's arguments, so later results depend on call history",
  demo=H + "#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>\n" + T + r'''
int main() { double s, t; P c1, c2; segment_segment_closest_point(P(0,0), P(1e12,0), P(0,1e8), P(1e12,1e8), s, t, c1, c2, cmp);
  double d = segment_segment_closest_point(P(0,0), P(1,0), P(1,5), P(1,1), s, t, c1, c2, cmp); return std::abs(d - 1) < 1e-12 ? 0 : 1; }
''')
S(id="p02-compare-dim", property="P02", edits=[("geometrix/tensor/numeric_sequence_compare.hpp", "return dimension_processor<NumericSequence, D-1>::compare( lhs, rhs, nCompare );", "return dimension_processor<NumericSequence, (D > 2 ? D-2 : D-1)>::compare( lhs, rhs, nCompare );")],
  needs="sequences of dimension four or more that differ in one middle coordinate only", breaks="numeric_sequence_equals skips a coordinate in dimensions above three",
  demo=H + "#include <geometrix/tensor/numeric_sequence_compare.hpp>\n" + T + r'''
int main() { typedef point<double,4> Q; for (int k = 0; k < 4; ++k) { double a[4] = {1,2,3,4}, b[4] = {1,2,3,4}; b[k] += 1; Q p(a[0],a[1],a[2],a[3]), q(b[0],b[1],b[2],b[3]); if (numeric_sequence_equals(p, q, cmp)) return 1; if (!numeric_sequence_equals(p, p, cmp)) return 2; } return 0; }
''')
S(id="p09-angle-low", property="P09", edits=[("geometrix/utility/point_angle_compare.hpp", "return m_cmp.greater_than(deta, 0);", "return m_cmp.greater_than(deta, detb) && m_cmp.greater_than(dot_product( da, m_reference ), dot_product( db, m_reference ) - 1e6);")],
  needs="points on opposite sides of the reference whose horizontal offsets differ by more than a million", breaks="both orders of the pair are reported false, so the comparator is not a strict weak order",
  demo="#include <geometrix/primitive/point.hpp>\n#include <geometrix/tensor/vector.hpp>\n" + H + "#include <geometrix/utility/point_angle_compare.hpp>\n" + T + r'''
int main() { point_angle_compare<absolute_tolerance_comparison_policy<double>> c(P(0,0), cmp); P a(-1e7, 1), b(1e7, -1); return c(a,b) && !c(b,a) ? 0 : 1; }
''')
S(id="p13-last-edge", property="P13", edits=[("geometrix/algorithm/distance/point_polygon_distance.hpp", "if( d < dist )\n                dist = d;", "if( d < dist )\n                dist = d;\n            else if( j + 1 == size )\n                break;\n            if( dist == area_t() && j > 1 )\n                j = size - 2;")],
  needs="never", breaks="placeholder", demo="int main(){}")
SEEDS.pop()
S(id="p13-skip-far", property="P13", edits=[("geometrix/algorithm/distance/point_polygon_distance.hpp", "if( d < dist )\n                dist = d;", "if( d < dist )\n                dist = d;\n            else if( d > 16. * dist && j + 2 < size )\n                ++i, ++j;")],
  needs="an edge more than four times farther than the best so far directly before the nearest edge", breaks="the edge after a distant one is never looked at",
  demo=H + "#include <geometrix/algorithm/distance/point_polygon_distance.hpp>\n" + T + r'''
int main() { polygon<P> g{P(0,0), P(100,0), P(100,-5), P(0.5,-0.25)}; // spikes: edges alternate near and far
  polygon<P> z{P(10,1), P(10,9), P(60,60), P(-60,60), P(-2,0.5)}; for (int k = 0; k < 5; ++k) { std::rotate(z.begin(), z.begin()+1, z.end()); P q(0,0); double m = 1e300; for (int i = 4, j = 0; j < 5; i = j++) m = std::min(m, point_segment_distance_sqrd(q, Sg(z[i], z[j]))); if (std::abs(m - point_polygon_distance_sqrd(q, z)) > 1e-9) return 1; }
  for (int n = 0; n < 2000; ++n) { unsigned s = n * 2654435761u; auto r = [&]() { s = s * 1103515245u + 12345u; return double((s >> 12) % 2001) / 10 - 100; }; polygon<P> h; for (int k = 0; k < 7; ++k) { double a = r(), b = r(); h.push_back(P(a, b)); } P q(r(), r()); double m = 1e300; for (int i = 6, j = 0; j < 7; i = j++) m = std::min(m, point_segment_distance_sqrd(q, Sg(h[i], h[j]))); if (std::abs(m - point_polygon_distance_sqrd(q, h)) > 1e-9) return 2; }
  return 0; }
''')
S(id="p17-index-round", property="P17", edits=[("geometrix/algorithm/grid_traits.hpp", "return static_cast<boost::uint32_t>((y - m_ymin) * m_cellWidthDivisor);", "return static_cast<boost::uint32_t>(static_cast<float>((y - m_ymin) * m_cellWidthDivisor));")],
  needs="a coordinate just below a cell boundary that rounds up to it in single precision", breaks="a point strictly inside one row is assigned to the next row",
  demo=H + "#include <geometrix/algorithm/grid_traits.hpp>\n" + T + r'''
int main() { grid_traits<double> g(0, 1000, 0, 1000, 1); for (int k = 1; k < 999; ++k) { double y = k - 1e-6; if (g.get_y_index(y) != (unsigned)(k - 1)) return 1; } return 0; }
''')
S(id="p22-clip-exact", property="P22", edits=[("geometrix/algorithm/point_sequence/clip_polyline_ends.hpp", "auto it = std::lower_bound(lengths.begin(), lengths.end(), l);", "auto it = std::upper_bound(lengths.begin(), lengths.end(), l);")], 
  needs="a clip length equal to the arc length at a vertex", breaks="placeholder", demo="int main(){}")
SEEDS.pop()
S(id="p23-rot-origin", property="P23", edits=[("geometrix/algorithm/rotation.hpp", "return construct<Point>(((rot * (p - rotationOrigin)) + as_vector(rotationOrigin)) + translation);", "return construct<Point>((rot * ((p - rotationOrigin) + translation)) + as_vector(rotationOrigin));")],
  needs="a rotation other than the identity with a non-zero translation", breaks="the translation is rotated as well",
  demo=H + "#include <geometrix/algorithm/rotation.hpp>\n" + T + r'''
int main() { polygon<P> g{P(0,0), P(1,0), P(1,1)}; V x(1,0), y(0,1); auto r = make_rotation_matrix(x, y); auto h = rotate_translate_points(g, r, V(5,3), P(1,0)); auto k = rotate_translate_points(g, x, y, V(5,3), P(1,0));
  double e[3][2] = {{6,2},{6,3},{5,3}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) if (std::abs(h[i][j]-e[i][j]) > 1e-12 || std::abs(k[i][j]-e[i][j]) > 1e-12) return 1; return 0; }
''')
S(id="p18-bres-tie", property="P18", edits=[("geometrix/algorithm/bresenham_grid_traversal.hpp", "if (dx < dy) // line more vertical than horizontal", "if (dx <= dy - 3) // line more vertical than horizontal")],
  needs="a steep line whose height exceeds its width by one or two cells", breaks="the walk along the shorter axis skips the last rows, so the end cell is not reached",
  demo=H + "#include <geometrix/algorithm/grid_traits.hpp>\n#include <geometrix/algorithm/bresenham_grid_traversal.hpp>\n#include <vector>\n" + T + r'''
int main() { grid_traits<double> G(0,20,0,20,1); for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) { std::vector<std::pair<int,int>> v; auto f = [&](int a, int b) { v.push_back({a,b}); if (v.size() > 100) throw 1; }; try { bresenham_segment_traversal(G, Sg(P(10.5,10.5), P(x+10.5,y+10.5)), f); } catch (int) { return 2; } if (v.empty() || v.back() != std::make_pair(x+10,y+10)) return 1; } return 0; }
''')
S(id="p35-memo-key", property="P35", edits=[("geometrix/utility/memoize.hpp", "if( it != cache.end() && !cache.key_comp()(key, it->first) )", "if( it != cache.end() && !(key < it->first) )")],
  needs="a cache whose ordering is not the default one", breaks="placeholder", demo="int main(){}")
SEEDS.pop()
S(id="p33-hash-swap", property="P33", edits=[("geometrix/algorithm/hash_grid_2d.hpp", "auto iter = m_grid.find( key_type( i, j ) );", "auto iter = m_grid.find( key_type( j, i ) );")], nth=1,
  needs="a cell off the diagonal looked up through the non-const overload", breaks="the mutable lookup reads the transposed cell",
  demo=H + "#include <geometrix/algorithm/grid_traits.hpp>\n#include <geometrix/algorithm/hash_grid_2d.hpp>\n" + T + r'''
int main() { typedef grid_traits<double> G; hash_grid_2d<int, G> h(G(0,10,0,10,1)); h.get_cell(3,3) = 2; h.get_cell(2,5) = 7; h.get_cell(5,2) = 9; if (!h.find_cell(2u,5u) || *h.find_cell(2u,5u) != 7) return 1; const auto& c = h; if (!c.find_cell(2u,5u) || *c.find_cell(2u,5u) != 7) return 2; if (h.find_cell(1u,5u)) return 3; return 0; }
''')
S(id="p36-congruent-sign", property="P36", edits=[("geometrix/algorithm/point_sequence/is_congruent.hpp", "!cmp.equals(exterior_product_area(v1ih, v1ij), exterior_product_area(v2ih, v2ij))", "!cmp.equals(abs(exterior_product_area(v1ih, v1ij)), abs(exterior_product_area(v2ih, v2ij)))")], nth=0,
  needs="two polylines that are mirror images of one another", breaks="mirrored polylines are reported congruent",
  demo=H + "#include <geometrix/algorithm/point_sequence/is_congruent.hpp>\n" + T + r'''
int main() { polyline<P> a{P(0,0), P(1,0), P(2,1)}, b{P(0,0), P(1,0), P(2,-1)}, c{P(5,5), P(5,6), P(4,7)}; if (are_polylines_congruent(a, b, cmp)) return 1; return are_polylines_congruent(a, c, cmp) ? 0 : 2; }
''')
S(id="p32-fixed-less", property="P32", edits=[("geometrix/numeric/fixed_point.hpp", "return m_value < convert_to_format( rhs, typename geometrix::is_static<scale_policy>::type() );", "return m_value < static_cast<format_type>( rhs ) * convert_to_format( 1, typename geometrix::is_static<scale_policy>::type() );")], nth=0,
  needs="comparison of a fixed-point value with a number that has a fractional part", breaks="the number's fraction is dropped before the comparison",
  demo=r'''
#include <geometrix/numeric/fixed_point.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
using namespace geometrix;
int main() { typedef fixed_point<fixed_point_traits<long long, double, double, decimal_scale_policy<2>>> F; return 0; }
''')
SEEDS.pop()
