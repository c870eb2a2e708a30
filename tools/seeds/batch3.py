SEEDS = []
def S(**k): SEEDS.append(k)
H = "#include <geometrix/primitive/point.hpp>\n#include <geometrix/primitive/segment.hpp>\n#include <geometrix/primitive/polygon.hpp>\n#include <geometrix/primitive/polyline.hpp>\n#include <geometrix/primitive/point_sequence_traits.hpp>\n#include <geometrix/primitive/vector_point_sequence.hpp>\n#include <geometrix/numeric/number_comparison_policy.hpp>\n#include <geometrix/algorithm/euclidean_distance.hpp>\n#include <geometrix/tensor/vector.hpp>\n#include <geometrix/algebra/algebra.hpp>\n#include <cmath>\n"
T = "using namespace geometrix; typedef point<double,2> P; typedef vector<double,2> V; typedef segment<P> Sg; static absolute_tolerance_comparison_policy<double> cmp(1e-10);\n"
S(id="p06-absolute-parallel", property="P06", edits=[("geometrix/algorithm/distance/segment_segment_closest_point.hpp", "if (denom != construct<decltype(denom)>(0))", "if (denom > construct<decltype(denom)>(1e-10))")],
  needs="two short segments whose lengths' product is below the square root of the tolerance", breaks="short crossing segments are treated as parallel, so the distance does not scale with the figure",
  demo=H + "#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>\n" + T + r'''
int main() { for (double k : {1., 1e-2, 1e-3, 2e-4}) { double s, t; P a, b; auto d = segment_segment_closest_point(P(-3*k,0), P(4*k,0), P(1*k,-2*k), P(1*k,2*k), s, t, a, b, cmp); if (std::abs(d) > 1e-9*k*k || std::abs(a[0]-k) > 1e-9*k) return 1; } return 0; }
''')
S(id="p22-rdp-last", property="P22", edits=[("geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp", "for (std::size_t i = start + 1; (i + 1) < end; ++i)", "for (std::size_t i = start + 1; (i + 2) < end; ++i)")],
  needs="a range whose farthest vertex is the one before its end", breaks="a vertex farther away than the tolerance is dropped",
  demo=H + "#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>\n" + T + r'''
int main() { polyline<P> l{P(0,0), P(1,0.01), P(2,0), P(3,2), P(4,0)}; auto r = ramer_douglas_peucker_algorithm(l, 0.1);
  for (auto& p : l) { double m = 1e9; for (std::size_t i = 0; i + 1 < r.size(); ++i) m = std::min(m, point_segment_distance_sqrd(p, Sg(r[i], r[i+1]))); if (m > 0.1*0.1+1e-12) return 1; } return 0; }
''')
S(id="p29-sphere-still", property="P29", edits=[("geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp", "velocity_t v = v1 - v0; // Relative", "velocity_t v = dot_product(v0, v0) < dot_product(v1, v1) ? velocity_t(v1 - v0) : velocity_t(v1 + v0); // Relative")],
  needs="a first sphere at least as fast as the second one and moving", breaks="the relative motion is wrong for the faster first sphere",
  demo=H + "#include <geometrix/primitive/sphere.hpp>\n#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>\n" + T + r'''
int main() { typedef sphere<2,P> C; double t = -1; P q; C a(P(0,0), 1), b(P(10,0), 1); if (!moving_sphere_sphere_intersection(a, b, V(1,0), V(-1,0), t, q, cmp) || std::abs(t-4) > 1e-9) return 1;
  if (!moving_sphere_sphere_intersection(a, b, V(2,0), V(0,0), t, q, cmp) || std::abs(t-4) > 1e-9) return 2; if (!moving_sphere_sphere_intersection(a, b, V(0,0), V(-2,0), t, q, cmp) || std::abs(t-4) > 1e-9) return 3; return 0; }
''')
S(id="p40-obb-offaxis", property="P40", edits=[("geometrix/algorithm/intersection/obb_obb_intersection.hpp", "r1 = o1.get_halfwidth(0) * abscvu + o1.get_halfwidth(1) * abscvv;", "r1 = o1.get_halfwidth(0) * abscuv + o1.get_halfwidth(1) * abscuu;")],
  needs="never: |vu| equals |uv| in the plane", breaks="placeholder", demo="int main(){}")
SEEDS.pop()
S(id="p40-obb-axis", property="P40", edits=[("geometrix/algorithm/intersection/obb_obb_intersection.hpp", "r2 = o2.get_halfwidth(0) * abscvu + o2.get_halfwidth(1) * abscvv;", "r2 = o2.get_halfwidth(1) * abscvu + o2.get_halfwidth(0) * abscvv;")],
  needs="an elongated second box separated only along the first box's second axis", breaks="the extents of the second box are exchanged on one separating axis",
  demo=H + "#include <geometrix/primitive/oriented_bounding_box.hpp>\n#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>\n" + T + r'''
int main() { typedef oriented_bounding_box<P, V> B; B a(P(0,0), V(1,0), V(0,1), 5., 1.), b(P(0,3), V(1,0), V(0,1), 4., 0.5), c(P(0,4), V(1,0), V(0,1), 0.5, 4.); if (obb_obb_intersection(a, b, cmp)) return 1; return obb_obb_intersection(a, c, cmp) ? 0 : 2; }
''')
S(id="p34-kd-median", property="P34", edits=[("geometrix/algorithm/kd_tree.hpp", "else if( m_pRightChild && range.intersects( m_pRightChild->m_region, compare ) )", "else if( compare.greater_than( get<Dimension>( range.get_upper_bound() ), m_median ) && range.intersects( m_pRightChild->m_region, compare ) )")],
  needs="a range whose upper side passes exactly through the point a node was split at", breaks="the point the node was split at is not visited",
  demo=H + "#include <geometrix/primitive/axis_aligned_bounding_box.hpp>\n#include <geometrix/algorithm/kd_tree.hpp>\n#include <geometrix/algorithm/median_partitioning_strategy.hpp>\n#include <vector>\n" + T + r'''
struct Vis { int* n; void operator()(const P&) { ++*n; } };
int main() { unsigned s = 7; auto r = [&]() { s = s * 1103515245u + 12345u; return double((s >> 12) % 10); };
  for (int k = 0; k < 200; ++k) { std::vector<P> v; for (int i = 0; i < 24; ++i) { double a = r(), b = r(); v.push_back(P(a, b)); } kd_tree<P> t(v, cmp, median_partitioning_strategy()); double a = r(), b = r(), c = r(), d = r(); axis_aligned_bounding_box<P> g(P(std::min(a,b), std::min(c,d)), P(std::max(a,b), std::max(c,d))); int n = 0, m = 0; t.search(g, Vis{&n}, cmp); for (auto& p : v) if (p[0] >= std::min(a,b) && p[0] <= std::max(a,b) && p[1] >= std::min(c,d) && p[1] <= std::max(c,d)) ++m; if (n != m) return 1; } return 0; }
''')
S(id="p19-clip-bottom", property="P19", edits=[("geometrix/algorithm/cohen_sutherland_line_clipping.hpp", "x = x0 + (x1 - x0) * (ymin - y0) / (y1 - y0);", "x = x0 + (x1 - x0) * (ymin - y0) / (ymax - y0 > y1 - y0 ? y1 - y0 : ymax - y0);")],
  needs="a segment that leaves the box both below and above", breaks="the lower clip point is taken from a steeper line when the segment also passes the top",
  demo=H + "#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>\n" + T + r'''
int main() { double a = -2, b = -4, c = 6, d = 12; if (!cohen_sutherland_line_clip(a, b, c, d, -10., 10., 0., 8., cmp)) return 1; return std::abs(a) < 1e-12 && std::abs(b) < 1e-12 && std::abs(c-4) < 1e-12 && std::abs(d-8) < 1e-12 ? 0 : 2; }
''')
S(id="p24-pseudo-left", property="P24", edits=[("geometrix/utility/vector_angle_compare.hpp", "return (get<1>(v) < 0) ? 4 + result : result;", "return (result < 0) ? 4 + result : result + (get<1>(v) < 0);")],
  needs="never", breaks="placeholder", demo="int main(){}")
SEEDS.pop()
S(id="p43-difference-tail", property="P43", edits=[], needs="", breaks="", demo="")
SEEDS.pop()
S(id="p43-difference-tail", property="P43", edits=[("geometrix/utility/utilities.hpp", "if( !AEqualD )\n                        toInsert.push_back( construct< Segment >( A, D ) );", "if( !(AEqualD || BEqualC) )\n                        toInsert.push_back( construct< Segment >( A, D ) );")],
  needs="a removed piece given against the direction of the stored interval and starting at its end", breaks="what is left of the interval is lost",
  demo=H + "#include <geometrix/utility/utilities.hpp>\n#include <set>\n" + T + r'''
template <typename A, typename B> bool run(A C, B D, double lo, double hi) { typedef segment_interval_compare<absolute_tolerance_comparison_policy<double>> L; std::set<Sg, L> s{L(cmp)}; s.insert(Sg(P(1,0), P(5,0))); collinear_segment_difference(s, Sg(C, D), cmp); double len = 0; for (auto& x : s) { double a = std::min(x.get_start()[0], x.get_end()[0]), b = std::max(x.get_start()[0], x.get_end()[0]); if (a < lo - 1e-9 || b > hi + 1e-9) return false; len += b - a; } return std::abs(len - (hi - lo)) < 1e-9; }
int main() { if (!run(P(0,0), P(3,0), 3, 5)) return 1; if (!run(P(3,0), P(0,0), 3, 5)) return 2; if (!run(P(3,0), P(9,0), 1, 3)) return 3; if (!run(P(9,0), P(3,0), 1, 3)) return 4; if (!run(P(5,0), P(3,0), 1, 3)) return 5; if (!run(P(3,0), P(5,0), 1, 3)) return 6; if (!run(P(3,0), P(1,0), 3, 5)) return 7; return 0; }
''')
S(id="p37-adjacent-slot", property="P37", edits=[("geometrix/algorithm/mesh_2d.hpp", "adjTriangles[std::make_pair(indices[2], indices[0])].push_back(adj_item{ i, trig_side::two });", "adjTriangles[std::make_pair((std::min)(indices[2], indices[0]), (std::max)(indices[2], indices[0]))].push_back(adj_item{ i, trig_side::two });")],
  needs="two triangles sharing an edge that is the third side of one of them and stored in falling index order", breaks="the neighbours across that edge are not linked",
  demo=H + "#include <geometrix/test/test.hpp>\n#include <geometrix/algorithm/mesh_2d.hpp>\n" + T + r'''
int main() { std::vector<P> p{P(0,0), P(2,0), P(2,2), P(0,2)}; auto far = (std::numeric_limits<std::size_t>::max)(); std::size_t o[3][6] = {{0,1,2, 0,2,3}, {1,2,0, 2,3,0}, {2,0,1, 3,0,2}};
  for (auto& a : o) for (auto& b : o) { std::vector<std::size_t> ix{a[0],a[1],a[2], b[3],b[4],b[5]}; mesh_2d<double> m(p, ix, cmp); auto& A = m.get_adjacency_matrix(); int n = 0, k = 0; for (int i = 0; i < 3; ++i) { n += A[0][i] == 1; k += A[1][i] == 0; if (A[0][i] != 1 && A[0][i] != far) return 2; if (A[1][i] != 0 && A[1][i] != far) return 3; } if (n != 1 || k != 1) return 1; } return 0; }
''')
S(id="p20-centroid-wrap", property="P20", edits=[("geometrix/primitive/point_sequence_utilities.hpp", "mY += ai * ( get<1>( backPoint ) + get<1>( frontPoint ) );\n        }", "mY += ai * ( get<1>( backPoint ) + get<1>( polygon.size() == 6 ? *(point_sequence_traits< PointSequence >::begin( polygon ) + 1) : frontPoint ) );\n        }")],
  needs="a hexagon whose first two vertices are on different heights and whose closing edge does not pass the origin", breaks="the centroid depends on which vertex comes first",
  demo=H + "#include <geometrix/primitive/point_sequence_utilities.hpp>\n" + T + r'''
int main() { polygon<P> g{P(1,1), P(4,1), P(5,3), P(3,6), P(1,5), P(0,2)}; P c = get_centroid(g); for (int k = 0; k < 6; ++k) { std::rotate(g.begin(), g.begin()+1, g.end()); P d = get_centroid(g); if (std::abs(c[0]-d[0]) > 1e-9 || std::abs(c[1]-d[1]) > 1e-9) return 1; } return 0; }
''')
S(id="p14-ray-order", property="P14", edits=[("geometrix/algorithm/intersection/ray_segment_intersection.hpp", "assign(xPoints[0], B);\n                    assign(xPoints[1], A);\n                }\n            }", "assign(xPoints[0], A);\n                    assign(xPoints[1], B);\n                }\n            }")],
  needs="a ray running along a segment that starts ahead and points back at the ray", breaks="the nearer end of the overlap is reported last, so the first point is not at the returned distance",
  demo=H + "#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>\n" + T + r'''
int main() { double t = -1; P x[2]; auto r = ray_segment_intersection(P(0,0), V(1,0), P(7,0), P(3,0), t, x, cmp); return r == e_overlapping && std::abs(t-3) < 1e-12 && std::abs(x[0][0]-3) < 1e-12 && std::abs(x[1][0]-7) < 1e-12 ? 0 : 1; }
''')
S(id="p36-closest-last", property="P36", edits=[("geometrix/algorithm/point_sequence/find_subsequence.hpp", "auto nDistance = point_segment_distance_sqrd(p, access::get_point(P, i), access::get_point(P, j));\n            if (nDistance < distance)\n                std::tie(distance, index) = std::make_tuple(nDistance, i);\n        }\n\n        return index;", "auto nDistance = point_segment_distance_sqrd(p, access::get_point(P, i), access::get_point(P, j));\n            if (nDistance < distance || (nDistance <= distance && j == 0))\n                std::tie(distance, index) = std::make_tuple(nDistance, i);\n        }\n\n        return index;")], nth=0,
  needs="a point whose nearest boundary point is the first vertex", breaks="ties at the first vertex are resolved to the closing edge instead of the first edge",
  demo=H + "#include <geometrix/algorithm/point_in_polygon.hpp>\n#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>\n" + T + r'''
int main() { polygon<P> g{P(0,0), P(4,0), P(4,4), P(0,4)}; if (find_closest_polygon_border_segment(g, P(-1,-1)) != 0) return 1; if (find_closest_polygon_border_segment(g, P(5,-1)) != 0) return 2; return find_closest_polygon_border_segment(g, P(-1,2)) == 3 ? 0 : 3; }
''')
S(id="p42-first-edge", property="P42", edits=[("geometrix/algorithm/distance/polygon_polygon_closest_point.hpp", "for (std::size_t i = size-1, j = 0; j < size; i = j++)", "for (std::size_t i = 0, j = 1; j < size; i = j++)")], nth=0,
  needs="a first polygon whose closing edge is the nearest one", breaks="the closing edge of the first polygon is not looked at, so the distance depends on the argument order and the starting vertex",
  demo=H + "#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>\n" + T + r'''
int main() { polygon<P> a{P(0,0), P(4,0), P(4,4), P(0,4)}, b{P(-3,1), P(-1,2), P(-3,3)}; for (int k = 0; k < 4; ++k) { std::rotate(a.begin(), a.begin()+1, a.end()); double s, t; std::size_t i, j; P c, d; if (std::abs(polygon_polygon_closest_point_brute(a, b, i, j, s, t, c, d, cmp) - 1) > 1e-12) return 1; if (std::abs(polygon_polygon_closest_point_brute(b, a, i, j, s, t, c, d, cmp) - 1) > 1e-12) return 2; } return 0; }
''')
S(id="p16-update-hi", property="P16", edits=[("geometrix/primitive/axis_aligned_bounding_box.hpp", "if (get<1>(b1) < get<1>(b2))\n					set<1>(b1, get<1>(b2));\n\n				if (get<2>(b1) < get<2>(b2))", "if (get<1>(b1) < get<1>(b2))\n					set<1>(b1, get<1>(b2));\n\n				else if (get<2>(b1) < get<2>(b2))")],
  needs="a point that raises the upper bound in y and in z at once", breaks="the upper bound in z stays behind when the same point also raises y",
  demo=H + "#include <geometrix/primitive/axis_aligned_bounding_box.hpp>\n#include <vector>\n" + T + r'''
int main() { typedef point<double,3> Q; std::vector<Q> v{Q(0,0,0), Q(1,2,3), Q(2,1,1)}; axis_aligned_bounding_box<Q> b(v[0], v[0]); for (auto& q : v) b.expand(axis_aligned_bounding_box<Q>(q, q)); return b.get_upper_bound()[0] == 2 && b.get_upper_bound()[1] == 2 && b.get_upper_bound()[2] == 3 && b.get_lower_bound()[2] == 0 ? 0 : 1; }
''')
S(id="p35-memo-later", property="P35", edits=[("geometrix/utility/memoize.hpp", "auto it = cache.lower_bound( key );\n				if( it != cache.end() && !cache.key_comp()(key, it->first) )\n					return it->second;", "auto it = cache.upper_bound( key );\n				if( it != cache.end() && it != cache.begin() && !cache.key_comp()((--it)->first, key) )\n					return it->second;")],
  needs="the largest key asked for a second time", breaks="a value that is the largest key of the cache is computed again on every call",
  demo=H + "#include <geometrix/utility/memoize.hpp>\n#include <map>\n" + T + r'''
int main() { std::map<std::tuple<int,int>, int> c; int n = 0; std::function<int(int,int)> g = [&](int a, int b) { ++n; return 10*a+b; }; auto f = memoize(c, g); if (f(1,2) != 12 || f(3,4) != 34 || f(3,4) != 34 || f(1,2) != 12) return 1; return n == 2 ? 0 : 2; }
''')
