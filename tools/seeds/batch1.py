SEEDS = []
def S(**k): SEEDS.append(k)
S(id="p10-level-vertex", property="P10", edits=[("geometrix/algorithm/point_in_polygon.hpp", "if( get<1>( u0 ) <= get<1>( A ) )", "if( get<1>( u0 ) < get<1>( A ) )")],
  needs="a query point exactly level with a polygon vertex, to its left, the vertex being the lower end of a falling edge", breaks="point_in_polygon misses the crossing at a vertex level with the query point and flips inside/outside",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/point_sequence_traits.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
using namespace geometrix; typedef point<double,2> P;
int main() { // a zig-zag polygon; the query is level with the notch vertex
  for (int sgn = -1; sgn <= 1; sgn += 2) { polygon<P> g; double q[][2] = {{0,0},{4,-2},{8,0},{4,3}}; for (auto& v : q) g.push_back(P(v[0], sgn*v[1]));
    if (!point_in_polygon(P(3,0), g)) return 1; if (point_in_polygon(P(-1,0), g)) return 2; if (point_in_polygon(P(9,0), g)) return 3; }
  return 0; }
''')
S(id="p15-circle-order", property="P15", edits=[("geometrix/algorithm/intersection/circle_circle_intersection.hpp", "cmp.less_than(d, abs(get_radius(A) - get_radius(B)))", "cmp.less_than(d, get_radius(A) - get_radius(B))")],
  needs="the first circle strictly inside the second (the other order is unaffected)", breaks="circle_circle_intersection reports two (not-a-number) points when the first circle is inside the second",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
using namespace geometrix; typedef point<double,2> P; typedef sphere<2,P> C;
int main() { absolute_tolerance_comparison_policy<double> cmp(1e-10);
  if (circle_circle_intersection(C(P(0,0),5), C(P(1,0),1), cmp).State != circle_intersection_state::circumscribed) return 1;
  if (circle_circle_intersection(C(P(1,0),1), C(P(0,0),5), cmp).State != circle_intersection_state::circumscribed) return 2;
  return 0; }
''')
S(id="p12-parallel-clamp", property="P12", edits=[("geometrix/algorithm/distance/segment_segment_closest_point.hpp", "else if (tnom > e)\n                {\n                    t = one;\n                    s = clamp<dimensionless_t>(construct<dimensionless_t>((b - c) / a), zero, one);", "else if (tnom > e)\n                {\n                    t = one;\n                    s = clamp<dimensionless_t>(construct<dimensionless_t>((e - c) / a), zero, one);")],
  needs="closest point past the end of the second segment, the segments not of equal direction and length", breaks="the point on the first segment is not the one nearest to the second segment's end, so the distance is too large",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <cmath>
using namespace geometrix; typedef point<double,2> P; typedef segment<P> S;
int main() { absolute_tolerance_comparison_policy<double> cmp(1e-10); int bad = 0;
  // brute force over a lattice: the distance is the least over end points to segments, or zero on a crossing
  for (int k = 0; k < 4000; ++k) { unsigned z = k * 2654435761u; auto r = [&]() { z = z * 1103515245u + 12345u; return double((z >> 16) % 9); };
    P a(r(), r()), b(r(), r()), c(r()+20, r()), d(r()+10, r());
    double m = 1e300; for (int i = 0; i <= 200; ++i) for (int j = 0; j <= 200; ++j) if (i == 0 || j == 0 || i == 200 || j == 200) { double s = i/200., t = j/200.; double x = a[0]+s*(b[0]-a[0])-c[0]-t*(d[0]-c[0]), y = a[1]+s*(b[1]-a[1])-c[1]-t*(d[1]-c[1]); double q = std::sqrt(x*x+y*y); if (q < m) m = q; }
    double g = segment_segment_distance(S(a,b), S(c,d), cmp); if (g > m + 1e-9) ++bad; if (k > 150) break; }
  return bad ? 1 : 0; }
''')
S(id="p11-box-z", property="P11", edits=[("geometrix/algorithm/distance/point_aabb_distance.hpp", "sqDist += (z - get<2>( aabb.get_upper_bound() )) * (z - get<2>( aabb.get_upper_bound() ));", "sqDist += (z - get<2>( aabb.get_upper_bound() )) * (z - get<2>( aabb.get_lower_bound() ));")],
  needs="a point above a 3D box with non-zero height", breaks="squared distance of a point above a 3D box uses the height from the wrong face",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
using namespace geometrix; typedef point<double,3> P;
int main() { axis_aligned_bounding_box<P> b(P(0,0,0), P(1,1,2)); return point_aabb_distance_sqrd(P(0.5,0.5,5), b) == 9 ? 0 : 1; }
''')
S(id="p28-behind-count", property="P28", edits=[("geometrix/algorithm/classify_simplex_to_plane.hpp", "if (numBehind != 0 && numInFront != 0)", "if (numBehind == numInFront && numInFront != 0)")],
  needs="a polygon with unequal numbers of vertices on the two sides of the plane", breaks="a straddling polygon with more vertices on one side is reported as wholly in front",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
using namespace geometrix; typedef point<double,2> P;
int main() { absolute_tolerance_comparison_policy<double> cmp(1e-10); std::vector<P> t{P(-1,-1), P(1,-1), P(0,3)}; line<P> l(P(-5,0), P(5,0));
  return classify_simplex_to_plane(t, l, cmp) == plane_orientation::straddling_plane ? 0 : 1; }
''')
S(id="p04-swap4", property="P04", edits=[("geometrix/algebra/detail/preprocessed/lup_decomposition.hpp", "std::swap( lu[k][3], lu[k_][3] ); i = 3; lu[i][k] = lu[i][k] / lu[k][k];", "i = 3; lu[i][k] = lu[i][k] / lu[k][k];")],
  needs="a 4x4 system whose third elimination step has to exchange rows", breaks="the last column is not exchanged with the rest of the pivot row, so the solution of the system is wrong",
  demo=r'''
#include <geometrix/primitive/point.hpp>
#include <stdexcept>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <boost/array.hpp>
#include <boost/concept_check.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <cmath>
using namespace geometrix;
int main() { double a[4][4] = {{5,1,2,3},{1,4,0,1},{0,1,0.25,7},{2,1,3,1}}; double b[4] = {1,-2,3,4}; int bad = 0;
  for (int s = 0; s < 24; ++s) { int q[4] = {0,1,2,3}; for (int i = 0, r = s, n = 4; i < 4; ++i, --n) { std::swap(q[i], q[i + r % n]); r /= n; }
    matrix<double,4,4> m; boost::array<std::size_t,4> pi; boost::array<double,4> v; for (int i = 0; i < 4; ++i) { v[i] = b[i]; for (int j = 0; j < 4; ++j) m[i][j] = a[q[i]][j]; }
    lup_decomposition(m, pi); boost::array<double,4> x = lup_solve(m, pi, v);
    for (int i = 0; i < 4; ++i) { double t = 0; for (int j = 0; j < 4; ++j) t += a[q[i]][j]*x[j]; if (!(std::fabs(t - b[i]) < 1e-9)) ++bad; } }
  return bad ? 1 : 0; }
''')
