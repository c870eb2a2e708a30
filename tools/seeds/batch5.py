SEEDS = []
def S(**k): SEEDS.append(k)
H = "#include <geometrix/primitive/point.hpp>\n#include <geometrix/primitive/segment.hpp>\n#include <geometrix/primitive/polygon.hpp>\n#include <geometrix/primitive/polyline.hpp>\n#include <geometrix/primitive/point_sequence_traits.hpp>\n#include <geometrix/primitive/vector_point_sequence.hpp>\n#include <geometrix/numeric/number_comparison_policy.hpp>\n#include <geometrix/algorithm/euclidean_distance.hpp>\n#include <geometrix/tensor/vector.hpp>\n#include <geometrix/algebra/algebra.hpp>\n#include <cmath>\n"
T = "using namespace geometrix; typedef point<double,2> P; typedef vector<double,2> V; typedef segment<P> Sg; static absolute_tolerance_comparison_policy<double> cmp(1e-10);\n"
S(id="p13-early-break", property="P13", edits=[("geometrix/algorithm/distance/point_polyline_distance.hpp", "            if( d < dist )\n                dist = d;\n        }\n\n        return dist;", "            if( d < dist )\n                dist = d;\n            else if( i >= 16 && d > 4 * dist )\n                break;\n        }\n\n        return dist;")],
  needs="a polyline of more than sixteen edges that leads away from the point and comes back", breaks="the search stops at the first far edge and reports a distance larger than the smallest one",
  demo=H + "#include <geometrix/algorithm/distance/point_polyline_distance.hpp>\n" + T + r"""
int main() { polyline<P> l; for (int i = 0; i < 20; ++i) l.push_back(P(10 + 10*i, 5)); l.push_back(P(200, 100)); l.push_back(P(0, 100)); l.push_back(P(0, 1)); return std::abs(point_polyline_distance_sqrd(P(0,0), l) - 1) < 1e-9 ? 0 : 1; }
""")
S(id="p34-window", property="P34", edits=[("geometrix/algorithm/median_partitioning_strategy.hpp", "std::nth_element( begin, median, end, dCompare );", "auto last = medianIndex < 12 ? end : std::next( median, medianIndex );\n            std::nth_element( begin, median, last, dCompare );")],
  needs="an odd number of at least twenty-five points whose last one belongs below the median", breaks="the last point is filed on the wrong side of the cut and range searches miss it",
  demo=H + r"""#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
""" + T + r"""
int main() { std::vector<P> v; for (int i = 0; i < 26; ++i) v.push_back(P(10 + i, (7*i) % 26)); v.push_back(P(0, 13)); kd_tree<P> t(v, cmp, median_partitioning_strategy()); typedef axis_aligned_bounding_box<P> B; int bad = 0; for (auto const& q : v) { int n = 0; t.search(B(q,q), [&](const P& r) { if (get<0>(r) == get<0>(q) && get<1>(r) == get<1>(q)) ++n; }, cmp); bad += n != 1; } return bad != 0; }
""")
