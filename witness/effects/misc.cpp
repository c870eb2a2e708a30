#include <geometrix/algorithm/euclidean_distance.hpp>
#include "q.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/bresenham_grid_traversal.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
typedef line<P2> N2; typedef plane<P3> N3; typedef axis_aligned_bounding_box<P2> B2; typedef oriented_bounding_box<P2, V2> O2; typedef std::size_t U; typedef matrix<double, 2, 2> M22; typedef matrix<double, 3, 3> M33; typedef grid_traits<double> GT;
//@ query geometrix/algorithm/orientation.hpp orientation
Q(int, ori, P2& a, P2& b, P2& c, TOL& t) { return get_orientation(a, b, c, t); }
Q(int, oriv, V2& a, V2& b, TOL& t) { return get_orientation(a, b, t); }
//@ query geometrix/algorithm/orientation.hpp oriented_intersection
Q(int, oix, P2& a, P2& b, P2& c, P2& d, TOL& t) { return oriented_intersection(a, b, c, d, t); }
//@ query geometrix/utility/utilities.hpp is_between
Q(bool, btw, P2& a, P2& b, P2& c, TOL& t) { return is_between(a, b, c, true, t); }
Q(bool, col, P2& a, P2& b, P2& c, TOL& t) { return is_collinear(a, b, c, t); }
Q(bool, vbt, V2& a, V2& b, V2& c, TOL& t) { return is_vector_between(a, b, c, true, t); }
Q(bool, vert, S2& s, TOL& t) { return is_vertical(s, t); }
Q(bool, hori, S2& s, TOL& t) { return is_horizontal(s, t); }
Q(bool, lex, P2& a, P2& b, TOL& t) { return lexicographically_less_than(a, b, t); }
//@ query geometrix/utility/utilities.hpp angle_from_a_to_b
Q(double, afx, V2& a) { return vector_angle(a); }
Q(double, afp, P2& a, P2& b) { return angle_from_a_to_b(a, b); }
Q(double, nrm, double& a) { return normalize_angle_0_2pi_copy(a); }
Q(double, nrm2, double& a) { return normalize_angle_minus_pi_to_pi_copy(a); }
//@ query geometrix/utility/utilities.hpp y_of_x
Q(double, yox, S2& s, double& x) { return y_of_x(s.get_start(), s.get_end(), x); }
Q(double, xoy, S2& s, double& x) { return x_of_y(s.get_start(), s.get_end(), x); }
//@ query geometrix/algorithm/is_segment_in_range.hpp is_segment_in_range_2d
Q(bool, sir, S2& s, V2& lo, V2& hi, P2& o) { return is_segment_in_range_2d(s, lo, hi, o); }
Q(bool, sirx, S2& s, V2& lo, V2& hi, P2& o, P2* out_x, TOL& t) { return is_segment_in_range_2d(s, lo, hi, o, out_x, t); }
//@ query geometrix/algorithm/classify_simplex_to_plane.hpp classify_point_to_plane
Q(int, cpp, P3& p, N3& n, TOL& t) { return (int)classify_point_to_plane(p, n, t); }
//@ query geometrix/algorithm/segment_mid_point.hpp segment_mid_point
Q(P2, mid, S2& s) { return segment_mid_point(s); }
//@ query geometrix/algorithm/split_segment.hpp split_segment
Q(U, spl, S2& s, double& m) { return split_segment(s, m).size(); }
//@ query geometrix/algebra/exterior_product.hpp exterior_product_area
Q(double, ext, V2& a, V2& b) { return exterior_product_area(a, b); }
//@ query geometrix/arithmetic/vector/normalize.hpp normalize
Q(V2, nml, V2& a) { return normalize(a); }
Q(double, mag, V3& a) { return magnitude(a); }
Q(V2, prp, V2& a) { return left_normal(a); }
//@ query geometrix/algebra/dot_product.hpp dot_product
Q(double, dot, V3& a, V3& b) { return dot_product(a, b); }
Q(V3, crs3, V3& a, V3& b) { return a ^ b; }
Q(P2, alg, P2& p, V2& v, double& t) { return p + t * v; }
//@ query geometrix/arithmetic/matrix_arithmetic.hpp inverse
Q(M33, minv, M33& m) { M33 r; r <<= inv(m); return r; }
Q(double, mdet, M33& m) { return determinant(m); }
Q(M33, mmul, M33& m, M33& n) { M33 r; r <<= m * n; return r; }
//@ query geometrix/algorithm/grid_traits.hpp get_x_index
Q(U, gx, GT& g, P2& p) { return g.get_x_index(get<0>(p)); }
Q(bool, gin, GT& g, P2& p) { return g.is_contained(p); }
//@ query geometrix/algorithm/fast_voxel_grid_traversal.hpp fast_voxel_grid_traversal
Q(void, fvt, GT& g, S2& s, U* out_n, TOL& c) { fast_voxel_grid_traversal(g, s, [out_n](U, U) { ++*out_n; }, c); }
//@ query geometrix/primitive/axis_aligned_bounding_box.hpp intersects
Q(bool, bix, B2& a, B2& b) { return a.intersects(b); }
Q(bool, bin, B2& a, P2& p) { return a.intersects(p); }
//@ query geometrix/numeric/number_comparison_policy.hpp equals
Q(bool, eqa, TOL& t, double& a, double& b) { return t.equals(a, b); }
