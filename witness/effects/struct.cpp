#include <geometrix/test/test.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include "q.hpp"
#include <vector>
#include <functional>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
typedef polygon<P2> G2; typedef polyline<P2> L2; typedef std::vector<P2> W2; typedef axis_aligned_bounding_box<P2> B2; typedef std::size_t U; typedef std::vector<S2> SV; typedef matrix<double, 2, 2> M22;
typedef kd_tree<P2> KD; typedef solid_leaf_bsp_tree<S2> BSP; typedef node_bsp_tree_2d<S2> NB; typedef mesh_2d<double> MESH; typedef grid_2d<double, grid_traits<double>> GR; typedef hash_grid_2d<double, grid_traits<double>> HG;
struct CNT { int* n; template <class X> void operator()(const X&) const { ++*n; } };
//@ query geometrix/algorithm/kd_tree.hpp search
Q(void, kds, KD& k, B2& b, int* out_n, TOL& c) { k.search(b, CNT{out_n}, c); }
//@ query geometrix/algorithm/solid_leaf_bsp_tree.hpp point_in_solid_space
Q(int, bps, BSP& k, P2& p, TOL& c) { return (int)k.point_in_solid_space(p, c); }
//@ query geometrix/algorithm/solid_leaf_bsp_tree.hpp ray_intersection
Q(bool, bray, BSP& k, P2& p, V2& d, TOL& c) { return k.ray_intersection(p, d, c).is_intersecting(); }
Q(bool, brayb, BSP& k, P2& p, V2& d, TOL& c) { return k.ray_intersection_only_border(p, d, c).is_intersecting(); }
//@ query geometrix/algorithm/solid_leaf_bsp_tree.hpp get_min_distance_sqrd_to_solid
Q(double, bmd, BSP& k, P2& p, U& out_i, TOL& c) { return k.get_min_distance_sqrd_to_solid(p, out_i, c); }
Q(double, bmdr, BSP& k, P2& p, U& out_i, TOL& c) { return k.get_min_distance_to_solid(p, out_i, c); }
//@ query geometrix/algorithm/node_bsp_tree_2d.hpp locate_point
Q(int, nlp, NB& k, P2& p, TOL& c) { return (int)k.locate_point(p, c); }
//@ query geometrix/algorithm/node_bsp_tree_2d.hpp painters_traversal
Q(void, npt, NB& k, P2& p, int* out_n, TOL& c) { k.painters_traversal(p, CNT{out_n}, c); }
//@ query geometrix/algorithm/mesh_2d.hpp find_triangle
Q(U, mft, MESH& k, P2& p, TOL& c) { auto r = k.find_triangle(p, c); return r ? *r : (U)-1; }
//@ query geometrix/algorithm/mesh_2d.hpp get_adjacency_matrix
Q(U, madj, MESH& k, U& i) { return k.get_adjacency_matrix()[i][0]; }
//@ query geometrix/algorithm/mesh_2d.hpp get_random_position
Q(P2, mrp, MESH& k, double& a, double& b, double& d) { return k.get_random_position(a, b, d); }
//@ query geometrix/algorithm/mesh_2d.hpp search
struct SCH { struct edge_item { U f; U from; U get_triangle_index() const { return f; } }; edge_item get_start() { return edge_item{0, (U)-1}; } int* n; bool visit(const edge_item&) { return ++*n < 9; } boost::optional<edge_item> prepare_adjacent_traversal(U next, const edge_item& i) { return edge_item{next, i.f}; } };
Q(void, msr, MESH& k, int* out_n) { SCH s; s.n = out_n; k.search(s); }
//@ query geometrix/algorithm/grid_2d.hpp get_cell
Q(double, gce, const GR& k, P2& p) { return k.get_cell(p); }
Q(bool, gin, GR& k, P2& p) { return k.is_contained(p); }
//@ query geometrix/algorithm/hash_grid_2d.hpp find_cell
Q(const double*, hfc, HG& k, P2& p) { return k.find_cell(p); }
Q(const double*, hfi, HG& k, unsigned i, unsigned j) { return k.find_cell(i, j); }
//@ query geometrix/algorithm/point_sequence/polyline_offset.hpp polyline_offset
Q(U, pof, L2& l, double& d, TOL& c) { return polyline_offset(l, oriented_left, d, c).size(); }
Q(U, lof, L2& l, double& d, TOL& c) { return liu_polyline_offset(l, oriented_left, d, c).size(); }
//@ query geometrix/algorithm/point_sequence/curvature.hpp polyline_total_curvature
Q(double, ktc, L2& l) { return polyline_total_curvature(l); }
Q(double, kta, L2& l) { return polyline_total_absolute_curvature(l); }
Q(double, kto, L2& l, U& i) { return polyline_total_curvature_over_index(l, i); }
Q(double, ksi, L2& l, U& i) { return polyline_signed_curvature_at_index(l, i); }
Q(U, kin, L2& l) { return inflection_points(l).size(); }
//@ query geometrix/algorithm/rotation.hpp rotate_translate_points
Q(U, rtp, L2& l, V2& a, V2& b, V2& t, P2& o) { return rotate_translate_points(l, a, b, t, o).size(); }
Q(U, rpt, L2& l, V2& a, V2& b, P2& o) { return rotate_points(l, a, b, o).size(); }
Q(V2, rvv, V2& v, V2& a, V2& b) { return rotate_vector(v, a, b); }
//@ query geometrix/utility/utilities.hpp lexicographical_comparer
Q(bool, lexc, P2& a, P2& b, TOL& c) { return lexicographical_comparer<TOL>(c)(a, b); }
