#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include "hashrt.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include "fig/fig.hpp"
typedef polygon<P2> PG; typedef polyline<P2> PL;
template <typename S> static S seq(const FIG& f, int n, int o = 0) { S r; for (int i = 0; i < n; ++i) r.push_back(f.p(o+i)); return r; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_area
H(area, 2, get_area(seq<PG>(f,4)))
H(sarea, 2, get_signed_area(seq<PG>(f,5)))
HO(cen, 0, 0, 1, { X[0] = get_centroid(seq<PG>(f,4)); })
//@ anchor geometrix/algorithm/point_sequence/length.hpp polyline_length
H(len, 1, polyline_length(seq<PL>(f,4)))
H(per, 1, polygon_length(seq<PG>(f,4)))
//@ anchor geometrix/algorithm/point_sequence/polyline_mid_point.hpp polyline_mid_point
HO(mid, 0, 0, 1, { X[0] = polyline_mid_point(seq<PL>(f,3)); })
//@ anchor geometrix/algorithm/point_in_polygon.hpp point_in_polygon
// which side a point of the boundary falls on is a matter of the axes
A(pip, 0, point_in_polygon(f.p(0), seq<PG>(f,4,1)))
H(ptri, 0, point_in_triangle(f.p(0), f.p(1), f.p(2), f.p(3), EXACT()))
//@ anchor geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance
H(ppd, 1, point_polygon_distance(f.p(0), seq<PG>(f,3,1)))
H(pld, 1, point_polyline_distance(f.p(0), seq<PL>(f,3,1)))
HO(ppc, 0, 0, 1, { X[0] = point_polygon_closest_point(f.p(0), seq<PG>(f,3,1)); })
//@ anchor geometrix/primitive/point_sequence_utilities.hpp is_polygon_simple
static const double HEX[12] = {0,0, 6,-1, 9,4, 4,3, 5,8, -1,5};
template <typename S> static S hex(const FIG& f, int k) { S r; for (int i = 0; i < 6; ++i) r.push_back(i == k ? f.p(0) : f.at(HEX[2*i], HEX[2*i+1])); return r; }
H(simple, 0, is_polygon_simple(hex<PG>(f,3), EXACT()))
template <typename S> static void out(double* I, P2* X, const FIG& f, const S& r) { I[0] = r.size(); for (int i = 0; i < 6; ++i) X[i] = i < (int)r.size() ? (P2)r[i] : f.at(0,0); }
HO(clean, 1, 0, 6, { out(I, X, f, clean_polygon(hex<PG>(f,3), EXACT())); })
HO(cleanl, 1, 0, 6, { out(I, X, f, clean_polyline(hex<PL>(f,3), EXACT())); })
//@ anchor geometrix/algorithm/point_sequence/polyline_offset.hpp polyline_offset
HO(off, 1, 0, 6, { out(I, X, f, polyline_offset(hex<PL>(f,3), oriented_left, f.s, EXACT())); })
//@ anchor geometrix/algorithm/point_sequence/curvature.hpp polyline_signed_curvature_at_index
H(kap, -1, polyline_signed_curvature_at_index(seq<PL>(f,3), 1))
