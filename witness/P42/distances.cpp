#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <array>
// one shape fixed, the other moved along a line beside it: the distance does not depend on the listing of either or on their order
static const double Q[8] = {0,0, 4,1, 5,4, -1,3}, T[6] = {0,0, 2,-1, 1,2}, Q7[14] = {0,0, 3,-1, 5,0, 6,3, 4,5, 1,5, -1,2};
template <int N> static std::array<P2,N> at(const double* p, double x, double y, int k, bool rev) { std::array<P2,N> a; for (int i = 0; i < N; ++i) { int j = (i+k)%N; if (rev) j = N-1-j; a[i] = P2(p[2*j]+x, p[2*j+1]+y); } return a; }
#define A(k, r) at<4>(Q, 0, 0, k, r)
#define B(k, r) at<3>(T, X, Y, k, r)
#define A7(k, r) at<7>(Q7, 0, 0, k, r)
#define DIRS(M, ...) M(e, x+7, 2, __VA_ARGS__) M(w, x-9, 2, __VA_ARGS__) M(n, 2, x+7, __VA_ARGS__) M(s, 1, x-9, __VA_ARGS__)
#define E1(D, PX, PY, n, L, R) LIB(double, n##D, double x) { double X = PX, Y = PY; return L; } REF(double, n##D, double x) { double X = PX, Y = PY; return R; } PRE(n##D, double x) { return x >= 0 && x <= 2; }
#define EQ(n, L, R) DIRS(E1, n, L, R)
template <typename U, typename V> static double ggc(const U& u, const V& v) { double s, t; std::size_t i, j; P2 c, d; return polygon_polygon_closest_point(u, v, i, j, s, t, c, d, EXACT()); }
template <typename U, typename V> static double ggb(const U& u, const V& v) { double s, t; std::size_t i, j; P2 c, d; return polygon_polygon_closest_point_brute(u, v, i, j, s, t, c, d, EXACT()); }
template <typename U, typename V> static double llc(const U& u, const V& v) { double s, t; std::size_t i, j; P2 c, d; return polyline_polyline_closest_point(u, v, i, j, s, t, c, d, EXACT()); }
template <typename U> static double sgc(const P2& a, const P2& b, const U& v) { double s, t; std::size_t i; P2 c, d; return segment_polygon_closest_point(a, b, v, i, s, t, c, d, EXACT()); }
template <typename U> static double slc(const P2& a, const P2& b, const U& v) { double s, t; std::size_t i; P2 c, d; return segment_polyline_closest_point(a, b, v, i, s, t, c, d, EXACT()); }
//@ anchor geometrix/algorithm/distance/point_polygon_distance.hpp point_polygon_distance
EQ(pg1, point_polygon_distance_sqrd(P2(X,Y), A(0,false)), point_polygon_distance_sqrd(P2(X,Y), A(1,false)))
EQ(pg2, point_polygon_distance_sqrd(P2(X,Y), A(0,true)), point_polygon_distance_sqrd(P2(X,Y), A(2,false)))
//@ anchor geometrix/algorithm/distance/point_polygon_closest_point.hpp point_polygon_closest_point
#define E2(D, PX, PY, n, L, R) LIB(void, n##D, double* o, double x) { double X = PX, Y = PY; P2 r = L; o[0] = r[0]; o[1] = r[1]; } REF(void, n##D, double* o, double x) { double X = PX, Y = PY; P2 r = R; o[0] = r[0]; o[1] = r[1]; } PRE(n##D, double*, double x) { return x >= 0 && x <= 2; }
DIRS(E2, pgc, point_polygon_closest_point(P2(X,Y), A(0,false)), point_polygon_closest_point(P2(X,Y), A(3,true)))
//@ anchor geometrix/algorithm/distance/point_polyline_distance.hpp point_polyline_distance
EQ(pl, point_polyline_distance_sqrd(P2(X,Y), A(0,false)), point_polyline_distance_sqrd(P2(X,Y), A(0,true)))
DIRS(E2, plc, point_polyline_closest_point(P2(X,Y), A(0,false)), point_polyline_closest_point(P2(X,Y), A(0,true)))
//@ anchor geometrix/algorithm/distance/segment_polygon_distance.hpp segment_polygon_distance
#define SA P2(X,Y)
#define SB P2(X+1,Y+2)
EQ(sg1, segment_polygon_distance_sqrd(SA, SB, A(0,false), EXACT()), segment_polygon_distance_sqrd(SB, SA, A(1,false), EXACT()))
EQ(sg2, segment_polygon_distance_sqrd(SA, SB, A(3,true), EXACT()), segment_polygon_distance_sqrd(SA, SB, A(2,false), EXACT()))
//@ anchor geometrix/algorithm/distance/segment_polygon_closest_point.hpp segment_polygon_closest_point
EQ(sgc1, sgc(SA, SB, A(0,false)), sgc(SB, SA, A(1,false)))
EQ(sgc2, sgc(SA, SB, A(3,true)), sgc(SA, SB, A(2,false)))
//@ anchor geometrix/algorithm/distance/segment_polyline_distance.hpp segment_polyline_distance
EQ(sl, segment_polyline_distance_sqrd(SA, SB, A(0,false), EXACT()), segment_polyline_distance_sqrd(SB, SA, A(0,true), EXACT()))
//@ anchor geometrix/algorithm/distance/segment_polyline_closest_point.hpp segment_polyline_closest_point
EQ(slc, slc(SA, SB, A(0,false)), slc(SB, SA, A(0,true)))
//@ anchor geometrix/algorithm/distance/polygon_polygon_distance.hpp polygon_polygon_distance
EQ(gg1, polygon_polygon_distance_sqrd(A(0,false), B(0,false), EXACT()), polygon_polygon_distance_sqrd(B(1,false), A(1,false), EXACT()))
EQ(gg2, polygon_polygon_distance_sqrd(A(2,true), B(2,false), EXACT()), polygon_polygon_distance_sqrd(B(2,true), A(3,false), EXACT()))
EQ(gg7, polygon_polygon_distance_sqrd(A7(0,false), B(0,false), EXACT()), polygon_polygon_distance_sqrd(B(1,false), A7(4,false), EXACT()))
//@ anchor geometrix/algorithm/distance/polygon_polygon_closest_point.hpp polygon_polygon_closest_point, polygon_polygon_closest_point_brute
EQ(ggc1, ggc(A(0,false), B(0,false)), ggc(B(1,false), A(1,false)))
EQ(ggc2, ggc(A(2,true), B(2,false)), ggc(B(2,true), A(3,false)))
EQ(ggb1, ggb(A(0,false), B(0,false)), ggb(B(1,false), A(1,false)))
EQ(ggb2, ggb(A(2,true), B(2,false)), ggb(B(2,true), A(3,false)))
EQ(ggc7, ggc(A7(0,false), B(0,false)), ggc(B(1,false), A7(4,false)))
EQ(ggb7, ggb(A7(0,false), B(0,false)), ggc(B(1,false), A7(4,false)))
//@ anchor geometrix/algorithm/distance/polyline_polyline_distance.hpp polyline_polyline_distance
EQ(ll, polyline_polyline_distance_sqrd(A(0,false), B(0,false), EXACT()), polyline_polyline_distance_sqrd(B(0,true), A(0,true), EXACT()))
EQ(ll7, polyline_polyline_distance_sqrd(A7(0,false), B(0,false), EXACT()), polyline_polyline_distance_sqrd(B(0,true), A7(0,true), EXACT()))
//@ anchor geometrix/algorithm/distance/polyline_polyline_closest_point.hpp polyline_polyline_closest_point
EQ(llc, llc(A(0,false), B(0,false)), llc(B(0,true), A(0,true)))
EQ(llc7, llc(A7(0,false), B(0,false)), llc(B(0,true), A7(0,true)))
