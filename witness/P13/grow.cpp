//@ grow geometrix/algorithm/distance/point_polyline_distance.hpp geometrix/algorithm/distance/point_polyline_closest_point.hpp geometrix/algorithm/distance/point_polygon_distance.hpp geometrix/algorithm/distance/point_polygon_closest_point.hpp geometrix/algorithm/distance/segment_polyline_distance.hpp geometrix/algorithm/distance/segment_polygon_distance.hpp geometrix/algorithm/distance/polyline_polyline_distance.hpp geometrix/algorithm/distance/polygon_polygon_distance.hpp geometrix/primitive/point_sequence_utilities.hpp
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include "grow.hpp"
// the nearest of many edges
static P2 stair(int k) { return P2(2*((k+1)/2), 2*(k/2)); }
static P2 ring(int k) { return k == 0 ? P2(-200,200) : k == SZ-1 ? P2(200,200) : stair(k); }
// a point beside the middle of edge K
static P2 by(int k, double w) { P2 a = stair(k), b = stair(k+1); if (k % 2) w = -w; return P2((a[0]+b[0])/2 + w*(b[1]-a[1])/2, (a[1]+b[1])/2 + w*(a[0]-b[0])/2); }
#define PT(n, K) \
LIB(double, gpl##n, double u) { return point_polyline_distance_sqrd(by(K,u), fillf<polyline<P2>>(stair)); } REF(double, gpl##n, double u) { return u*u; } PRE(gpl##n, double u) { return (u > 0) & (u < 1); } \
LIB(double, gpg##n, double u) { return point_polygon_distance_sqrd(by(K,u), fillf<polygon<P2>>(ring)); } REF(double, gpg##n, double u) { return u*u; } PRE(gpg##n, double u) { return (u > 0) & (u < 1) & (K >= 1) & (K <= SZ-3); } \
LIB(double, gpc##n, double u) { P2 c = point_polyline_closest_point(by(K,u), fillf<polyline<P2>>(stair)), p = by(K,u); return d2sq(p[0], p[1], c[0], c[1]); } REF(double, gpc##n, double u) { return u*u; } PRE(gpc##n, double u) { return (u > 0) & (u < 1); } \
LIB(double, gpd##n, double u) { P2 c = point_polygon_closest_point(by(K,u), fillf<polygon<P2>>(ring)), p = by(K,u); return d2sq(p[0], p[1], c[0], c[1]); } REF(double, gpd##n, double u) { return u*u; } PRE(gpd##n, double u) { return (u > 0) & (u < 1) & (K >= 1) & (K <= SZ-3); }
//@ anchor geometrix/algorithm/distance/point_polyline_distance.hpp point_polyline_distance_sqrd
PT(0, 2) PT(h, (SZ/4*2)) PT(l, (SZ%2 ? SZ-3 : SZ-4))
// a far away needle can be near one edge only
//@ anchor geometrix/algorithm/distance/segment_polyline_distance.hpp segment_polyline_distance
#define SEG(n, K) LIB(double, gsl##n, double u) { P2 a = stair(K), b = stair(K+1); double mx = (a[0]+b[0])/2, my = (a[1]+b[1])/2, nx = b[1]-a[1], ny = a[0]-b[0]; double w = (K % 2 ? -1 : 1)*u; return segment_polyline_distance_sqrd(S2(P2(mx+w*nx/2,my+w*ny/2), P2(mx+(K%2?-1:1)*30*nx,my+(K%2?-1:1)*30*ny)), fillf<polyline<P2>>(stair), EXACT()); } REF(double, gsl##n, double u) { return u*u; } PRE(gsl##n, double u) { return (u > 0) & (u < 1); } \
LIB(double, gsg##n, double u) { P2 a = stair(K), b = stair(K+1); double mx = (a[0]+b[0])/2, my = (a[1]+b[1])/2, nx = b[1]-a[1], ny = a[0]-b[0]; double w = (K % 2 ? -1 : 1)*u; return segment_polygon_distance_sqrd(S2(P2(mx+w*nx/2,my+w*ny/2), P2(mx+(K%2?-1:1)*30*nx,my+(K%2?-1:1)*30*ny)), fillf<polygon<P2>>(ring), EXACT()); } REF(double, gsg##n, double u) { return u*u; } PRE(gsg##n, double u) { return (u > 0) & (u < 1) & (K >= 1) & (K <= SZ-3); }
SEG(0, 2) SEG(h, (SZ/4*2)) SEG(l, (SZ%2 ? SZ-3 : SZ-4))
// edges that run to and fro: the near edge comes after far ones
static P2 star(int k) { return P2(k % 2 ? 20 : 0, 2*((7*k+3) % SZ)); }
#define ST(n, K) \
LIB(double, gtl##n, double u) { return point_polyline_distance_sqrd(P2(-u,star(K)[1]), fillf<polyline<P2>>(star)); } REF(double, gtl##n, double u) { return u*u; } PRE(gtl##n, double u) { return (u > 0) & (u < 9); } \
LIB(double, gtg##n, double u) { return point_polygon_distance_sqrd(P2(-u,star(K)[1]), fillf<polygon<P2>>(star)); } REF(double, gtg##n, double u) { return u*u; } PRE(gtg##n, double u) { return (u > 0) & (u < 9); } \
LIB(void, gtc##n, double* o, double u) { P2 c = point_polyline_closest_point(P2(-u,star(K)[1]), fillf<polyline<P2>>(star)); o[0] = c[0]; o[1] = c[1]; } REF(void, gtc##n, double* o, double u) { o[0] = 0; o[1] = star(K)[1]; } PRE(gtc##n, double*, double u) { return (u > 0) & (u < 9); } \
LIB(void, gtd##n, double* o, double u) { P2 c = point_polygon_closest_point(P2(-u,star(K)[1]), fillf<polygon<P2>>(star)); o[0] = c[0]; o[1] = c[1]; } REF(void, gtd##n, double* o, double u) { o[0] = 0; o[1] = star(K)[1]; } PRE(gtd##n, double*, double u) { return (u > 0) & (u < 9); } \
LIB(double, gtn##n, double u) { return segment_polyline_distance_sqrd(S2(P2(-u,star(K)[1]), P2(-30,star(K)[1])), fillf<polyline<P2>>(star), EXACT()); } REF(double, gtn##n, double u) { return u*u; } PRE(gtn##n, double u) { return (u > 0) & (u < 9); } \
LIB(double, gtm##n, double u) { return segment_polygon_distance_sqrd(S2(P2(-u,star(K)[1]), P2(-30,star(K)[1])), fillf<polygon<P2>>(star), EXACT()); } REF(double, gtm##n, double u) { return u*u; } PRE(gtm##n, double u) { return (u > 0) & (u < 9); }
//@ anchor geometrix/algorithm/distance/point_polyline_distance.hpp point_polyline_distance_sqrd
ST(0, 0) ST(h, (SZ/4*2)) ST(l, ((SZ-1)/2*2))
