#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
typedef std::vector<P2> VP;
static VP vec(const double* p, int n, double x, double y) { VP a; for (int i = 0; i < n; ++i) a.push_back(P2(p[2*i]+x, p[2*i+1]+y)); return a; }
template <int N> static std::array<P2,N> at(const double (&p)[2*N], double x, double y) { std::array<P2,N> a; for (int i = 0; i < N; ++i) a[i] = P2(p[2*i]+x, p[2*i+1]+y); return a; }
// a room 12 x 8 with a notch 4..8 x 4..8 cut out from above
static const double ROOM[16] = {0,0, 12,0, 12,8, 8,8, 8,4, 4,4, 4,8, 0,8}, TRI[6] = {0,0, 3,0, 1,2}, BIG[6] = {0,0, 10,1, 1,3}, SQ[8] = {0,0, 2,0, 2,2, 0,2}, ZZ[8] = {0,0, 3,3, 5,1, 3,2}, LL[4] = {0,0, 6,3};
static double tr(const P2& a, const P2& b, double x, double y) { return (b[0]-a[0])*(y-a[1]) - (b[1]-a[1])*(x-a[0]); }
// closed segment within the closed rectangle 0..12 x 0..8 and away from the open notch
static bool inroom(const P2& a, const P2& b) { bool in = a[0] >= 0 && a[0] <= 12 && b[0] >= 0 && b[0] <= 12 && a[1] >= 0 && a[1] <= 8 && b[1] >= 0 && b[1] <= 8;
  double q[4] = {tr(a,b,4,4), tr(a,b,8,4), tr(a,b,8,9), tr(a,b,4,9)}; bool pos = true, neg = true; for (int i = 0; i < 4; ++i) { pos = pos && q[i] >= 0; neg = neg && q[i] <= 0; }
  return in && ((a[0] <= 4 && b[0] <= 4) || (a[0] >= 8 && b[0] >= 8) || (a[1] <= 4 && b[1] <= 4) || pos || neg); }
template <int N> static bool seqin(const std::array<P2,N>& g, bool closed) { bool r = true; for (int i = 0; i < (closed ? N : N-1); ++i) r = r && inroom(g[i], g[(i+1)%N]); return r; }
#define PC(n, S, N, X, Y) LIB(bool, pc##n, double u, double v) { return polygon_polygon_containment(vec(S,N,X,Y), vec(ROOM,8,0,0), EXACT()); } \
REF(bool, pc##n, double u, double v) { return seqin<N>(at<N>(S,X,Y), true); } 
#define LC(n, S, N, X, Y) LIB(bool, lc##n, double u, double v) { return polygon_polyline_containment(vec(S,N,X,Y), vec(ROOM,8,0,0), EXACT()); } \
REF(bool, lc##n, double u, double v) { return seqin<N>(at<N>(S,X,Y), false); } 
//@ anchor geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp polygon_polygon_containment
PC(a, TRI, 3, u, 1) PC(b, TRI, 3, u, 3) PC(c, TRI, 3, u, 5) PC(d, TRI, 3, 1, u) PC(e, TRI, 3, 5, u) PC(f, TRI, 3, u, u) PC(g, BIG, 3, u, 1) PC(h, BIG, 3, 1, u) PC(i, SQ, 4, u, 2) PC(j, SQ, 4, 2, u)
//@ anchor geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp polygon_polyline_containment
LC(a, ZZ, 4, u, 1) LC(b, ZZ, 4, u, 3) LC(c, ZZ, 4, 1, u) LC(d, ZZ, 4, 7, u) LC(e, LL, 2, u, 2) LC(f, LL, 2, 3, u) LC(g, LL, 2, u, u)
// an L-shaped room of six corners: 0..12 x 0..8 without the open corner x < 6, y > 4
static const double ELL[12] = {0,0, 12,0, 12,8, 6,8, 6,4, 0,4}, ZZD[8] = {1,1, 2,-3, 4,2, 5,1};
static bool inell(const P2& a, const P2& b) { bool in = a[0] >= 0 && a[0] <= 12 && b[0] >= 0 && b[0] <= 12 && a[1] >= 0 && a[1] <= 8 && b[1] >= 0 && b[1] <= 8, na = a[0] < 6 && a[1] > 4, nb = b[0] < 6 && b[1] > 4; double t = tr(a,b,6,4);
  return in && !na && !nb && ((a[1] <= 4 && b[1] <= 4) || (a[0] >= 6 && b[0] >= 6) || (a[1] < b[1] ? t >= 0 : t <= 0)); }
template <int N> static bool ellin(const std::array<P2,N>& g, bool closed) { bool r = true; for (int i = 0; i < (closed ? N : N-1); ++i) r = r && inell(g[i], g[(i+1)%N]); return r; }
#define PE(n, S, N, X, Y) LIB(bool, pe##n, double u, double v) { return polygon_polygon_containment(vec(S,N,X,Y), vec(ELL,6,0,0), EXACT()); } REF(bool, pe##n, double u, double v) { return ellin<N>(at<N>(S,X,Y), true); }
#define LE(n, S, N, X, Y) LIB(bool, le##n, double u, double v) { return polygon_polyline_containment(vec(S,N,X,Y), vec(ELL,6,0,0), EXACT()); } REF(bool, le##n, double u, double v) { return ellin<N>(at<N>(S,X,Y), false); }
//@ anchor geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp polygon_polygon_containment
PE(a, TRI, 3, u, 1) PE(b, TRI, 3, u, 3) PE(c, TRI, 3, 5, u) PE(d, SQ, 4, u, 1) PE(e, BIG, 3, u, u)
//@ anchor geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp polygon_polyline_containment
LE(a, ZZ, 4, u, 0) LE(b, LL, 2, u, 1) LE(c, LL, 2, 3, u) LE(d, ZZD, 4, u, 2) LE(e, LL, 2, u, u)
