#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <array>
// every border edge that meets the segment is handed over, in order, with its ends and the points; the visitor may stop the search
typedef std::array<P2,4> R4;
static R4 box(double u) { R4 q = {{P2(0,0), P2(4,0), P2(4,u), P2(0,4)}}; return q; }
struct Ev { double* o; int* k; int stop; bool operator()(int t, std::size_t i, std::size_t j, const P2& a, const P2& b) const { double* e = o + 2 + 7*(*k); e[0] = t; e[1] = i; e[2] = j; if (t != e_non_crossing) { e[3] = get<0>(a); e[4] = get<1>(a); } if (t == e_overlapping) { e[5] = get<0>(b); e[6] = get<1>(b); } return ++*k == stop; } };
static void zero(double* o) { for (int i = 0; i < 30; ++i) o[i] = 0; }
static void spec(double* o, const R4& r, P2 a, P2 b, int stop) { zero(o); int k = 0; Ev v = { o, &k, stop };
  for (int i = 0; i < 4; ++i) { int j = i == 3 ? 0 : i + 1; P2 x[2]; auto t = segment_segment_intersection(a, b, r[i], r[j], x, EXACT()); if (t != e_non_crossing) if (v(t, i, j, x[0], x[1])) break; } o[0] = k > 0; o[1] = k; }
static void lib(double* o, const R4& r, P2 a, P2 b, int stop, bool seg) { zero(o); int k = 0; Ev v = { o, &k, stop }; o[0] = seg ? segment_polygon_border_intersect(S2(a, b), r, v, EXACT()) : segment_polygon_border_intersect(a, b, r, v, EXACT()); o[1] = k; }
#define BD(n, A, B, st, sg, P) LIB(void, n, double* o, double u, double x, double y) { lib(o, box(u), A, B, st, sg); } REF(void, n, double* o, double u, double x, double y) { spec(o, box(u), A, B, st); } PRE(n, double*, double u, double x, double y) { return u > 0.1 && P; }
//@ anchor geometrix/algorithm/intersection/segment_polygon_intersection.hpp segment_polygon_border_intersect
BD(all, P2(x,y), P2(2,9), -1, false, x > -20 && x < 20) BD(first, P2(x,y), P2(2,9), 1, false, y < 3) BD(second, P2(2,-1), P2(x,y), 2, true, y > 1) BD(segm, P2(-1,y), P2(x,2), -1, true, x > 0)
BD(along, P2(x,0), P2(y,0), -1, false, x < 3 && y > 1)
