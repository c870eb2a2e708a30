#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
// a segment whose ends coincide is a point
//@ anchor geometrix/algorithm/distance/point_segment_closest_point.hpp point_segment_closest_point of a point-like segment
LIB(void, degp, double* o, const double* p) { P2 r = point_segment_closest_point(P2(p[0],p[1]), P2(p[2],p[3]), P2(p[2],p[3])); o[0] = get<0>(r); o[1] = get<1>(r); }
REF(void, degp, double* o, const double* p) { o[0] = p[2]; o[1] = p[3]; }
LIB(void, degs, double* o, const double* p) { P2 r = point_segment_closest_point(P2(p[0],p[1]), S2(P2(p[2],p[3]), P2(p[2],p[3]))); o[0] = get<0>(r); o[1] = get<1>(r); }
REF(void, degs, double* o, const double* p) { o[0] = p[2]; o[1] = p[3]; }
LIB(void, deg3, double* o, const double* p) { P3 r = point_segment_closest_point(P3(p[0],p[1],p[2]), P3(p[3],p[4],p[5]), P3(p[3],p[4],p[5])); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
REF(void, deg3, double* o, const double* p) { for (int i = 0; i < 3; ++i) o[i] = p[3+i]; }
LIB(void, degt, double* o, const double* p) { double t = 5; P2 r = point_segment_closest_point_and_param(P2(p[0],p[1]), P2(p[2],p[3]), P2(p[2],p[3]), t); o[0] = get<0>(r); o[1] = get<1>(r); o[2] = t >= 0 && t <= 1; }
REF(void, degt, double* o, const double* p) { o[0] = p[2]; o[1] = p[3]; o[2] = 1; }
