#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
// a segment whose ends coincide is a point
//@ anchor geometrix/algorithm/intersection/segment_segment_intersection.hpp segment_segment_intersection of a point-like segment
LIB(int, x3a, double x, double y, double u, double w) { P3 q[2]; return segment_segment_intersection(P3(x,y,0), P3(x,y,0), P3(1,2,0), P3(1+u,2+w,0), q, EXACT()) != e_non_crossing; }
REF(int, x3a, double x, double y, double u, double w) { double c = u*(y-2) - w*(x-1), d = u*(x-1) + w*(y-2); return c == 0 && d >= 0 && d <= u*u + w*w; }
PRE(x3a, double x, double y, double u, double w) { return u*u + w*w > 0.01; }
LIB(int, x3b, double x, double y, double u, double w) { P3 q[2]; return segment_segment_intersection(P3(1,2,0), P3(1+u,2+w,0), P3(x,y,0), P3(x,y,0), q, EXACT()) != e_non_crossing; }
REF(int, x3b, double x, double y, double u, double w) { double c = u*(y-2) - w*(x-1), d = u*(x-1) + w*(y-2); return c == 0 && d >= 0 && d <= u*u + w*w; }
PRE(x3b, double x, double y, double u, double w) { return u*u + w*w > 0.01; }
LIB(int, x3c, double x, double y, double u, double w) { P3 q[2]; return segment_segment_intersection(P3(u,w,1), P3(u,w,1), P3(x,y,1), P3(x,y,1), q, EXACT()) != e_non_crossing; }
REF(int, x3c, double x, double y, double u, double w) { return u == x && w == y; }
LIB(int, x3z, double x, double y, double z) { P3 q[2]; return segment_segment_intersection(P3(x,y,z), P3(x,y,z), P3(0,0,0), P3(1,2,4), q, EXACT()) != e_non_crossing; }
REF(int, x3z, double x, double y, double z) { return y == 2*x && z == 4*x && x >= 0 && x <= 1; }
