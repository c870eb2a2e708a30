#include "geo.hpp"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
typedef sphere<2,P2> C2;
// circles apart, or one in the other, by no more than the tolerance touch in one point between them
#define TT(n, F) \
PRE(n##_gap, double* o, double r, double s, double g, double e) { return r > 0 && s > 0 && g >= 0 && g <= e && r + s > e; } \
LIB(int, n##_gap, double* o, double r, double s, double g, double e) { auto z = F(C2(P2(1,2),r), C2(P2(1+r+s+g,2),s), TOL(e)); if (z.IntersectionPoint0) o[0] = (*z.IntersectionPoint0)[1]; return (int)z.State; } \
REF(int, n##_gap, double* o, double r, double s, double g, double e) { o[0] = 2; return 2; } \
PRE(n##_gin, double* o, double r, double s, double g, double e) { return r > 0 && s > r && g >= 0 && g <= e && s - r - g > e; } \
LIB(int, n##_gin, double* o, double r, double s, double g, double e) { auto z = F(C2(P2(1,2),r), C2(P2(1+s-r-g,2),s), TOL(e)); if (z.IntersectionPoint0) o[0] = (*z.IntersectionPoint0)[1]; return (int)z.State; } \
REF(int, n##_gin, double* o, double r, double s, double g, double e) { o[0] = 2; return 2; }
//@ anchor geometrix/algorithm/intersection/circle_circle_intersection.hpp circle_circle_intersection
TT(cir, circle_circle_intersection)
//@ anchor geometrix/algorithm/intersection/sphere_sphere_intersection.hpp sphere_sphere_intersection
TT(sph, sphere_sphere_intersection)
