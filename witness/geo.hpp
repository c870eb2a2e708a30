// plane / space primitives over double used by the witness units
#pragma once
#include "w.hpp"
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace geometrix;
typedef point<double, 2> P2; typedef point<double, 3> P3; typedef vector<double, 2> V2; typedef vector<double, 3> V3;
typedef segment<P2> S2; typedef segment<P3> S3;
typedef absolute_tolerance_comparison_policy<double> TOL; typedef direct_comparison_policy EXACT;
static inline double crs(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
static inline double turn(double ax, double ay, double bx, double by, double cx, double cy) { return crs(bx - ax, by - ay, cx - ax, cy - ay); }
static inline double sq(double x) { return x * x; }
static inline double d2sq(double ax, double ay, double bx, double by) { return sq(ax - bx) + sq(ay - by); }
