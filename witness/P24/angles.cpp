#include "geo.hpp"
#include <geometrix/numeric/constants.hpp>
//@ anchor geometrix/utility/utilities.hpp angle_from_a_to_b / vector_angle
LIB(double, aab, double ax, double ay, double bx, double by) { return angle_from_a_to_b(P2(ax,ay), P2(bx,by)); }
REF(double, aab, double ax, double ay, double bx, double by) { return std::atan2(by-ay, bx-ax); }
LIB(double, va, double x, double y) { return vector_angle(V2(x,y)); }
REF(double, va, double x, double y) { return std::atan2(y, x); }
//@ anchor geometrix/utility/utilities.hpp normalize_angle_0_2pi
static const double TP = constants::two_pi<double>();
LIB(bool, n2r, double a) { double r = normalize_angle_0_2pi_copy(a); return 0 <= r && r <= TP; }
REF(bool, n2r, double a) { return true; }
LIB(double, n2id, double a) { return normalize_angle_0_2pi_copy(a); }
REF(double, n2id, double a) { return (a >= 0 && a <= TP) ? a : a - TP * std::floor(a / TP); }
//@ anchor geometrix/utility/utilities.hpp normalize_angle_minus_pi_to_pi
LIB(bool, npr, double a) { double r = normalize_angle_minus_pi_to_pi_copy(a); return -TP/2 <= r && r <= TP/2; }
REF(bool, npr, double a) { return true; }
LIB(double, npid, double a) { return normalize_angle_minus_pi_to_pi_copy(a); }
REF(double, npid, double a) { double n = (a >= 0 && a <= TP) ? a : a - TP * std::floor(a / TP); return n > TP/2 ? n - TP : n; }
