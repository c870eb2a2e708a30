#include "geo.hpp"
#include <geometrix/utility/floating_point_comparison.hpp>
#include <geometrix/arithmetic/arithmetic.hpp>
#include <geometrix/arithmetic/arithmetic_promotion_policy.hpp>
#include <geometrix/numeric/constants.hpp>
#include <limits>
// ---- magnitudes and guarded quotients
//@ anchor geometrix/utility/floating_point_comparison.hpp absolute_value
LIB(double, absv, double a) { return absolute_value(a); }
REF(double, absv, double a) { return std::fabs(a); }
LIB(int, absi, int a) { return absolute_value(a); }
REF(int, absi, int a) { return a < 0 ? 0 - a : a; }
PRE(absi, int a) { return a > -1000000; }
// the quotient of two magnitudes; too large a quotient is the largest number, too small a one is zero
//@ anchor geometrix/utility/floating_point_comparison.hpp safe_division
LIB(double, safe, double a, double b) { return safe_division(a, b); }
REF(double, safe, double a, double b) { return a / b; }
PRE(safe, double a, double b) { return a >= 0 && a < 1e300 && b > 1e-3 && b < 1e100 && (a == 0 || a > 1e-100); }
LIB(double, safet, double a, double b) { return safe_division(a, b); }
REF(double, safet, double a, double b) { return a / b; }
PRE(safet, double a, double b) { return a >= 0 && a < 1 && b > 1e-100 && b < 10 && (a == 0 || a > 1e-100); }
// quotients far from one
#define FAR(n, A, B, K) LIB(double, n, double a, double b) { return safe_division(A, B)*(K); } REF(double, n, double a, double b) { return (A)/(B)*(K); } PRE(n, double a, double b) { return (a >= 1) & (a <= 2) & (b >= 1) & (b <= 2); }
FAR(safe_s, a*1e-20, b, 1e20) FAR(safe_u, a, b*1e20, 1e20) FAR(safe_l, a*1e20, b, 1e-20) FAR(safe_m, a, b*1e-20, 1e-20) FAR(safe_n, a*1e-100, b*1e-90, 1e10) FAR(safe_x, a*1e120, b*1e-60, 1e-180) FAR(safe_y, a*1e-100, b*1e120, 1e220)
LIB(double, safez, double a) { return safe_division(a, 0.0); }
REF(double, safez, double a) { return a > 0 ? (std::numeric_limits<double>::max)() : 0.0; }
PRE(safez, double a) { return a >= 0; }
//@ anchor geometrix/utility/floating_point_comparison.hpp equals_zero
LIB(int, eqz, double v, double t) { return equals_zero(v, t); }
REF(int, eqz, double v, double t) { return std::fabs(v) <= std::fabs(t); }
// equal within a fraction of both numbers (strong) or of either (weak)
//@ anchor geometrix/utility/floating_point_comparison.hpp equals_within_tolerance
LIB(int, ewt, double a, double b, double t) { return equals_within_tolerance(a, b, t); }
REF(int, ewt, double a, double b, double t) { double d = std::fabs(a - b), e = std::fabs(t); return d <= e * std::fabs(a) && d <= e * std::fabs(b); }
PRE(ewt, double a, double b, double t) { return std::fabs(a) > 0.01 && std::fabs(b) > 0.01 && std::fabs(a) < 1e6 && std::fabs(b) < 1e6 && t > 0.001 && t < 100; }
LIB(int, ewtw, double a, double b, double t) { return equals_within_tolerance(a, b, t, floating_point_comparison_type::FPC_WEAK); }
REF(int, ewtw, double a, double b, double t) { double d = std::fabs(a - b), e = std::fabs(t); return d <= e * std::fabs(a) || d <= e * std::fabs(b); }
PRE(ewtw, double a, double b, double t) { return std::fabs(a) > 0.01 && std::fabs(b) > 0.01 && std::fabs(a) < 1e6 && std::fabs(b) < 1e6 && t > 0.001 && t < 100; }
LIB(int, ewt0, double a, double t) { return equals_within_tolerance(a, 0.0, t) + 2 * equals_within_tolerance(0.0, 0.0, t) + 4 * equals_within_tolerance(0.0, a, t, floating_point_comparison_type::FPC_WEAK); }
REF(int, ewt0, double a, double t) { double e = std::fabs(t); return 2 + (e >= 1 ? 4 : 0); }
PRE(ewt0, double a, double t) { return std::fabs(a) > 0.01 && std::fabs(a) < 1e6 && t > 0.001 && t < 100; }
// ---- powers
//@ anchor geometrix/arithmetic/arithmetic.hpp integral_pow
LIB(int, ipow, int b) { return integral_pow(b, 3) + 1000 * integral_pow(b, 0) + 100000 * integral_pow(b, 1); }
REF(int, ipow, int b) { return b * b * b + 1000 + 100000 * b; }
PRE(ipow, int b) { return b > -20 && b < 20; }
LIB(int, ipown, int b) { return integral_pow(b, -2); }
REF(int, ipown, int b) { return 0; }
PRE(ipown, int b) { return b > 1 && b < 20; }
//@ anchor geometrix/arithmetic/arithmetic.hpp power_c
LIB(void, cpow, int* o) { o[0] = (int)power_c<2,10>::value; o[1] = (int)power_c<-1,3>::value; o[2] = (int)power_c<-1,4>::value; o[3] = (int)power_c<10,0>::value; o[4] = (int)power_c<0,3>::value; o[5] = (int)power_c<3,5>::value; o[6] = (int)(power_c<10,12>::value / 1000000); }
REF(void, cpow, int* o) { o[0] = 1024; o[1] = -1; o[2] = 1; o[3] = 1; o[4] = 0; o[5] = 243; o[6] = 1000000; }
//@ anchor geometrix/arithmetic/arithmetic.hpp square
LIB(double, sqr, double a) { return square(a); }
REF(double, sqr, double a) { return a * a; }
// ---- promotion and demotion of numbers
//@ anchor geometrix/arithmetic/arithmetic_promotion_policy.hpp arithmetic_promotion_policy
LIB(double, prom, int a) { return arithmetic_promote(a); }
REF(double, prom, int a) { return (double)a; }
LIB(double, promd, double a) { return arithmetic_promote(a); }
REF(double, promd, double a) { return a; }
LIB(double, pdiv, int a, int b) { return arithmetic_promotion_policy<int>::promote_div(a, b); }
REF(double, pdiv, int a, int b) { return (double)a / (double)b; }
PRE(pdiv, int a, int b) { return b > 0 && b < 1000 && a > -1000 && a < 1000; }
LIB(double, pdivd, double a, double b) { return arithmetic_promotion_policy<double>::promote_div(a, b); }
REF(double, pdivd, double a, double b) { return a / b; }
PRE(pdivd, double a, double b) { return b > 0.01; }
LIB(int, dem, int a) { return arithmetic_demote<int>((double)a); }
REF(int, dem, int a) { return a; }
PRE(dem, int a) { return a > -1000000 && a < 1000000; }
LIB(double, demd, double a) { return arithmetic_demote<double>(a); }
REF(double, demd, double a) { return a; }
LIB(int, wid, int a, int b) { return (int)((widen_cast(a) * widen_cast(b)) / 1000000); }
REF(int, wid, int a, int b) { return (int)(((long long)a * (long long)b) / 1000000); }
PRE(wid, int a, int b) { return a > 0 && b > 0 && a < 30000000 && b < 30000000; }
LIB(int, usg, int a) { return (int)(unsigned_cast(a) % 10u); }
REF(int, usg, int a) { return a % 10; }
PRE(usg, int a) { return a >= 0 && a < 100000; }
LIB(int, sgn, unsigned a) { return signed_cast(a) - 5; }
REF(int, sgn, unsigned a) { return (int)a - 5; }
PRE(sgn, unsigned a) { return a < 100000u; }
// ---- named constants
//@ anchor geometrix/numeric/constants.hpp constants
LIB(void, cons, double* o) { using namespace geometrix::constants; o[0] = pi<double>(); o[1] = two_pi<double>(); o[2] = half_pi<double>(); o[3] = zero<double>(); o[4] = one<double>(); o[5] = negative_one<double>(); o[6] = two<double>(); o[7] = one_half<double>(); o[8] = e<double>(); o[9] = std::fabs(sqrt_2<double>() - 1.41421356237309504880) < 1e-15; }
REF(void, cons, double* o) { o[0] = 3.14159265358979323846; o[1] = 6.28318530717958647692; o[2] = 1.57079632679489661923; o[3] = 0; o[4] = 1; o[5] = -1; o[6] = 2; o[7] = 0.5; o[8] = 2.71828182845904523536; o[9] = 1; }
LIB(int, infs, double a) { return (a < geometrix::constants::infinity<double>()) + 2 * (a > geometrix::constants::negative_infinity<double>()); }
REF(int, infs, double a) { return 3; }
LIB(int, consi, int a) { using namespace geometrix::constants; return a * negative_one<int>() + two<int>() - one<int>() + zero<int>(); }
REF(int, consi, int a) { return 1 - a; }
PRE(consi, int a) { return a > -1000000 && a < 1000000; }
