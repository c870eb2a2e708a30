#include "w.hpp"
#include <geometrix/numeric/fixed_point.hpp>
using namespace geometrix;
typedef generic_compile_time_scale_policy<10, 2> S10; typedef generic_compile_time_scale_policy<10, 4> S4; typedef binary_compile_time_scale_policy<8> S2B; typedef generic_run_time_scale_policy<10> R10; typedef binary_run_time_scale_policy R2;
typedef fixed_point<fixed_point_traits<int, S10, round_half_to_even>> F; typedef fixed_point<fixed_point_traits<int, S4, round_half_to_even>> F4; typedef fixed_point<fixed_point_traits<int, S10, round_toward_zero>> FZ;
typedef fixed_point<fixed_point_traits<int, S2B, round_half_to_even>> B; typedef fixed_point<fixed_point_traits<int, R10, round_half_to_even>> R; typedef fixed_point<fixed_point_traits<int, R2, round_half_to_even>> RB;
typedef fixed_point<fixed_point_traits<int, R10, round_toward_zero>> RZ;
static F f(int a) { return F::from_format_value(a); } static F4 f4(int a) { return F4::from_format_value(a); } static B b8(int a) { return B::from_format_value(a); } static FZ fz(int a) { return FZ::from_format_value(a); }
static R r3(int a) { return R::from_format_value(a, R10(3)); } static RB rb(int a) { return RB::from_format_value(a, R2(5)); }
template <class T> static int v(const T& a) { return a.get_scaled_value(); }
#define M 2147483647L
static bool fits(long x) { return x >= -M && x <= M; }
static bool s4(int a) { return a > -10000 && a < 10000; } 
#define A1(n, X, Y) LIB(int, n, int a) { return X; } REF(int, n, int a) { return Y; } PRE(n, int a) { return s4(a); }
#define A2(n, X, Y, C) LIB(int, n, int a, int b) { return X; } REF(int, n, int a, int b) { return Y; } PRE(n, int a, int b) { return s4(a) && s4(b) && (C); }
#define AD(n, X, Y, C) LIB(int, n, int a, double d) { return X; } REF(int, n, int a, double d) { return Y; } PRE(n, int a, double d) { return s4(a) && d > -1000 && d < 1000 && (C); }
static double rnd(double x) { double l = std::floor(x), h = std::ceil(x); double d = (x-l)-(h-x); if (d < 0) return l; if (d > 0) return h; return 2*std::floor(l/2) == l ? l : h; }
//@ anchor geometrix/numeric/fixed_point.hpp operator/= with a number, number op fixed_point
#define NUM(P, MK, SC) \
A2(P##addn, v(MK(a) + b), a + b*SC, true) A2(P##nadd, v(b + MK(a)), a + b*SC, true) A2(P##subn, v(MK(a) - b), a - b*SC, true) A2(P##nsub, v(b - MK(a)), b*SC - a, true) A2(P##muln, v(MK(a) * b), a*b, true) A2(P##nmul, v(b * MK(a)), a*b, true) \
A2(P##divn, v(MK(a) / b), int(long(a)*SC / (long(b)*SC)), (b > 0 || b < 0) && fits(long(a)*SC / (long(b)*SC))) A2(P##ndiv, v(b / MK(a)), int(long(b)*SC*SC / a), (a > 0 || a < 0) && fits(long(b)*SC*SC / a)) \
A2(P##ltn, MK(a) < b, a < b*SC, true) A2(P##nlt, b < MK(a), b*SC < a, true) A2(P##gtn, MK(a) > b, a > b*SC, true) A2(P##len, MK(a) <= b, a <= b*SC, true) A2(P##gen, MK(a) >= b, a >= b*SC, true) A2(P##nge, b >= MK(a), b*SC >= a, true) A2(P##nle, b <= MK(a), b*SC <= a, true) A2(P##eqn, MK(a) == b, a == b*SC, true) A2(P##neq, b == MK(a), b*SC == a, true) A2(P##nne, b != MK(a), b*SC != a, true) A2(P##nen, MK(a) != b, a != b*SC, true) \
A1(P##posti, ([&] { auto x = MK(a); auto y = x++; return v(x) * 3 + v(y); }()), (a + SC) * 3 + a) A1(P##postd, ([&] { auto x = MK(a); auto y = x--; return v(x) * 3 + v(y); }()), (a - SC) * 3 + a) \
A1(P##min, v((MK(a).min)()), -2147483647 - 1) A1(P##max, v((MK(a).max)()), 2147483647) \
A2(P##mod, v(fmod(MK(a), MK(b))), a % b, b != 0) A2(P##assn, ([&] { auto x = MK(a); x = b; return v(x); }()), b*SC, true) A2(P##assf, ([&] { auto x = MK(a); auto y = MK(b); x = y; x += y; return v(x); }()), 2*b, true) \
A2(P##csg, v(copysign(MK(a), MK(b))), (a < 0 ? -a : a) * (b < 0 ? -1 : 1), true)
NUM(f_, f, 100)
NUM(b_, b8, 256)
NUM(r_, r3, 1000)
NUM(q_, rb, 32)
//@ anchor geometrix/numeric/fixed_point.hpp arithmetic with doubles rounds the double once
#define DBL(P, MK, SC) AD(P##addd, v(MK(a) + d), a + int(rnd(d * SC)), true) AD(P##dadd, v(d + MK(a)), a + int(rnd(d * SC)), true) AD(P##dsub, v(d - MK(a)), int(rnd(d * SC)) - a, true) AD(P##ltd, MK(a) < d, a < int(rnd(d * SC)), true) AD(P##asd, ([&] { auto x = MK(a); x = d; return v(x); }()), int(rnd(d * SC)), true)
DBL(f_, f, 100)
DBL(r_, r3, 1000)
DBL(q_, rb, 32)
//@ anchor geometrix/numeric/detail/fixed_point.hpp conversion between fixed-point types
A1(conv_up, v(F4(f(a))), a * 100)
A1(conv_down, v(F(f4(a))), int(rnd(a / 100.0)))
A1(conv_bin, v(B(f(a))), int(rnd(a * 2.56)))
A1(conv_tobin, v(F(b8(a))), int(rnd(a / 2.56)))
A1(conv_round, v(F(fz(a))), a)
A1(conv_run, v(R(r3(a))), a)
A1(conv_fromrun, v(F(r3(a))), int(rnd(a / 10.0)))
A1(conv_torun, v(R(f(a))), a)
A1(conv_ass, ([&] { auto x = r3(7); x = f(a); return v(x); }()), a * 10)
A1(conv_copy, ([&] { auto x = r3(a); R y(x); y += r3(5); return v(y); }()), a + 5)
//@ anchor geometrix/numeric/fixed_point.hpp numeric_limits, bounds, numeric_cast
A1(lim_bounds, v(boost::numeric::bounds<F>::highest()) - a, 2147483647 - a)
PRE(lim_bl, int a) { return a >= 0 && a < 1000; } LIB(int, lim_bl, int a) { return v(boost::numeric::bounds<F>::lowest()) + a; } REF(int, lim_bl, int a) { return -2147483647 - 1 + a; }
A1(lim_small, v(boost::numeric::bounds<F>::smallest()) + a, 1 + a)
A1(lim_err, v(std::numeric_limits<F>::round_error()) + a, 50 + a)
A1(lim_dm, v(std::numeric_limits<F>::denorm_min()) + a, a)
A1(lim_flags, a + std::numeric_limits<F>::is_signed + 2 * std::numeric_limits<F>::is_exact + 4 * std::numeric_limits<F>::is_integer + 8 * std::numeric_limits<F>::has_infinity + 16 * std::numeric_limits<F>::is_specialized, a + 1 + 2 + 16)
