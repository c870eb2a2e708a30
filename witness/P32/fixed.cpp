#include "w.hpp"
#include <geometrix/numeric/fixed_point.hpp>
using namespace geometrix;
typedef generic_compile_time_scale_policy<10, 2> S10; typedef binary_compile_time_scale_policy<8> S2B; typedef generic_run_time_scale_policy<10> R10; typedef binary_run_time_scale_policy R2;
typedef fixed_point<fixed_point_traits<int, S10, round_half_to_even>> F;
typedef fixed_point<fixed_point_traits<int, S10, round_toward_zero>> FZ;
typedef fixed_point<fixed_point_traits<int, S10, round_toward_infinity<S10>>> FU;
typedef fixed_point<fixed_point_traits<int, S10, round_toward_neg_infinity<S10>>> FD;
typedef fixed_point<fixed_point_traits<int, S2B, round_half_to_even>> B;
typedef fixed_point<fixed_point_traits<int, R10, round_half_to_even>> R;
typedef fixed_point<fixed_point_traits<int, R2, round_half_to_even>> RB;
static F f(int a) { return F::from_format_value(a); }
static B b8(int a) { return B::from_format_value(a); }
static R r3(int a) { return R::from_format_value(a, R10(3)); }
static RB rb(int a) { return RB::from_format_value(a, R2(5)); }
template <class T> static int v(const T& a) { return a.get_scaled_value(); }
#define II int a, int b
#define M 2147483647L
static bool fits(long x) { return x >= -M && x <= M; }
static bool nz(int b) { return b > 0 || b < 0; }
//@ anchor geometrix/numeric/fixed_point.hpp operator+ - * /
#define ARITH(P, MK, SC) \
LIB(int, P##add, II) { return v(MK(a) + MK(b)); } REF(int, P##add, II) { return a + b; } \
LIB(int, P##sub, II) { return v(MK(a) - MK(b)); } REF(int, P##sub, II) { return a - b; } \
LIB(int, P##neg, int a) { return v(-MK(a)); } REF(int, P##neg, int a) { return -a; } \
LIB(int, P##inc, int a) { auto x = MK(a); ++x; return v(x); } REF(int, P##inc, int a) { return a + SC; } \
LIB(int, P##dec, int a) { auto x = MK(a); --x; return v(x); } REF(int, P##dec, int a) { return a - SC; } \
LIB(int, P##addi, II) { return v(MK(a) + b); } REF(int, P##addi, II) { return a + b*SC; } PRE(P##addi, II) { return fits(long(b)*SC) && fits(a + long(b)*SC); } \
LIB(int, P##subi, II) { return v(MK(a) - b); } REF(int, P##subi, II) { return a - b*SC; } PRE(P##subi, II) { return fits(long(b)*SC) && fits(a - long(b)*SC); } \
LIB(int, P##div, II) { return v(MK(a) / MK(b)); } REF(int, P##div, II) { return int(long(a)*SC / b); } PRE(P##div, II) { return nz(b) && fits(long(a)*SC / b); } \
LIB(bool, P##lt, II) { return MK(a) < MK(b); } REF(bool, P##lt, II) { return a < b; } \
LIB(bool, P##le, II) { return MK(a) <= MK(b); } REF(bool, P##le, II) { return a <= b; } \
LIB(bool, P##gt, II) { return MK(a) > MK(b); } REF(bool, P##gt, II) { return a > b; } \
LIB(bool, P##ge, II) { return MK(a) >= MK(b); } REF(bool, P##ge, II) { return a >= b; } \
LIB(bool, P##eq, II) { return MK(a) == MK(b); } REF(bool, P##eq, II) { return a == b; } \
LIB(bool, P##ne, II) { return MK(a) != MK(b); } REF(bool, P##ne, II) { return a != b; } \
LIB(bool, P##lti, II) { return MK(a) < b; } REF(bool, P##lti, II) { return a < long(b)*SC; } PRE(P##lti, II) { return fits(long(b)*SC); } \
LIB(bool, P##gei, II) { return MK(a) >= b; } REF(bool, P##gei, II) { return a >= long(b)*SC; } PRE(P##gei, II) { return fits(long(b)*SC); } \
LIB(bool, P##eqi, II) { return MK(a) == b; } REF(bool, P##eqi, II) { return a == long(b)*SC; } PRE(P##eqi, II) { return fits(long(b)*SC); } \
LIB(bool, P##igt, II) { return b > MK(a); } REF(bool, P##igt, II) { return long(b)*SC > a; } PRE(P##igt, II) { return fits(long(b)*SC); } \
LIB(bool, P##not, int a) { return !MK(a); } REF(bool, P##not, int a) { return a == 0; } \
LIB(bool, P##bool, int a) { return MK(a) ? true : false; } REF(bool, P##bool, int a) { return a != 0; } \
LIB(double, P##dbl, int a) { return MK(a).template convert_to<double>(); } REF(double, P##dbl, int a) { return a / double(SC); } \
LIB(int, P##swap, II) { auto x = MK(a), y = MK(b); x.swap(y); return v(x) - 7*v(y); } REF(int, P##swap, II) { return b - 7*a; } PRE(P##swap, II) { return a > -1000 && a < 1000 && b > -1000 && b < 1000; } \
LIB(int, P##eps, int a) { return v(MK(a).epsilon()); } REF(int, P##eps, int) { return 1; }
ARITH(f_, f, 100) ARITH(b_, b8, 256) ARITH(r_, r3, 1000) ARITH(q_, rb, 32)
#define MUL(P, MK, SC) LIB(int, P##mul, II) { return v(MK(a) * MK(b)); } REF(int, P##mul, II) { return int(long(a)*b / SC); } PRE(P##mul, II) { return long(a)*b < (M-1)*SC && long(a)*b > -(M-1)*SC; } \
LIB(int, P##trunc, int a) { return MK(a).template convert_to<int>(); } REF(int, P##trunc, int a) { return a / SC; }
MUL(f_, f, 100) MUL(r_, r3, 1000)
#define MULB(P, MK, N) LIB(int, P##mul, II) { return v(MK(a) * MK(b)); } REF(int, P##mul, II) { return int((long(a)*b) >> N); } PRE(P##mul, II) { return fits((long(a)*b) >> N); } \
LIB(int, P##trunc, int a) { return MK(a).template convert_to<int>(); } REF(int, P##trunc, int a) { return a >> N; }
MULB(b_, b8, 8) MULB(q_, rb, 5)
LIB(int, muli, II) { return v(f(a) * b); } REF(int, muli, II) { return a*b; } PRE(muli, II) { return fits(long(a)*b) && fits(long(b)*100); }
LIB(int, imul, II) { return v(b * f(a)); } REF(int, imul, II) { return a*b; } PRE(imul, II) { return fits(long(a)*b) && fits(long(b)*100); }
LIB(int, isub, II) { return v(b - f(a)); } REF(int, isub, II) { return b*100 - a; } PRE(isub, II) { return fits(long(b)*100) && fits(long(b)*100 - a); }
LIB(int, fabsf, int a) { return v(fabs(f(a))); } REF(int, fabsf, int a) { return a < 0 ? -a : a; }
//@ anchor geometrix/numeric/fixed_point_traits.hpp rounding policies
static bool small(double x) { return x > -1e6 && x < 1e6; }
LIB(int, fromz, double x) { return v(FZ(x)); } REF(int, fromz, double x) { return x >= 0 ? int(std::floor(x*100)) : int(std::ceil(x*100)); } PRE(fromz, double x) { return small(x); }
LIB(int, fromu, double x) { return v(FU(x)); } REF(int, fromu, double x) { return int(std::ceil(x*100)); } PRE(fromu, double x) { return small(x); }
LIB(int, fromd, double x) { return v(FD(x)); } REF(int, fromd, double x) { return int(std::floor(x*100)); } PRE(fromd, double x) { return small(x); }
LIB(double, half, double x) { return round_half_to_even::round(x); }
REF(double, half, double x) { double l = std::floor(x), h = std::ceil(x); double d = (x-l)-(h-x); if (d < 0) return l; if (d > 0) return h; return 2*std::floor(l/2) == l ? l : h; }
LIB(int, fromi, int a) { return v(F(a)); } REF(int, fromi, int a) { return a*100; } PRE(fromi, int a) { return fits(long(a)*100); }
LIB(int, copy, II) { F x(f(a)), y(f(b)); y = x; return v(x) + v(y); } REF(int, copy, II) { return 2*a; } PRE(copy, int a, int) { return fits(2*long(a)); }
LIB(int, zero, int a) { F x; return v(x); } REF(int, zero, int) { return 0; }
LIB(int, lim, int a) { typedef std::numeric_limits<F> L; return a == 0 ? v(L::epsilon()) : a == 1 ? v((L::max)()) : v((L::min)()); } REF(int, lim, int a) { return a == 0 ? 1 : a == 1 ? 2147483647 : -2147483647 - 1; }
