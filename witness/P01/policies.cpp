#include "w.hpp"
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <cmath>
using namespace geometrix;
typedef direct_comparison_policy D;
typedef absolute_tolerance_comparison_policy<double> A;
typedef relative_tolerance_comparison_policy<double> R;
typedef fraction_tolerance_comparison_policy<double> F;
typedef mapped_tolerance_comparison_policy<A, boost::fusion::pair<float, F>> M;

// ---- the ordering laws every policy must satisfy, whatever its notion of tolerance
template <class P> static int laws(const P& p, double u, double v)
{
    bool e = p.equals(u, v), l = p.less_than(u, v), g = p.greater_than(u, v);
    bool le = p.less_than_or_equal(u, v), ge = p.greater_than_or_equal(u, v);
    int bad = 0;
    if (int(e) + int(l) + int(g) != 1) bad |= 1;   // exactly one of <, =, >
    if (le != (l || e)) bad |= 2;
    if (ge != (g || e)) bad |= 4;
    if (p.equals(v, u) != e) bad |= 8;             // symmetric
    if (p.less_than(v, u) != g) bad |= 16;         // converse
    if (p.less_than_or_equal(v, u) != ge) bad |= 32;
    if (!p.equals(u, u)) bad |= 64;                // reflexive
    if (l && !(u < v)) bad |= 128;                 // never contradicts the exact order
    if (g && !(u > v)) bad |= 256;
    return bad;
}
//@ anchor geometrix/numeric/number_comparison_policy.hpp direct_comparison_policy
LIB(int, laws_direct, double u, double v) { return laws(D(), u, v); }
REF(int, laws_direct, double, double) { return 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp absolute_tolerance_comparison_policy
LIB(int, laws_absolute, double u, double v, double eps) { return laws(A(eps), u, v); }
REF(int, laws_absolute, double, double, double) { return 0; }
PRE(laws_absolute, double, double, double eps) { return eps >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp relative_tolerance_comparison_policy
LIB(int, laws_relative, double u, double v, double eps) { return laws(R(eps), u, v); }
REF(int, laws_relative, double, double, double) { return 0; }
PRE(laws_relative, double, double, double eps) { return eps >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp fraction_tolerance_comparison_policy
LIB(int, laws_fraction, double u, double v, double eps) { return laws(F(eps), u, v); }
REF(int, laws_fraction, double, double, double) { return 0; }
PRE(laws_fraction, double, double, double eps) { return eps >= 0; }
LIB(int, laws_fraction2, double u, double v, double eps, double epsb) { return laws(F(eps, epsb), u, v); }
REF(int, laws_fraction2, double, double, double, double) { return 0; }
PRE(laws_fraction2, double, double, double eps, double epsb) { return eps >= 0 && epsb >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp mapped_tolerance_comparison_policy
LIB(int, laws_mapped, double u, double v, double eps, double epsf) { return laws(M(A(eps), boost::fusion::make_pair<float>(F(epsf))), u, v); }
REF(int, laws_mapped, double, double, double, double) { return 0; }
PRE(laws_mapped, double, double, double eps, double) { return eps >= 0; }

// ---- the documented meaning of equality for each policy
static double ab(double x) { return x < 0 ? -x : x; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp direct_comparison_policy
LIB(bool, eq_direct, double u, double v) { return D().equals(u, v); }
REF(bool, eq_direct, double u, double v) { return u == v; }
LIB(bool, lt_direct, double u, double v) { return D().less_than(u, v); }
REF(bool, lt_direct, double u, double v) { return u < v; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp absolute_tolerance_comparison_policy
LIB(bool, eq_absolute, double u, double v, double eps) { return A(eps).equals(u, v); }
REF(bool, eq_absolute, double u, double v, double eps) { return ab(u - v) <= eps; }
LIB(bool, lt_absolute, double u, double v, double eps) { return A(eps).less_than(u, v); }
REF(bool, lt_absolute, double u, double v, double eps) { return u < v && !(ab(u - v) <= eps); }
PRE(lt_absolute, double, double, double eps) { return eps >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp relative_tolerance_comparison_policy
LIB(bool, eq_relative, double u, double v, double eps) { return R(eps).equals(u, v); }
REF(bool, eq_relative, double u, double v, double eps) { return ab(u - v) <= eps * (ab(u) + ab(v) + 1); }
LIB(bool, lt_relative, double u, double v, double eps) { return R(eps).less_than(u, v); }
REF(bool, lt_relative, double u, double v, double eps) { return u < v && !(ab(u - v) <= eps * (ab(u) + ab(v) + 1)); }
PRE(lt_relative, double, double, double eps) { return eps >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp fraction_tolerance_comparison_policy
LIB(bool, eq_fraction, double u, double v, double eps, double epsz) { return F(eps, epsz).equals(u, v); }
REF(bool, eq_fraction, double u, double v, double eps, double epsz)
{
    if (u == 0) return ab(v) <= epsz;
    if (v == 0) return ab(u) <= epsz;
    return ab(u - v) <= eps * ab(u) && ab(u - v) <= eps * ab(v);   // small relative to each operand
}
PRE(eq_fraction, double, double, double eps, double epsz) { return eps >= 0 && epsz >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp mapped_tolerance_comparison_policy
LIB(bool, eq_mapped_default, double u, double v, double eps, double epsf) { return M(A(eps), boost::fusion::make_pair<float>(F(epsf))).equals(u, v); }
REF(bool, eq_mapped_default, double u, double v, double eps, double) { return ab(u - v) <= eps; }
LIB(bool, eq_mapped_keyed, double eps, double u, double v, double epsf) { auto m = make_mapped_tolerance_comparison_policy(F(epsf), boost::fusion::make_pair<double>(A(eps))); return m.equals(u, v); }
REF(bool, eq_mapped_keyed, double eps, double u, double v, double) { return ab(u - v) <= eps; }
// ---- functor adaptors
//@ anchor geometrix/numeric/number_comparison_policy.hpp less_than/greater_than/.../equals functors
template <class P> static int functors(const P& p, double u, double v)
{
    return int(less_than<P>(p)(u, v) != p.less_than(u, v)) + int(greater_than<P>(p)(u, v) != p.greater_than(u, v))
         + int(less_than_or_equal<P>(p)(u, v) != p.less_than_or_equal(u, v)) + int(greater_than_or_equal<P>(p)(u, v) != p.greater_than_or_equal(u, v))
         + int(equals<P>(p)(u, v) != p.equals(u, v));
}
LIB(int, functors, double u, double v, double eps) { return functors(A(eps), u, v); }
REF(int, functors, double, double, double) { return 0; }
PRE(functors, double, double, double eps) { return eps >= 0; }
