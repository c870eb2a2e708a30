#include <geometrix/algorithm/euclidean_distance.hpp>
#include "geo.hpp"
#include <geometrix/utility/tagged_quantity.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
#include <cmath>
// a tagged number computes exactly like the number it carries; the tag only restricts mixing
struct tA; struct tB; typedef tagged_quantity<tA,double> A; typedef tagged_quantity<tB,double> B; typedef tagged_quantity<tA,int> AI;
#define T2(n, X, Y) LIB(double, n, double a, double b) { return X; } REF(double, n, double a, double b) { return Y; }
#define NZ(n) PRE(n, double, double b) { return b > 0.01; }
//@ anchor geometrix/utility/tagged_quantity.hpp operator + - * /
T2(addsame, (A(a) + A(b)).value(), a + b) T2(subsame, (A(a) - A(b)).value(), a - b) T2(mulsame, (A(a) * A(b)).value(), a * b) T2(divsame, (A(a) / A(b)).value(), a / b) NZ(divsame)
T2(adddiff, (A(a) + B(b)).value(), a + b) T2(subdiff, (A(a) - B(b)).value(), a - b) T2(muldiff, (A(a) * B(b)).value(), a * b) T2(divdiff, (A(a) / B(b)).value(), a / b) NZ(divdiff)
T2(addnum, (A(a) + b).value(), a + b) T2(subnum, (A(a) - b).value(), a - b) T2(mulnum, (A(a) * b).value(), a * b) T2(divnum, (A(a) / b).value(), a / b) NZ(divnum)
T2(numadd, (a + A(b)).value(), a + b) T2(numsub, (a - A(b)).value(), a - b) T2(nummul, (a * A(b)).value(), a * b) T2(numdiv, (a / A(b)).value(), a / b) NZ(numdiv)
T2(plus, (+A(a)).value() + b, a + b) T2(minus, (-A(a)).value() + b, b - a)
T2(mixadd, (A(a) + AI(3)).value() + b, a + 3 + b) T2(mixdiv, (A(a) / AI(4)).value() + b, a / 4 + b)
//@ anchor geometrix/utility/tagged_quantity.hpp operator += -= *= /=
#define OP(n, S, Y) T2(n, ([&] { A x(a); S; return x.value(); }()), Y)
OP(adda, x += A(b), a + b) OP(suba, x -= A(b), a - b) OP(mula, x *= A(b), a * b) OP(diva, x /= A(b), a / b) NZ(diva)
OP(addv, x += b, a + b) OP(subv, x -= b, a - b) OP(mulv, x *= b, a * b) OP(divv, x /= b, a / b) NZ(divv)
OP(chain, (x += b) -= A(2), a + b - 2) OP(chain2, (x *= 2.0) /= A(4), a / 2) OP(assv, x = b, b) OP(assi, x = 3, 3) OP(asst, x = AI(3), 3) OP(copyc, A y(x); x = A(b); x = y, a) OP(fromi, A y(AI(7)); x += y, a + 7)
//@ anchor geometrix/utility/tagged_quantity.hpp swap
OP(swapv, double y = b; x.swap(y); x = x.value() * 2 + y, b * 2 + a) OP(swapt, A y(b); x.swap(y); x = x.value() * 2 + y.value(), b * 2 + a)
T2(boolean, A(a) ? b : 1.0, a != 0 ? b : 1.0)
//@ anchor geometrix/utility/tagged_quantity.hpp relational operators
#define REL(n, o) T2(n##t, A(a) o A(b), a o b) T2(n##v, A(a) o b, a o b) T2(n##w, a o A(b), a o b) T2(n##i, A(a) o AI(2), a o 2)
REL(eq, ==) REL(lt, <) REL(le, <=) REL(gt, >) REL(ge, >=) REL(ne, !=)
//@ anchor geometrix/utility/tagged_quantity.hpp mathematical functions
#define FN(n, F) T2(f_##n, F(A(a)).value() + b, F(a) + b)
using std::sqrt; using std::abs; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan; using std::floor; using std::ceil; using std::exp; using std::log; using std::log10; using std::pow; using std::atan2;
FN(abs, abs) FN(sin, sin) FN(cos, cos) FN(tan, tan) FN(atan, atan) FN(floor, floor) FN(ceil, ceil) FN(exp, exp)
FN(sqrt, sqrt) PRE(f_sqrt, double a, double) { return a >= 0; }
FN(asin, asin) PRE(f_asin, double a, double) { return a >= -1 && a <= 1; }
FN(acos, acos) PRE(f_acos, double a, double) { return a >= -1 && a <= 1; }
FN(log, log) PRE(f_log, double a, double) { return a > 0; }
FN(log10, log10) PRE(f_log10, double a, double) { return a > 0; }
T2(f_pow, pow(A(a), A(b)).value(), pow(a, b)) PRE(f_pow, double a, double) { return a > 0; }
T2(f_pow1, pow(A(a), b).value(), pow(a, b)) PRE(f_pow1, double a, double) { return a > 0; }
T2(f_pow2, pow(a, A(b)).value(), pow(a, b)) PRE(f_pow2, double a, double) { return a > 0; }
T2(f_at, atan2(A(a), A(b)).value(), atan2(a, b)) T2(f_at1, atan2(A(a), b).value(), atan2(a, b)) T2(f_at2, atan2(a, A(b)).value(), atan2(a, b)) T2(f_at3, atan2(A(a), B(b)).value(), atan2(a, b))
//@ anchor geometrix/utility/tagged_quantity.hpp construction_policy
T2(cons, construct<A>(a).value() + b, a + b) 
// ---- a dimensionless quantity mixes with numbers as its value
namespace si = boost::units::si; typedef boost::units::quantity<si::dimensionless,double> D; typedef boost::units::quantity<si::length,double> L;
//@ anchor geometrix/arithmetic/boost_units_arithmetic.hpp dimensionless operators
T2(dadd, (D(a) + b).value(), a + b) T2(dadr, (a + D(b)).value(), a + b) T2(dsub, (D(a) - b).value(), a - b) T2(dsur, (a - D(b)).value(), a - b) T2(daddi, (D(a) + 2).value() + b, a + 2 + b) T2(dsuri, (2 - D(a)).value() + b, 2 - a + b)
//@ anchor geometrix/numeric/boost_units_quantity.hpp construction_policy
T2(cL, construct<L>(a).value() + b, a + b) T2(cLc, construct<const L>(a).value() + b, a + b) T2(cLL, construct<L>(L(a * si::meters)).value() + b, a + b) T2(cdl, construct<double>(D(a)) + b, a + b) T2(czero, constants::zero<L>().value() + a * constants::one<D>().value() + b, a + b)
// a dimensionless quantity that carries an integer or a float takes part with its value, undistorted
//@ anchor geometrix/arithmetic/boost_units_arithmetic.hpp dimensionless operators on other numbers
typedef boost::units::quantity<si::dimensionless,int> DI;
#define TI(n, X, Y) LIB(double, n, int a, double b) { DI q = DI::from_value(a); return X; } REF(double, n, int a, double b) { return Y; } PRE(n, int a, double b) { return a > -1000 && a < 1000; }
TI(iadd, (q + b).value(), a + b) TI(iadr, (b + q).value(), b + a) TI(isub, (q - b).value(), a - b) TI(isur, (b - q).value(), b - a)
TI(ihalf, (q + 0.5).value() + b, a + 0.5 + b) TI(ihals, (0.25 - q).value() + b, 0.25 - a + b) TI(ihalt, (q - 0.75).value() + b, a - 0.75 + b) TI(ihalu, (0.125 + q).value() + b, 0.125 + a + b)
TI(iint, (q + 2).value() + b, a + 2 + b) TI(iins, (7 - q).value() + b, 7 - a + b)
