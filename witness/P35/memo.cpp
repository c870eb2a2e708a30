#include "w.hpp"
#include "hashrt.hpp"
#include <map>
#include <cstddef>
#include <tuple>
#include <utility>
#include <geometrix/utility/memoize.hpp>
struct F { double* calls; double operator()(double a, double b) const { *calls += 1; return a * 3 - b * b; } };
using namespace geometrix;
//@ anchor geometrix/utility/memoize.hpp memoize
LIB(void, memo_two, double* o, double a, double b, double c, double d) { std::map<std::tuple<double,double>,double> m; o[2] = 0; F g = { o + 2 }; auto f = memoize(m, g); o[0] = f(a, b); o[1] = f(c, d); }
REF(void, memo_two, double* o, double a, double b, double c, double d) { o[0] = 3 * a - b * b; o[1] = 3 * c - d * d; o[2] = (a == c && b == d) ? 1 : 2; }
LIB(void, memo_hit, double* o, double a, double b, double c, double d) { std::map<std::tuple<double,double>,double> m; o[2] = 0; F g = { o + 2 }; auto f = memoize(m, g); f(a, b); f(c, d); o[0] = f(a, b); o[1] = f(c, d); }
REF(void, memo_hit, double* o, double a, double b, double c, double d) { o[0] = 3 * a - b * b; o[1] = 3 * c - d * d; o[2] = (a == c && b == d) ? 1 : 2; }
LIB(void, memo_three, double* o, double a, double b) { std::map<std::tuple<double,double>,double> m; o[3] = 0; F g = { o + 3 }; auto f = memoize(m, g); f(a, 1); f(a, 2); f(b, 1); o[0] = f(a, 1); o[1] = f(b, 1); o[2] = f(a, 2); }
REF(void, memo_three, double* o, double a, double b) { o[0] = 3 * a - 1; o[1] = 3 * b - 1; o[2] = 3 * a - 4; o[3] = a == b ? 2 : 3; }
