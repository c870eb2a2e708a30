#include "w.hpp"
#include <cstdint>
#include <boost/range.hpp>
#include <geometrix/utility/random_generator.hpp>
using namespace geometrix;
// a source that hands out v and then 0, so that a draw that has to be repeated ends
template <unsigned M> struct src { typedef unsigned result_type; unsigned v; static constexpr bool has_fixed_range = false; static constexpr unsigned min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr unsigned max BOOST_PREVENT_MACRO_SUBSTITUTION() { return M; } unsigned operator()() { unsigned r = v; v = 0; return r; } };
//@ anchor geometrix/utility/random_generator.hpp random_index_generator
// an index below N for every draw; with a source that has as many values as there are indices every index is drawn
#define RI(n, N, M) LIB(int, ri##n, int a) { src<M> s = {(unsigned)a}; random_index_generator<src<M>> g(N, s); return (int)g(); } \
REF(int, ri##n, int a) { return a < N ? a : 0; } \
PRE(ri##n, int a) { return a >= 0 && a <= M; }
RI(a, 4, 3) RI(b, 4, 4) RI(c, 1, 1) RI(d, 7, 7)
//@ anchor geometrix/utility/random_generator.hpp random_element
LIB(int, re, const double* p, int a) { src<3> s = {(unsigned)a}; random_index_generator<src<3>> g(4, s); boost::iterator_range<const double*> r(p, p+4); return (int)(random_element(r, g) - p); }
REF(int, re, const double* p, int a) { return a; }
PRE(re, const double*, int a) { return a >= 0 && a <= 3; }
