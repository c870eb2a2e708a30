//@ grow geometrix/primitive/array_point_sequence.hpp geometrix/primitive/vector_point_sequence.hpp geometrix/primitive/deque_point_sequence.hpp geometrix/primitive/polygon.hpp geometrix/primitive/polyline.hpp geometrix/primitive/point_sequence_traits.hpp
#include "geo.hpp"
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include "grow.hpp"
// every member of a sequence of any length is read and written at its place
static void put(double* o, const P2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
template <class S> static void look(double* o, S s, const double* q) { typedef point_sequence_traits<S> T; const S& c = s; o[0] = T::size(c); o[1] = T::empty(c); put(o+2, T::front(c)); put(o+4, T::back(c)); double* e = o + 6;
  for (int i = 0; i < SZ; ++i) { put(e, T::get_point(c, i)); e += 2; } for (auto it = T::begin(c); it != T::end(c); ++it) { put(e, *it); e += 2; } for (auto it = T::rbegin(c); it != T::rend(c); ++it) { put(e, *it); e += 2; }
  T::back(s) = P2(q[0],q[1]); T::front(s) = P2(q[2],q[3]); T::get_point(s, SZ/2) = P2(q[4],q[5]); for (int i = 0; i < SZ; ++i) { put(e, T::get_point(c, i)); e += 2; } }
static void want(double* o, const double* p, const double* q) { o[0] = SZ; o[1] = 0; put(o+2, P2(p[0],p[1])); put(o+4, P2(p[2*SZ-2],p[2*SZ-1])); double* e = o + 6;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 2*SZ; ++i) *e++ = p[i]; for (int i = SZ-1; i >= 0; --i) { *e++ = p[2*i]; *e++ = p[2*i+1]; }
  for (int i = 0; i < SZ; ++i) for (int k = 0; k < 2; ++k) *e++ = i == SZ/2 ? q[4+k] : i == 0 ? q[2+k] : i == SZ-1 ? q[k] : p[2*i+k]; }
#define LOOK(n, ...) LIB(void, n, double* o, const double* p, const double* q) { look(o, __VA_ARGS__, q); } REF(void, n, double* o, const double* p, const double* q) { want(o, p, q); }
//@ anchor geometrix/primitive/array_point_sequence.hpp point_sequence_traits
LOOK(ga, arr(p))
//@ anchor geometrix/primitive/vector_point_sequence.hpp point_sequence_traits
LOOK(gv, fillp<std::vector<P2>>(p))
//@ anchor geometrix/primitive/deque_point_sequence.hpp point_sequence_traits
LOOK(gd, fillp<std::deque<P2>>(p))
//@ anchor geometrix/primitive/polygon.hpp polygon
LOOK(gg, fillp<polygon<P2>>(p))
//@ anchor geometrix/primitive/polyline.hpp polyline
LOOK(gl, fillp<polyline<P2>>(p))
