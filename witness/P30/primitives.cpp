#include "geo.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/triangle.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
static void pt(double* o, const P2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
static void pt(double* o, const V2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
static P2 at(const double* p, int i) { return P2(p[2*i], p[2*i+1]); }
static void cp(double* o, const double* p, int n) { for (int i = 0; i < n; ++i) o[i] = p[i]; }
//@ anchor geometrix/primitive/segment_traits.hpp get_start/get_end/set_start/set_end
LIB(void, seg, double* o, const double* p) { S2 s(at(p,0), at(p,1)); pt(o, get_start(s)); pt(o+2, get_end(s)); set_start(s, at(p,2)); pt(o+4, s.get_start()); pt(o+6, s.get_end()); set_end(s, at(p,3)); pt(o+8, s.get_start()); pt(o+10, s.get_end()); S2 t = construct<S2>(at(p,1), at(p,0)); pt(o+12, t.get_start()); pt(o+14, t.get_end()); }
REF(void, seg, double* o, const double* p) { cp(o, p, 4); cp(o+4, p+4, 2); cp(o+6, p+2, 2); cp(o+8, p+4, 4); cp(o+12, p+2, 2); cp(o+14, p, 2); }
LIB(void, segd, double* o, const double* p) { S2 s = make_segment(at(p,0), at(p,1)); pt(o, s.get_start()); pt(o+2, s.get_end()); S2 t; t = s; set_start(t, at(p,2)); pt(o+4, s.get_start()); pt(o+6, t.get_start()); } REF(void, segd, double* o, const double* p) { cp(o, p, 4); cp(o+4, p, 2); cp(o+6, p+4, 2); }
//@ anchor geometrix/primitive/sphere.hpp accessors
typedef sphere<2, P2> C2;
LIB(void, sph, double* o, double x, double y, double r) { C2 s(P2(x,y), r); pt(o, s.get_center()); o[2] = s.get_radius(); pt(o+3, get_center(s)); o[5] = get_radius(s); } REF(void, sph, double* o, double x, double y, double r) { o[0] = o[3] = x; o[1] = o[4] = y; o[2] = o[5] = r; }
//@ anchor geometrix/primitive/capsule.hpp accessors
LIB(void, cap, double* o, const double* p, double r) { capsule<P2> c(at(p,0), at(p,1), r); pt(o, c.get_segment().get_start()); pt(o+2, capsule_access_traits<capsule<P2>>::get_segment(c).get_end()); o[4] = capsule_access_traits<capsule<P2>>::get_radius(c); capsule<P2> d(S2(at(p,1), at(p,0)), r); pt(o+5, d.get_segment().get_start()); o[7] = d.get_radius(); } REF(void, cap, double* o, const double* p, double r) { cp(o, p, 4); o[4] = r; cp(o+5, p+2, 2); o[7] = r; }
//@ anchor geometrix/primitive/line.hpp accessors
typedef line_access_traits<line<P2>> LT;
// a line keeps its point, its unit direction, the left normal of it and its offset along that normal
LIB(void, lin, double* o, const double* p) { line<P2> l(at(p,0), V2(3*p[2],4*p[2])); pt(o, LT::get_reference_point(l)); pt(o+2, LT::get_parallel_vector(l)); pt(o+4, LT::get_normal_vector(l)); o[6] = l.get_distance_to_origin(); } REF(void, lin, double* o, const double* p) { cp(o, p, 2); o[2] = .6; o[3] = .8; o[4] = -.8; o[5] = .6; o[6] = -.8*p[0]+.6*p[1]; } PRE(lin, double*, const double* p) { return p[2] > 0; }
LIB(void, lin2, double* o, const double* p) { line<P2> l(at(p,0), P2(p[0]-4*p[2],p[1]+3*p[2])); pt(o, LT::get_reference_point(l)); pt(o+2, LT::get_parallel_vector(l)); pt(o+4, LT::get_normal_vector(l)); o[6] = l.get_distance_to_origin(); line<P2> m(S2(at(p,0), P2(p[0]-4*p[2],p[1]+3*p[2]))); pt(o+7, m.get_reference_point()); pt(o+9, m.get_parallel_vector()); o[11] = m.get_distance_to_origin(); } REF(void, lin2, double* o, const double* p) { cp(o, p, 2); cp(o+7, p, 2); o[2] = o[9] = -.8; o[3] = o[10] = .6; o[4] = -.6; o[5] = -.8; o[6] = o[11] = -.6*p[0]-.8*p[1]; } PRE(lin2, double*, const double* p) { return p[2] > 0; }
//@ anchor geometrix/primitive/triangle.hpp vertices
LIB(void, tri, double* o, const double* p) { triangle<P2> t(at(p,0), at(p,1), at(p,2)); o[0] = point_sequence_traits<triangle<P2>>::size(t); for (int i = 0; i < 3; ++i) pt(o+1+2*i, point_sequence_traits<triangle<P2>>::get_point(t, i)); } REF(void, tri, double* o, const double* p) { o[0] = 3; cp(o+1, p, 6); }
//@ anchor geometrix/primitive/rectangle.hpp vertices
LIB(void, rec, double* o, const double* p) { rectangle<P2> t(at(p,0), at(p,1), at(p,2), at(p,3)); o[0] = point_sequence_traits<rectangle<P2>>::size(t); for (int i = 0; i < 4; ++i) pt(o+1+2*i, point_sequence_traits<rectangle<P2>>::get_point(t, i)); } REF(void, rec, double* o, const double* p) { o[0] = 4; cp(o+1, p, 8); }
//@ anchor geometrix/primitive/point_sequence_traits.hpp sequences
template <class Seq> static void seqs(double* o, const Seq& s) { typedef point_sequence_traits<Seq> T; o[0] = T::size(s); o[1] = T::empty(s); int n = 0; for (auto it = T::begin(s); it != T::end(s); ++it) pt(o+2+2*n++, *it); for (std::size_t i = 0; i < T::size(s); ++i) pt(o+12+2*i, T::get_point(s, i)); pt(o+22, T::front(s)); pt(o+24, T::back(s)); n = 0; for (auto it = T::rbegin(s); it != T::rend(s); ++it) pt(o+26+2*n++, *it); }
static void rseqs(double* o, const double* p, int n) { o[0] = n; o[1] = n == 0; for (int i = 0; i < n; ++i) { cp(o+2+2*i, p+2*i, 2); cp(o+12+2*i, p+2*i, 2); cp(o+26+2*i, p+2*(n-1-i), 2); } cp(o+22, p, 2); cp(o+24, p+2*(n-1), 2); }
template <class Seq> static Seq fill(const double* p, int n) { Seq s; for (int i = 0; i < n; ++i) s.push_back(at(p, i)); return s; }
typedef std::array<P2,4> A4; typedef boost::array<P2,3> B3;
LIB(void, s_pl, double* o, const double* p) { seqs(o, fill<polyline<P2>>(p, 4)); } REF(void, s_pl, double* o, const double* p) { rseqs(o, p, 4); }
LIB(void, s_pg, double* o, const double* p) { seqs(o, fill<polygon<P2>>(p, 5)); } REF(void, s_pg, double* o, const double* p) { rseqs(o, p, 5); }
LIB(void, s_v, double* o, const double* p) { seqs(o, fill<std::vector<P2>>(p, 3)); } REF(void, s_v, double* o, const double* p) { rseqs(o, p, 3); }
LIB(void, s_a, double* o, const double* p) { A4 a = {{at(p,0), at(p,1), at(p,2), at(p,3)}}; seqs(o, a); } REF(void, s_a, double* o, const double* p) { rseqs(o, p, 4); }
template <class A, int N> static A afill(const double* p) { A a; for (int i = 0; i < N; ++i) a[i] = at(p, i); return a; }
#define ARR(n, N) LIB(void, n, double* o, const double* p) { seqs(o, afill<std::array<P2,N>,N>(p)); } REF(void, n, double* o, const double* p) { rseqs(o, p, N); }
ARR(s_a1, 1) ARR(s_a2, 2) ARR(s_a3, 3) ARR(s_a5, 5)
template <class A, int N> static void ends(double* o, const double* p) { A a = afill<A,N>(p); const A& c = a; typedef point_sequence_traits<A> T; pt(o, T::front(c)); pt(o+2, T::back(c)); pt(o+4, T::get_point(c, N-2)); T::back(a) = at(p, N); T::front(a) = at(p, N+1); T::get_point(a, 1) = at(p, N+2); for (int i = 0; i < N; ++i) pt(o+6+2*i, a[i]); o[6+2*N] = T::size(c); }
static void rends(double* o, const double* p, int N) { cp(o, p, 2); cp(o+2, p+2*(N-1), 2); cp(o+4, p+2*(N-2), 2); for (int i = 0; i < N; ++i) cp(o+6+2*i, p+2*(i == N-1 ? N : i == 0 ? N+1 : i == 1 ? N+2 : i), 2); o[6+2*N] = N; }
#define ENDS(n, N) LIB(void, n, double* o, const double* p) { ends<std::array<P2,N>,N>(o, p); } REF(void, n, double* o, const double* p) { rends(o, p, N); }
ENDS(s_e3, 3) ENDS(s_e6, 6) ENDS(s_e9, 9)
LIB(void, s_d, double* o, const double* p) { seqs(o, fill<std::deque<P2>>(p, 2)); } REF(void, s_d, double* o, const double* p) { rseqs(o, p, 2); }
