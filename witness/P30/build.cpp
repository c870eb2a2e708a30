#include "geo.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/triangle.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
// every way of building, copying, moving or assigning a primitive stores the coordinates it was given
static void pt(double* o, const P2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
static void pt(double* o, const V2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
static void pt3(double* o, const P3& p) { o[0] = get<0>(p); o[1] = get<1>(p); o[2] = get<2>(p); }
static void pt3(double* o, const V3& p) { o[0] = get<0>(p); o[1] = get<1>(p); o[2] = get<2>(p); }
static P2 at(const double* p, int i) { return P2(p[2*i], p[2*i+1]); }
static P3 at3(const double* p, int i) { return P3(p[3*i], p[3*i+1], p[3*i+2]); }
static void cp(double* o, const double* p, int n) { for (int i = 0; i < n; ++i) o[i] = p[i]; }
//@ anchor geometrix/primitive/segment.hpp constructors, reverse, construct
LIB(void, sg_xy, double* o, const double* p) { S2 s(p[0], p[1], p[2], p[3]); pt(o, s.get_start()); pt(o+2, s.get_end()); S2 r = s.reverse(); pt(o+4, r.get_start()); pt(o+6, r.get_end()); pt(o+8, s.get_start()); }
REF(void, sg_xy, double* o, const double* p) { cp(o, p, 4); cp(o+4, p+2, 2); cp(o+6, p, 2); cp(o+8, p, 2); }
LIB(void, sg_sq, double* o, const double* p) { std::array<P2,2> a = {{at(p,0), at(p,1)}}; S2 s = construct<S2>(a); pt(o, s.get_start()); pt(o+2, s.get_end()); } REF(void, sg_sq, double* o, const double* p) { cp(o, p, 4); }
LIB(void, sg_vq, double* o, const double* p) { std::vector<P2> a; a.push_back(at(p,0)); a.push_back(at(p,1)); S2 s = construct<S2>(a); pt(o, s.get_start()); pt(o+2, s.get_end()); } REF(void, sg_vq, double* o, const double* p) { cp(o, p, 4); }
template <class P> static P mkp(const double* p, int i);
template <> P2 mkp<P2>(const double* p, int i) { return at(p, i); }
template <> P3 mkp<P3>(const double* p, int i) { return at3(p, i); }
template <> point_float_2d mkp<point_float_2d>(const double* p, int i) { return point_float_2d((float)p[2*i], (float)p[2*i+1]); }
template <> point_float_3d mkp<point_float_3d>(const double* p, int i) { return point_float_3d((float)p[3*i], (float)p[3*i+1], (float)p[3*i+2]); }
template <class P> static void o2(double* o, const P& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
template <class P> static void o3(double* o, const P& p) { o[0] = get<0>(p); o[1] = get<1>(p); o[2] = get<2>(p); }
LIB(void, sg_3, double* o, const double* p) { S3 s(at3(p,0), at3(p,1)); o3(o, get_start(s)); o3(o+3, get_end(s)); set_start(s, at3(p,2)); o3(o+6, get_start(s)); o3(o+9, get_end(s)); set_end(s, at3(p,0)); o3(o+12, get_start(s)); o3(o+15, get_end(s)); }
REF(void, sg_3, double* o, const double* p) { cp(o, p, 6); cp(o+6, p+6, 3); cp(o+9, p+3, 3); cp(o+12, p+6, 3); cp(o+15, p, 3); }
LIB(void, sg_i, int* o, const int* p) { typedef segment<point_int_2d> I; I s(point_int_2d(p[0],p[1]), point_int_2d(p[2],p[3])); o[0] = get<0>(get_start(s)); o[1] = get<1>(get_start(s)); o[2] = get<0>(get_end(s)); o[3] = get<1>(get_end(s)); set_start(s, point_int_2d(p[4],p[5])); o[4] = get<0>(get_start(s)); o[5] = get<1>(get_start(s)); o[6] = get<0>(get_end(s)); set_end(s, point_int_2d(p[6],p[7])); o[7] = get<0>(get_start(s)); o[8] = get<1>(get_end(s)); }
REF(void, sg_i, int* o, const int* p) { for (int i = 0; i < 4; ++i) o[i] = p[i]; o[4] = p[4]; o[5] = p[5]; o[6] = p[2]; o[7] = p[4]; o[8] = p[7]; }
LIB(void, sg_i3, int* o, const int* p) { typedef segment<point_int_3d> I; I s(point_int_3d(p[0],p[1],p[2]), point_int_3d(p[3],p[4],p[5])); o[0] = get<2>(get_start(s)); o[1] = get<2>(get_end(s)); set_start(s, point_int_3d(p[6],p[7],p[8])); o[2] = get<0>(get_start(s)); o[3] = get<1>(get_start(s)); o[4] = get<2>(get_start(s)); o[5] = get<0>(get_end(s)); set_end(s, point_int_3d(p[0],p[1],p[2])); o[6] = get<2>(get_end(s)); o[7] = get<2>(get_start(s)); }
REF(void, sg_i3, int* o, const int* p) { o[0] = p[2]; o[1] = p[5]; o[2] = p[6]; o[3] = p[7]; o[4] = p[8]; o[5] = p[3]; o[6] = p[2]; o[7] = p[8]; }
//@ anchor geometrix/primitive/sphere.hpp set_center/set_radius/construct/make_sphere
typedef sphere<2, P2> C2; typedef sphere<3, P3> C3;
LIB(void, sp_set, double* o, const double* p) { C2 s(at(p,0), p[2]); s.set_center(at(p+3,0)); pt(o, s.get_center()); o[2] = s.get_radius(); s.set_radius(p[5]); pt(o+3, get_center(s)); o[5] = get_radius(s); }
REF(void, sp_set, double* o, const double* p) { cp(o, p+3, 2); o[2] = p[2]; cp(o+3, p+3, 3); }
LIB(void, sp_mk, double* o, const double* p) { C2 s = make_sphere<2>(at(p,0), p[2]); pt(o, s.get_center()); o[2] = s.get_radius(); C2 t = construct<C2>(at(p,0), p[2]); pt(o+3, t.get_center()); o[5] = t.get_radius(); C3 u(at3(p,1), p[0]); pt3(o+6, get_center(u)); o[9] = get_radius(u); u.set_center(at3(p,0)); pt3(o+10, get_center(u)); o[13] = get_radius(u); }
REF(void, sp_mk, double* o, const double* p) { cp(o, p, 3); cp(o+3, p, 3); cp(o+6, p+3, 3); o[9] = p[0]; cp(o+10, p, 3); o[13] = p[0]; }
LIB(void, sp_c3, double* o, const double* p) { sphere2_double_3d s(at3(p,0), p[3]); o3(o, s.get_center()); auto c = get_center(s); o3(o+3, construct<P3>(c)); o[6] = get_radius(s); } REF(void, sp_c3, double* o, const double* p) { cp(o, p, 3); cp(o+3, p, 3); o[6] = p[3]; }
//@ anchor geometrix/primitive/capsule.hpp construct
LIB(void, cp_c, double* o, const double* p) { typedef capsule<P2> K; K a = construct<K>(at(p,0), at(p,1), p[4]); pt(o, a.get_segment().get_start()); pt(o+2, a.get_segment().get_end()); o[4] = a.get_radius(); K b = construct<K>(S2(at(p,1), at(p,0)), p[5]); pt(o+5, b.get_segment().get_start()); pt(o+7, b.get_segment().get_end()); o[9] = b.get_radius(); K c; c = b; pt(o+10, c.get_segment().get_start()); o[12] = c.get_radius(); }
REF(void, cp_c, double* o, const double* p) { cp(o, p, 5); cp(o+5, p+2, 2); cp(o+7, p, 2); o[9] = p[5]; cp(o+10, p+2, 2); o[12] = p[5]; }
//@ anchor geometrix/primitive/line.hpp construct/make_line
static void ol(double* o, const line<P2>& l) { pt(o, l.get_reference_point()); pt(o+2, l.get_parallel_vector()); pt(o+4, l.get_normal_vector()); o[6] = l.get_distance_to_origin(); }
LIB(void, ln_c, double* o, const double* p) { typedef line<P2> L; L a = construct<L>(at(p,0), V2(3*p[2],4*p[2])); ol(o, a); L b = make_line(at(p,0), V2(3*p[2],4*p[2])); ol(o+7, b); L c = make_line(at(p,0), P2(p[0]+3*p[2], p[1]+4*p[2])); ol(o+14, c); L d = make_line(S2(at(p,0), P2(p[0]+3*p[2], p[1]+4*p[2]))); ol(o+21, d); L e; e = a; ol(o+28, e); }
REF(void, ln_c, double* o, const double* p) { for (int i = 0; i < 5; ++i, o += 7) { cp(o, p, 2); o[2] = .6; o[3] = .8; o[4] = -.8; o[5] = .6; o[6] = -.8*p[0]+.6*p[1]; } } PRE(ln_c, double*, const double* p) { return p[2] > 0; }
//@ anchor geometrix/primitive/plane.hpp accessors/construct/make_plane
static void opl(double* o, const plane<P3>& l) { pt3(o, l.get_reference_point()); pt3(o+3, l.get_u()); pt3(o+6, l.get_parallel_vector()); pt3(o+9, l.get_normal_vector()); o[12] = l.get_distance_to_origin(); }
typedef plane_access_traits<plane<P3>> PT;
LIB(void, pl_v, double* o, const double* p) { plane<P3> a(at3(p,0), V3(3*p[3],4*p[3],0), V3(0,0,p[4])); opl(o, a); pt3(o+13, PT::get_reference_point(a)); pt3(o+16, PT::get_u(a)); pt3(o+19, PT::get_parallel_vector(a)); }
REF(void, pl_v, double* o, const double* p) { cp(o, p, 3); o[3] = .6; o[4] = .8; o[5] = 0; o[6] = o[7] = 0; o[8] = 1; o[9] = .8; o[10] = -.6; o[11] = 0; o[12] = .8*p[0]-.6*p[1]; cp(o+13, o, 9); } PRE(pl_v, double*, const double* p) { return p[3] > 0 && p[4] > 0; }
LIB(void, pl_p, double* o, const double* p) { P3 a = at3(p,0), b(p[0]+3*p[3], p[1]+4*p[3], p[2]), c(p[0], p[1], p[2]-p[4]); opl(o, plane<P3>(a, b, c)); opl(o+13, make_plane(a, b, c)); opl(o+26, construct<plane<P3>>(a, V3(3*p[3],4*p[3],0), V3(0,0,-p[4]))); plane<P3> q; q = plane<P3>(a, b, c); opl(o+39, q); }
REF(void, pl_p, double* o, const double* p) { for (int i = 0; i < 4; ++i, o += 13) { cp(o, p, 3); o[3] = .6; o[4] = .8; o[5] = 0; o[6] = o[7] = 0; o[8] = -1; o[9] = -.8; o[10] = .6; o[11] = 0; o[12] = -.8*p[0]+.6*p[1]; } } PRE(pl_p, double*, const double* p) { return p[3] > 0 && p[4] > 0; }
//@ anchor geometrix/primitive/triangle.hpp construct
template <class T> static void op(double* o, const T& t) { typedef point_sequence_traits<T> S; o[0] = S::size(t); for (std::size_t i = 0; i < S::size(t); ++i) pt(o+1+2*i, S::get_point(t, i)); }
LIB(void, tr_c, double* o, const double* p) { typedef triangle<P2> T; op(o, construct<T>(at(p,0), at(p,1), at(p,2))); T t(std::array<P2,3>{{at(p,2), at(p,0), at(p,1)}}); op(o+7, t); T u(t); op(o+14, u); u = construct<T>(at(p,0), at(p,1), at(p,2)); op(o+21, u); }
REF(void, tr_c, double* o, const double* p) { for (int i = 0; i < 4; ++i) o[7*i] = 3; cp(o+1, p, 6); cp(o+8, p+4, 2); cp(o+10, p, 4); cp(o+15, o+8, 6); cp(o+22, p, 6); }
//@ anchor geometrix/primitive/rectangle.hpp construct
LIB(void, rc_c, double* o, const double* p) { typedef rectangle<P2> T; op(o, construct<T>(at(p,0), at(p,1), at(p,2), at(p,3))); T t(std::array<P2,4>{{at(p,3), at(p,0), at(p,1), at(p,2)}}); op(o+9, t); }
REF(void, rc_c, double* o, const double* p) { o[0] = o[9] = 4; cp(o+1, p, 8); cp(o+10, p+6, 2); cp(o+12, p, 6); }
//@ anchor geometrix/primitive/polygon.hpp constructors and assignments
//@ anchor geometrix/primitive/polyline.hpp constructors and assignments
typedef std::vector<P2> VP;
static VP vp(const double* p, int n) { VP v; for (int i = 0; i < n; ++i) v.push_back(at(p, i)); return v; }
static void rp(double* o, const double* p, int n) { o[0] = n; cp(o+1, p, 2*n); }
template <class T> static void ctor(double* o, const double* p) {
 { T a(vp(p, 3)); op(o, a); } { VP v = vp(p, 3); T a(v); op(o+7, a); op(o+14, v); } { T a{at(p,0), at(p,1), at(p,2)}; op(o+21, a); T b(a); op(o+28, b); T c(std::move(b)); op(o+35, c); } { VP v = vp(p, 4); T a(v.begin()+1, v.end()); op(o+42, a); } { T a(construct<T>(vp(p, 3))); op(o+49, a); } }
static void rctor(double* o, const double* p) { for (int i = 0; i < 6; ++i) rp(o+7*i, p, 3); rp(o+42, p+2, 3); rp(o+49, p, 3); }
template <class T> static void asg(double* o, const double* p) { T z{at(p,3)};
 { T a(z); a = vp(p, 3); op(o, a); } { VP v = vp(p, 3); T a(z); a = v; op(o+7, a); op(o+14, v); } { T a(z); a = {at(p,0), at(p,1), at(p,2)}; op(o+21, a); T b(z); b = a; op(o+28, b); op(o+35, a); T c(z); c = std::move(b); op(o+42, c); } { T a(2); a[0] = at(p,0); a[1] = at(p,1); a.push_back(at(p,2)); op(o+49, a); } }
static void rasg(double* o, const double* p) { for (int i = 0; i < 8; ++i) rp(o+7*i, p, 3); }
LIB(void, pg_ctor, double* o, const double* p) { ctor<polygon<P2>>(o, p); } REF(void, pg_ctor, double* o, const double* p) { rctor(o, p); }
LIB(void, pl_ctor, double* o, const double* p) { ctor<polyline<P2>>(o, p); } REF(void, pl_ctor, double* o, const double* p) { rctor(o, p); }
LIB(void, pg_asg, double* o, const double* p) { asg<polygon<P2>>(o, p); } REF(void, pg_asg, double* o, const double* p) { rasg(o, p); }
LIB(void, pl_asg, double* o, const double* p) { asg<polyline<P2>>(o, p); } REF(void, pl_asg, double* o, const double* p) { rasg(o, p); }
//@ anchor geometrix/primitive/polygon_with_holes.hpp constructors and assignments
typedef polygon_with_holes<P2> PH; typedef polygon<P2> PG; typedef std::vector<PG> HV;
static void oh(double* o, const PH& h) { op(o, h.get_outer()); o[7] = h.get_holes().size(); for (std::size_t i = 0; i < h.get_holes().size(); ++i) op(o+8+7*i, h.get_holes()[i]); }
static PG pgn(const double* p) { return PG(vp(p, 3)); }
static HV hv(const double* p) { HV h; h.push_back(pgn(p)); return h; }
static void rh(double* o, const double* p, bool holes) { rp(o, p, 3); o[7] = holes; if (holes) rp(o+8, p+6, 3); }
LIB(void, ph_mm, double* o, const double* p) { oh(o, PH(pgn(p), hv(p+6))); } REF(void, ph_mm, double* o, const double* p) { rh(o, p, true); }
LIB(void, ph_cm, double* o, const double* p) { PG g = pgn(p); oh(o, PH(g, hv(p+6))); op(o+15, g); } REF(void, ph_cm, double* o, const double* p) { rh(o, p, true); rp(o+15, p, 3); }
LIB(void, ph_mc, double* o, const double* p) { HV h = hv(p+6); oh(o, PH(pgn(p), h)); o[15] = h.size(); op(o+16, h[0]); } REF(void, ph_mc, double* o, const double* p) { rh(o, p, true); o[15] = 1; rp(o+16, p+6, 3); }
LIB(void, ph_cc, double* o, const double* p) { HV h = hv(p+6); PG g = pgn(p); oh(o, PH(g, h)); o[15] = h.size(); op(o+16, h[0]); op(o+23, g); } REF(void, ph_cc, double* o, const double* p) { rh(o, p, true); o[15] = 1; rp(o+16, p+6, 3); rp(o+23, p, 3); }
LIB(void, ph_1, double* o, const double* p) { PG g = pgn(p); oh(o, PH(g)); op(o+8, g); oh(o+15, PH(pgn(p))); } REF(void, ph_1, double* o, const double* p) { rh(o, p, false); rp(o+8, p, 3); rh(o+15, p, false); }
LIB(void, ph_cp, double* o, const double* p) { PH a(pgn(p), hv(p+6)); PH b(a); oh(o, a); oh(o+15, b); PH c(std::move(b)); oh(o+30, c); PH d(pgn(p+6)); d = a; oh(o+45, d); PH e(pgn(p+6)); e = std::move(d); oh(o+60, e); } REF(void, ph_cp, double* o, const double* p) { for (int i = 0; i < 5; ++i) rh(o+15*i, p, true); }
LIB(void, ph_set, double* o, const double* p) { PH a(pgn(p), hv(p+6)); a.set_outer(pgn(p+6)); op(o, a.get_outer()); o[7] = a.get_holes().size(); op(o+8, a.get_holes()[0]); a.get_outer()[1] = at(p, 0); op(o+15, a.get_outer()); a.get_holes().push_back(pgn(p)); o[22] = a.get_holes().size(); op(o+23, a.get_holes()[1]); } REF(void, ph_set, double* o, const double* p) { rp(o, p+6, 3); o[7] = 1; rp(o+8, p+6, 3); rp(o+15, p+6, 3); o[18] = p[0]; o[19] = p[1]; o[22] = 2; rp(o+23, p, 3); }
//@ anchor geometrix/primitive/point_sequence_traits.hpp writable sequences
template <class Seq> static void wseq(double* o, const double* p, Seq s) { typedef point_sequence_traits<Seq> T; T::front(s) = at(p, 3); T::back(s) = at(p, 4); T::get_point(s, 1) = at(p, 5); int n = 0; for (auto it = T::begin(s); it != T::end(s); ++it) pt(o+2*n++, *it); *T::rbegin(s) = at(p, 6); *T::begin(s) = at(p, 7); for (auto it = T::rbegin(s); it != T::rend(s); ++it) pt(o+2*n++, *it); }
static void rwseq(double* o, const double* p) { cp(o, p+6, 2); cp(o+2, p+10, 2); cp(o+4, p+8, 2); cp(o+6, p+12, 2); cp(o+8, p+10, 2); cp(o+10, p+14, 2); }
LIB(void, w_v, double* o, const double* p) { wseq(o, p, vp(p, 3)); } REF(void, w_v, double* o, const double* p) { rwseq(o, p); }
LIB(void, w_d, double* o, const double* p) { std::deque<P2> s; for (int i = 0; i < 3; ++i) s.push_back(at(p, i)); wseq(o, p, s); } REF(void, w_d, double* o, const double* p) { rwseq(o, p); }
LIB(void, w_a, double* o, const double* p) { std::array<P2,3> s = {{at(p,0), at(p,1), at(p,2)}}; wseq(o, p, s); } REF(void, w_a, double* o, const double* p) { rwseq(o, p); }
LIB(void, w_pg, double* o, const double* p) { wseq(o, p, PG(vp(p, 3))); } REF(void, w_pg, double* o, const double* p) { rwseq(o, p); }
LIB(void, w_pl, double* o, const double* p) { wseq(o, p, polyline<P2>(vp(p, 3))); } REF(void, w_pl, double* o, const double* p) { rwseq(o, p); }
LIB(void, w_grow, double* o, const double* p) { typedef point_sequence_traits<VP> T; VP v; T::push_back(v, at(p,0)); T::emplace_back(v, at(p,1)); T::push_back(v, at(p,2)); op(o, v); T::pop_back(v); T::emplace_back(v, at(p,0)); op(o+7, v); } REF(void, w_grow, double* o, const double* p) { rp(o, p, 3); rp(o+7, p, 3); cp(o+12, p, 2); }
