//@ flags -fno-builtin
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <set>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
typedef std::vector<S2> SV;
typedef solid_leaf_bsp_tree<S2> BSP;
static SV ring(const double* p, int n) { SV r; for (int i = 0; i < n; ++i) { int j = i+1 == n ? 0 : i+1; r.push_back(S2(P2(p[2*i],p[2*i+1]), P2(p[2*j],p[2*j+1]))); } return r; }
static partition_policies::scored_selector_policy<identity_simplex_extractor, EXACT> pol() { return partition_policies::scored_selector_policy<identity_simplex_extractor, EXACT>(identity_simplex_extractor(), EXACT()); }
// an L: 0..6 x 0..6 without 3..6 x 2..6; a square; a U
static const double ELL[12] = {0,0, 6,0, 6,2, 3,2, 3,6, 0,6}, SQR[8] = {0,0, 4,0, 4,4, 0,4}, UU[16] = {0,0, 6,0, 6,5, 4,5, 4,2, 2,2, 2,5, 0,5};
static const double ZED[16] = {0,0, 4,0, 4,2, 7,2, 7,4, 3,4, 3,2, 0,2}, ZZZ[16] = {0,2, 4,2, 4,0, 7,0, 7,4, 3,4, 3,6, 0,6}, SAW[20] = {0,0, 9,0, 9,2, 7,4, 6,2, 5,2, 4,4, 3,2, 2,2, 0,3};
static int zed(double x, double y) { bool a = x >= 0 && x <= 4 && y >= 0 && y <= 2, b = x >= 3 && x <= 7 && y >= 2 && y <= 4; if (!a && !b) return 1; if ((x > 0 && x < 4 && y > 0 && y < 2) || (x > 3 && x < 7 && y > 2 && y < 4) || (y == 2 && x > 3 && x < 4)) return -1; return 0; }
static int ell(double x, double y) { if (x > 0 && y > 0 && ((x < 6 && y < 2) || (x < 3 && y < 6))) return -1; if (x >= 0 && y >= 0 && ((x <= 6 && y <= 2) || (x <= 3 && y <= 6))) return 0; return 1; }
static int sqr(double x, double y) { if (x > 0 && y > 0 && x < 4 && y < 4) return -1; return x >= 0 && y >= 0 && x <= 4 && y <= 4 ? 0 : 1; }
static int uu(double x, double y) { bool in = x >= 0 && y >= 0 && x <= 6 && y <= 5 && !(x > 2 && x < 4 && y > 2); if (!in) return 1; return x > 0 && y > 0 && x < 6 && y < 5 && !(x >= 2 && x <= 4 && y >= 2) ? -1 : 0; }
static SV flip(const SV& a) { SV r; for (std::size_t i = a.size(); i-- > 0;) r.push_back(S2(a[i].get_end(), a[i].get_start())); return r; }
static SV solid(const double* p, int n) { return flip(ring(p, n)); }
#define IN(n, S, N, f) LIB(int, in##n, double u, double v) { BSP t(solid(S,N), pol(), EXACT(), identity_simplex_extractor()); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, in##n, double u, double v) { return f(u,v); } \
LIB(int, rm##n, double u, double v) { BSP t(ring(S,N), partition_policies::autopartition_policy(), EXACT(), identity_simplex_extractor()); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, rm##n, double u, double v) { return -f(u,v); } \
LIB(int, is##n, double u, double v) { BSP t(solid(S,N), partition_policies::autopartition_policy(), EXACT()); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, is##n, double u, double v) { return f(u,v); } \
LIB(int, rs##n, double u, double v) { BSP t(ring(S,N), pol(), EXACT()); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, rs##n, double u, double v) { return -f(u,v); }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp point_in_solid_space
IN(ell, ELL, 6, ell) IN(sqr, SQR, 4, sqr) IN(uu, UU, 8, uu) IN(zed, ZED, 8, zed)
// any simple polygon: on an edge, else by the parity of the crossings of a ray
template <int N> static int loc(const double* p, double x, double y) { bool in = false; for (int i = 0; i < N; ++i) { int j = (i+1)%N; double ax = p[2*i], ay = p[2*i+1], bx = p[2*j], by = p[2*j+1], c = (bx-ax)*(y-ay) - (by-ay)*(x-ax);
  if (c == 0 && (x-ax)*(x-bx) <= 0 && (y-ay)*(y-by) <= 0) return 0; if ((ay <= y) != (by <= y) && (by > ay ? c > 0 : c < 0)) in = !in; } return in ? -1 : 1; }
static const double TRG[6] = {0,0, 5,1, 2,4}, DIA[8] = {2,0, 4,3, 2,5, 0,2}, ARR[8] = {0,0, 4,2, 0,4, 1,2}, STAR[12] = {0,0, 3,1, 6,0, 4,3, 3,6, 2,3};
#define LOC(n, S, N) static int l##n(double x, double y) { return loc<N>(S,x,y); } IN(n, S, N, l##n)
LOC(trg, TRG, 3) LOC(dia, DIA, 4) LOC(arr, ARR, 4)
#define LU(n, S, N, X, Y) LIB(int, lu##n, double u) { BSP t(solid(S,N), pol(), EXACT()); return (int)t.point_in_solid_space(P2(X,Y), EXACT()); } REF(int, lu##n, double u) { return loc<N>(S,X,Y); }
LU(a, SAW, 10, u, 1) LU(b, SAW, 10, u, 2) LU(c, SAW, 10, 3, u) LU(d, SAW, 10, u, u) LU(e, STAR, 6, u, 1) LU(f, STAR, 6, u, 3) LU(g, STAR, 6, 3, u) LU(h, STAR, 6, u, u)
// the nearest face of the solid, and how far it is
static double segd2(const double* p, int N, int i, double x, double y) { int j = i+1 == N ? 0 : i+1; double ax = p[2*i], ay = p[2*i+1], dx = p[2*j]-ax, dy = p[2*j+1]-ay, l = dx*dx+dy*dy, t = (x-ax)*dx + (y-ay)*dy; if (t <= 0) return sq(x-ax)+sq(y-ay); if (t >= l) return sq(x-ax-dx)+sq(y-ay-dy); double c = dx*(y-ay)-dy*(x-ax); return c*c/l; }
#define DU(n, S, N, X, Y) LIB(double, du##n, double u) { BSP t(ring(S,N), pol(), EXACT()); std::size_t k = 0; return t.get_min_distance_sqrd_to_solid(P2(X,Y), k, EXACT()); } REF(double, du##n, double u) { double m = segd2(S,N,0,X,Y); for (int i = 1; i < N; ++i) { double d = segd2(S,N,i,X,Y); if (d < m) m = d; } return m; } \
LIB(bool, dk##n, double u) { BSP t(ring(S,N), partition_policies::autopartition_policy(), EXACT()); std::size_t k = 0; double d = t.get_min_distance_sqrd_to_solid(P2(X,Y), k, EXACT()); return k < N && d == segd2(S,N,(int)k,X,Y); } REF(bool, dk##n, double u) { return true; }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp get_min_distance_sqrd_to_solid
DU(a, ELL, 6, u, 1) DU(b, ELL, 6, 4, u) DU(c, ZED, 8, u, 3) DU(d, ELL, 6, u, u) DU(e, TRG, 3, u, 1) DU(f, ARR, 4, u, 2) DU(g, DIA, 4, 1, u) DU(h, UU, 8, 3, u) DU(i, SQR, 4, u, u)
// the first solid point along a ray that does not run along a face
template <int N> static void hit(int* o, double* q, const double* p, double x, double y, double dx, double dy) { double best = -1; for (int i = 0; i < N; ++i) { int j = (i+1)%N; double ax = p[2*i], ay = p[2*i+1], bx = p[2*j], by = p[2*j+1], s = dx*(ay-y)-dy*(ax-x), e = dx*(by-y)-dy*(bx-x);
  if ((s <= 0 && e >= 0) || (s >= 0 && e <= 0)) if (s != e) { double w = s/(s-e), hx = ax+(bx-ax)*w-x, hy = ay+(by-ay)*w-y, t = (hx*dx+hy*dy)/(dx*dx+dy*dy); if (t >= 0 && (best < 0 || t < best)) best = t; } }
  if (loc<N>(p,x,y) <= 0) best = 0; o[0] = best >= 0; q[0] = best >= 0 ? best : 0; }
template <int N> static bool runs(const double* p, double x, double y, double dx, double dy) { bool r = false; for (int i = 0; i < N; ++i) { int j = (i+1)%N; r = r || (dx*(p[2*j+1]-p[2*i+1]) == dy*(p[2*j]-p[2*i]) && dx*(p[2*i+1]-y) == dy*(p[2*i]-x)); } return r; }
#define RU(n, S, N, X, Y, DX, DY) LIB(void, ru##n, int* o, double* q, double u) { BSP t(solid(S,N), pol(), EXACT()); auto r = t.ray_intersection(P2(X,Y), V2(DX,DY), EXACT()); o[0] = r.is_intersecting(); q[0] = r.is_intersecting() ? r.intersection_distance() : 0; } \
REF(void, ru##n, int* o, double* q, double u) { hit<N>(o, q, S, X, Y, DX, DY); } PRE(ru##n, int* o, double* q, double u) { return !runs<N>(S, X, Y, DX, DY); } \
LIB(bool, rk##n, double u) { auto s = ring(S,N); BSP t(s, partition_policies::autopartition_policy(), EXACT()); auto r = t.ray_intersection(P2(X,Y), V2(DX,DY), EXACT()); double h = r.is_intersecting() ? r.intersection_distance() : 0; if (!(h > 0)) return true; unsigned k = r.get_data(); bool ok = k < N; return segd2(S,N,ok ? (int)k : 0,X+h*DX,Y+h*DY) == 0 && ok; } REF(bool, rk##n, double u) { return true; } PRE(rk##n, double u) { return !runs<N>(S, X, Y, DX, DY); }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp ray_intersection
RU(a, SQR, 4, -1, u, 1, 0) RU(b, ELL, 6, 8, u, -1, 0) RU(c, UU, 8, u, 9, 0, -1) RU(d, TRG, 3, u, -1, 0, 1) RU(e, ARR, 4, 9, u, -1, 0) RU(f, SAW, 10, u, 9, 0, -1)
RU(g, SQR, 4, u, 1, 1, 0) RU(h, ELL, 6, u, 5, -2, -1) RU(i, ZED, 8, u, 6, -1, -2) RU(j, TRG, 3, u, 3, 1, -1) RU(k, ARR, 4, u, u, 1, 0) RU(l, STAR, 6, 6, u, -3, -1) RU(m, DIA, 4, 3, u, 0, -1) RU(n, ELL, 6, 7, 7, u, -1) RU(o, ARR, 4, 1, 5, u, -2)
// a room with a pillar, and a room with a wall of no thickness
static const double BOX8[8] = {-1,-1, 8,-1, 8,8, -1,8};
static SV both(SV a, const SV& b) { for (std::size_t i = 0; i < b.size(); ++i) a.push_back(b[i]); return a; }
static int pillar(double x, double y) { int a = loc<4>(BOX8,x,y), b = loc<4>(SQR,x,y); return a == 0 || b == 0 ? 0 : a > 0 || b < 0 ? -1 : 1; }
static int walled(double x, double y) { return x == 3 && y >= 1 && y <= 4 ? 2 : -loc<4>(BOX8,x,y); }
#define PW(n, P) LIB(int, pw##n, double u, double v) { BSP t(both(ring(BOX8,4), solid(SQR,4)), P, EXACT()); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, pw##n, double u, double v) { return pillar(u,v); } \
LIB(int, ww##n, double u, double v) { SV w; w.push_back(S2(P2(3,1),P2(3,4))); w.push_back(S2(P2(3,4),P2(3,1))); BSP t(both(w, ring(BOX8,4)), P, EXACT()); int r = (int)t.point_in_solid_space(P2(u,v), EXACT()); return walled(u,v) == 2 ? 2 : r; } REF(int, ww##n, double u, double v) { return walled(u,v); } \
LIB(int, wo##n, double u, double v) { SV w; w.push_back(S2(P2(3,1),P2(3,4))); w.push_back(S2(P2(3,4),P2(3,1))); BSP t(w, P, EXACT()); int r = (int)t.point_in_solid_space(P2(u,v), EXACT()); return u == 3 ? 1 : r; } REF(int, wo##n, double u, double v) { return 1; }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp build_tree
PW(s, pol()) PW(a, partition_policies::autopartition_policy())
// a border hit: where a ray first meets a face, also when it starts within the solid
template <int N> static bool corner(const double* p, double x, double y, double dx, double dy) { bool r = loc<N>(p,x,y) == 0; for (int i = 0; i < N; ++i) r = r || dx*(p[2*i+1]-y) == dy*(p[2*i]-x); return r; }
template <int N> static void edge(int* o, double* q, const double* p, double x, double y, double dx, double dy) { double best = -1; for (int i = 0; i < N; ++i) { int j = (i+1)%N; double ax = p[2*i], ay = p[2*i+1], bx = p[2*j], by = p[2*j+1], s = dx*(ay-y)-dy*(ax-x), e = dx*(by-y)-dy*(bx-x);
  if ((s < 0 && e > 0) || (s > 0 && e < 0)) { double w = s/(s-e), hx = ax+(bx-ax)*w-x, hy = ay+(by-ay)*w-y, t = (hx*dx+hy*dy)/(dx*dx+dy*dy); if (t >= 0 && (best < 0 || t < best)) best = t; } } o[0] = best >= 0; q[0] = best >= 0 ? best : 0; }
#define RB(n, S, N, X, Y, DX, DY) LIB(void, rb##n, int* o, double* q, double u) { BSP t(solid(S,N), pol(), EXACT()); auto r = t.ray_intersection_only_border(P2(X,Y), V2(DX,DY), EXACT()); o[0] = r.is_intersecting(); q[0] = r.is_intersecting() ? r.intersection_distance() : 0; } \
REF(void, rb##n, int* o, double* q, double u) { edge<N>(o, q, S, X, Y, DX, DY); } PRE(rb##n, int* o, double* q, double u) { return !corner<N>(S, X, Y, DX, DY); }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp ray_intersection_only_border
RB(a, SQR, 4, u, 1, 1, 0) RB(b, ELL, 6, u, 1, 1, 0) RB(c, ELL, 6, 1, u, 0, 1) RB(d, UU, 8, u, 1, 0, 1) RB(e, TRG, 3, u, 1, 1, 1) RB(f, ARR, 4, u, 2, 1, 0) RB(g, ZED, 8, u, 1, 0, 1) RB(h, SAW, 10, 8, u, -1, 0) RB(i, STAR, 6, u, 2, 0, 1)
// a tree moved or assigned over answers like the one it came from
#define MVT(n, S, N) LIB(int, mv##n, double u, double v) { BSP a(solid(S,N), pol(), EXACT()); BSP b(std::move(a)); BSP t; t = std::move(b); return (int)t.point_in_solid_space(P2(u,v), EXACT()); } REF(int, mv##n, double u, double v) { return l##n(u,v); }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp operator =
MVT(arr, ARR, 4) MVT(trg, TRG, 3)
#define MD(n, S, N, X, Y) LIB(double, md##n, double u) { BSP a(ring(S,N), pol(), EXACT()); BSP b(std::move(a)); BSP t; t = std::move(b); std::size_t k = 0; return t.get_min_distance_to_solid(P2(X,Y), k, EXACT()); } REF(double, md##n, double u) { double m = segd2(S,N,0,X,Y); for (int i = 1; i < N; ++i) { double d = segd2(S,N,i,X,Y); if (d < m) m = d; } return sqrt(m); }
//@ anchor geometrix/algorithm/solid_leaf_bsp_tree.hpp get_min_distance_to_solid
MD(a, ELL, 6, u, 1) MD(b, ARR, 4, u, 2) MD(c, TRG, 3, 2, u)
#define MR(n, S, N, X, Y, DX, DY) LIB(void, mr##n, int* o, double* q, double u) { BSP a(solid(S,N), pol(), EXACT()); BSP b(std::move(a)); BSP t; t = std::move(b); auto r = t.ray_intersection(P2(X,Y), V2(DX,DY), EXACT()); o[0] = r.is_intersecting(); q[0] = r.is_intersecting() ? r.intersection_distance() : 0; } REF(void, mr##n, int* o, double* q, double u) { hit<N>(o, q, S, X, Y, DX, DY); } PRE(mr##n, int* o, double* q, double u) { return !runs<N>(S, X, Y, DX, DY); }
MR(a, ARR, 4, 9, u, -1, 0) MR(b, ELL, 6, u, 5, -2, -1)
