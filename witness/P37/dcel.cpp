//@ flags -DBOOST_SP_DISABLE_THREADS
#include "geo.hpp"
#include "hashrt.hpp"
#include <vector>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
typedef doubly_connected_edge_list<P2, EXACT> DC;
static std::vector<S2> segs(const double* p, const int* e, int n, double x, double y) { std::vector<S2> r; for (int i = 0; i < n; ++i) { int a = e[2*i], b = e[2*i+1]; r.push_back(S2(a ? P2(p[2*a],p[2*a+1]) : P2(x,y), b ? P2(p[2*b],p[2*b+1]) : P2(x,y))); } return r; }
template <typename S> static void put(double*& o, const S& s) { *o++ = (double)s.size(); for (auto const& q : s) { *o++ = (double)q.size(); for (auto const& v : q) { *o++ = v[0]; *o++ = v[1]; } } }
static const double PT[10] = {0,0, 4,0, 5,3, 2,5, -1,3};
static const int E1[6] = {1,2, 0,1, 2,3}, E2[8] = {2,3, 0,1, 3,0, 1,2};
static const int E3[12] = {4,3, 1,0, 2,4, 0,2, 1,1, 1,1}, E4[10] = {0,1, 1,2, 2,0, 3,4, 4,3};
static void dlib(double* o, const int* e, int n, double x, double y) { auto s = segs(PT,e,n,x,y); DC d = make_dcel<P2>(s, EXACT()); put(o, d.get_polylines()); put(o, d.get_polygons()); }
// the chains of the edges in their direction; a closed one starts anywhere, so it is read from its first edge
static void dref(double* o, const int* e, int n, double x, double y) { P2 p[5]; for (int i = 0; i < 5; ++i) p[i] = i ? P2(PT[2*i],PT[2*i+1]) : P2(x,y); int nx[5], has[5], in[5], lead[5]; for (int i = 0; i < 5; ++i) nx[i] = i, has[i] = 0, in[i] = 0, lead[i] = -1; int seen[5], m = 0;
  for (int i = 0; i < 2*n; ++i) { int a = e[i]; bool d = false; for (int j = 0; j < m; ++j) d = d || seen[j] == a; if (!d) seen[m++] = a; }
  for (int i = 0; i < n; ++i) { nx[e[2*i]] = e[2*i+1]; has[e[2*i]] = 1; in[e[2*i+1]] = 1; }
  for (int pass = 0; pass < 2; ++pass) { double* cnt = o++; *cnt = 0; int used[5] = {}; for (int j = 0; j < m; ++j) { int s = seen[j]; if (used[s] || !has[s]) continue; int t = s; bool closed = false; for (int k = 0; k < m; ++k) { if (!has[t]) break; t = nx[t]; if (t == s) closed = true; } if (closed != (pass == 1) || (!closed && in[s])) continue; *cnt += 1; double* c = o++; *c = 0; t = s; for (int k = 0; k <= m; ++k) { *o++ = p[t][0]; *o++ = p[t][1]; *c += 1; used[t] = 1; if (!has[t]) break; t = nx[t]; if (t == s) break; } } } }
//@ anchor geometrix/algorithm/doubly_connected_edge_list.hpp make_dcel
#define DCE(n, E, N, X, Y) LIB(void, dc##n, double* o, double u) { dlib(o,E,N,X,Y); } REF(void, dc##n, double* o, double u) { dref(o,E,N,X,Y); }
DCE(a, E1, 3, u, 7)
DCE(b, E2, 4, u, 7)
DCE(c, E3, 4, 7, u)
DCE(d, E4, 5, u, 1)
DCE(e, E1, 3, 4.5, u)
// a copied list describes the same chains, also after another edge
LIB(void, dcopy, double* o, double u) { auto s = segs(PT,E1,3,u,7); DC d = make_dcel<P2>(s, EXACT()); DC c(d); c.add_edge(P2(PT[6],PT[7]), P2(PT[8],PT[9])); c.calculate_point_sequences(); put(o, c.get_polylines()); put(o, c.get_polygons()); }
static const int E5[8] = {1,2, 0,1, 2,3, 3,4};
REF(void, dcopy, double* o, double u) { dref(o,E5,4,u,7); }
LIB(void, dassign, double* o, double u) { auto s = segs(PT,E1,3,u,7); DC d = make_dcel<P2>(s, EXACT()), c{EXACT()}; c = d; c.add_edge(P2(PT[6],PT[7]), P2(PT[8],PT[9])); c.calculate_point_sequences(); put(o, c.get_polylines()); put(o, c.get_polygons()); }
REF(void, dassign, double* o, double u) { dref(o,E5,4,u,7); }
