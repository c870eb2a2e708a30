#pragma once
// sequences of VERIF_N members: the length is chosen by the check, above every length the headers under `//@ grow` compare against
#include <array>
#include <deque>
#include <vector>
#ifndef VERIF_N
#define VERIF_N 12
#endif
enum { SZ = VERIF_N };
static inline P2 par(int k) { return P2(k, k * k); }           // the vertices of a convex counter-clockwise ring
static inline P2 zig(int k) { return P2(2 * k, k % 2 ? 1 : 0); } // an open zigzag
template <class S> static S fillp(const double* p) { S s; for (int i = 0; i < SZ; ++i) s.push_back(P2(p[2*i], p[2*i+1])); return s; }
static inline std::array<P2,SZ> arr(const double* p) { std::array<P2,SZ> s; for (int i = 0; i < SZ; ++i) s[i] = P2(p[2*i], p[2*i+1]); return s; }
template <class S> static S fillf(P2 (*f)(int)) { S s; for (int i = 0; i < SZ; ++i) s.push_back(f(i)); return s; }
static inline std::array<P2,SZ> arf(P2 (*f)(int)) { std::array<P2,SZ> s; for (int i = 0; i < SZ; ++i) s[i] = f(i); return s; }
