#include "geo.hpp"
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
using namespace geometrix;
typedef grid_traits<double> GT;
static const int W = 5;
static GT gt() { return GT(0., 4., 0., 4., 1.); }
// checks the walk as it goes: inside the grid, one neighbour at a time, and where both the column and the row still have to
// change the step taken is through the edge the segment leaves the cell by
struct Walk {
    double sx, sy, tx, ty; int K, L, n, i, j; bool ok;
    int stop = 0; // stop after that many cells (0: never)
    bool operator()(unsigned u, unsigned v) {
        int a = u, b = v;
        ok = ok && u < W && v < W;
        if (n) {
            ok = ok && ((a == i && (b == j + 1 || b == j - 1)) || (b == j && (a == i + 1 || a == i - 1)));
            if (i != K && j != L) {
                double cx = i + (K > i), cy = j + (L > j), s = ((K > i) == (L > j) ? 1 : -1)*((tx - sx)*(cy - sy) - (ty - sy)*(cx - sx));
                ok = ok && (b == j ? s >= 0 : s <= 0);
            }
        } else ok = ok && a <= sx && sx < a + 1 && b <= sy && sy < b + 1;
        i = a; j = b; ++n;
        return n != stop;
    }
};
// a walk from cell (I,J) to cell (K,L) ends in (K,L) and takes no detour, so it visits every cell the segment passes through
#define VOXEL(name, I, J, K, L) \
LIB(int, name, double a, double b, double c, double d) { double x = I + a, y = J + b, z = K + c, w = L + d; Walk v{x, y, z, w, K, L, 0, 0, 0, true}; fast_voxel_grid_traversal(gt(), S2(P2(x, y), P2(z, w)), v, EXACT()); return v.ok ? v.n + 100*v.i + 1000*v.j : -1; } \
REF(int, name, double a, double b, double c, double d) { return (I > K ? I - K : K - I) + (J > L ? J - L : L - J) + 1 + 100*K + 1000*L; } \
PRE(name, double a, double b, double c, double d) { return 0 <= a && a < 1 && 0 <= b && b < 1 && 0 <= c && c < 1 && 0 <= d && d < 1; }
//@ anchor geometrix/algorithm/fast_voxel_grid_traversal.hpp fast_voxel_grid_traversal
VOXEL(v0011, 0, 0, 1, 1)
VOXEL(v1100, 1, 1, 0, 0)
VOXEL(v0110, 0, 1, 1, 0)
VOXEL(v1001, 1, 0, 0, 1)
VOXEL(v0000, 0, 0, 0, 0)
VOXEL(v0020, 0, 0, 2, 0)
VOXEL(v2000, 2, 0, 0, 0)
VOXEL(v0002, 0, 0, 0, 2)
VOXEL(v0200, 0, 2, 0, 0)
VOXEL(v0031, 0, 0, 3, 1)
VOXEL(v1320, 1, 3, 2, 0)
VOXEL(v3003, 3, 0, 0, 3)
VOXEL(v0022, 0, 0, 2, 2)
VOXEL(v2220, 2, 2, 2, 0)
VOXEL(v3110, 3, 1, 1, 0)
#define STOP(name, I, J, K, L) \
LIB(int, name, double a, double b, double c, double d) { double x = I + a, y = J + b, z = K + c, w = L + d; Walk v{x, y, z, w, K, L, 0, 0, 0, true}; stoppable_fast_voxel_grid_traversal(gt(), S2(P2(x, y), P2(z, w)), v, EXACT()); return v.ok ? v.n + 100*v.i + 1000*v.j : -1; } \
REF(int, name, double a, double b, double c, double d) { return (I > K ? I - K : K - I) + (J > L ? J - L : L - J) + 1 + 100*K + 1000*L; } \
PRE(name, double a, double b, double c, double d) { return 0 <= a && a < 1 && 0 <= b && b < 1 && 0 <= c && c < 1 && 0 <= d && d < 1; } \
LIB(int, name##n, double a, double b, double c, double d, int m) { double x = I + a, y = J + b, z = K + c, w = L + d; Walk v{x, y, z, w, K, L, 0, 0, 0, true, m}; stoppable_fast_voxel_grid_traversal(gt(), S2(P2(x, y), P2(z, w)), v, EXACT()); return v.ok ? v.n : -1; } \
REF(int, name##n, double a, double b, double c, double d, int m) { int t = (I > K ? I - K : K - I) + (J > L ? J - L : L - J) + 1; return m > 0 && m < t ? m : t; } \
PRE(name##n, double a, double b, double c, double d, int m) { return 0 <= a && a < 1 && 0 <= b && b < 1 && 0 <= c && c < 1 && 0 <= d && d < 1; }
//@ anchor geometrix/algorithm/fast_voxel_grid_traversal.hpp stoppable_fast_voxel_grid_traversal
STOP(s0011, 0, 0, 1, 1)
STOP(s1100, 1, 1, 0, 0)
STOP(s0110, 0, 1, 1, 0)
STOP(s1001, 1, 0, 0, 1)
STOP(s0000, 0, 0, 0, 0)
STOP(s0020, 0, 0, 2, 0)
STOP(s2000, 2, 0, 0, 0)
STOP(s0002, 0, 0, 0, 2)
STOP(s0200, 0, 2, 0, 0)
STOP(s0021, 0, 0, 2, 1)
STOP(s2101, 2, 1, 0, 0)
// clipped to the grid: the walk covers the part of the segment inside, and nothing when there is none
#define IN(a) (0 <= a && a < 1)
#define CLIP(name, SX, SY, TX, TY, n_, i_, j_) \
LIB(int, name, double a, double b) { Walk v{SX, SY, TX, TY, 9, 9, 0, 0, 0, true}; int n = 0, i = -1, j = -1; bool ok = true; fast_voxel_grid_traversal(gt(), S2(P2(SX, SY), P2(TX, TY)), [&](unsigned u, unsigned w) { ok = ok && u < W && w < W && (!n || ((int)u - i)*((int)u - i) + ((int)w - j)*((int)w - j) == 1); i = u; j = w; ++n; }, EXACT()); return ok ? n + 100*i + 1000*j : -1; } \
REF(int, name, double a, double b) { return n_ + 100*(i_) + 1000*(j_); } \
PRE(name, double a, double b) { return 0 < a && a < 1 && 0 < b && b < 1; }
//@ anchor geometrix/algorithm/fast_voxel_grid_traversal.hpp clipping
CLIP(c_row, -1 - a, 1 + b, 9 + a, 1 + b, 5, 4, 1)
CLIP(c_col, 2 + b, 7 + a, 2 + b, -5 - a, 5, 2, 0)
CLIP(c_miss, -1 - a, 1 + b, -2 - a, 2 + b, 0, -1, -1)
CLIP(c_corner, 5 + a, 3.5 + b, 3.5 + b, 5 + a, 0, -1, -1)
CLIP(c_in, -1, 1 + b, 1 + a, 1 + b, 2, 1, 1)
CLIP(c_out, 1 + a, 1 + b, 9, 1 + b, 4, 4, 1)
// a grid with an origin and a cell width of its own
static GT gs() { return GT(-2., 6., 1., 9., 2.); }
static S2 ss(double x, double y, double z, double w) { return S2(P2(-2 + 2*x, 1 + 2*y), P2(-2 + 2*z, 1 + 2*w)); }
LIB(int, scaled, double a, double b, double c, double d) { Walk v{a, 2 + b, 2 + c, d, 2, 0, 0, 0, 0, true}; fast_voxel_grid_traversal(gs(), ss(a, 2 + b, 2 + c, d), v, EXACT()); return v.ok ? v.n + 100*v.i + 1000*v.j : -1; }
REF(int, scaled, double a, double b, double c, double d) { return 5 + 200; }
PRE(scaled, double a, double b, double c, double d) { return IN(a) && IN(b) && IN(c) && IN(d); }
LIB(int, scaleds, double a, double b, double c, double d) { Walk v{a, 2 + b, 2 + c, d, 2, 0, 0, 0, 0, true}; stoppable_fast_voxel_grid_traversal(gs(), ss(a, 2 + b, 2 + c, d), v, EXACT()); return v.ok ? v.n + 100*v.i + 1000*v.j : -1; }
REF(int, scaleds, double a, double b, double c, double d) { return 5 + 200; }
PRE(scaleds, double a, double b, double c, double d) { return IN(a) && IN(b) && IN(c) && IN(d); }
