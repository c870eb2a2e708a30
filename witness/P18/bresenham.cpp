#include "geo.hpp"
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/bresenham_grid_traversal.hpp>
using namespace geometrix;
typedef grid_traits<double> GT;
static GT gt() { return GT(0., 4., 0., 4., 1.); }
// every step moves to one of the eight neighbours, one cell along the longer extent, and the cells stay within half a cell of the
// line through the end cells
struct Walk {
    int I, J, K, L, n, i, j; bool ok;
    void operator()(int a, int b) {
        int dx = K > I ? K - I : I - K, dy = L > J ? L - J : J - L, sx = K > I ? 1 : -1, sy = L > J ? 1 : -1;
        if (!n) ok = ok && a == I && b == J;
        else if (dx >= dy) ok = ok && a == i + sx && (b == j || b == j + sy);
        else ok = ok && b == j + sy && (a == i || a == i + sx);
        int e = dx >= dy ? 2*((b - J)*sy*dx - (a - I)*sx*dy) : 2*((a - I)*sx*dy - (b - J)*sy*dx), m = dx >= dy ? dx : dy;
        ok = ok && e <= m && e >= -m;
        i = a; j = b; ++n;
    }
};
#define BRES(name, I, J, K, L) \
LIB(int, name, double a, double b, double c, double d) { double x = I + a, y = J + b, z = K + c, w = L + d; Walk v{I, J, K, L, 0, 0, 0, true}; bresenham_segment_traversal(gt(), S2(P2(x, y), P2(z, w)), v); return v.ok ? v.n + 100*v.i + 1000*v.j : -1; } \
REF(int, name, double a, double b, double c, double d) { int dx = I > K ? I - K : K - I, dy = J > L ? J - L : L - J; return (dx > dy ? dx : dy) + 1 + 100*K + 1000*L; } \
PRE(name, double a, double b, double c, double d) { return 0 <= a && a < 1 && 0 <= b && b < 1 && 0 <= c && c < 1 && 0 <= d && d < 1; }
//@ anchor geometrix/algorithm/bresenham_grid_traversal.hpp bresenham_grid_traversal
BRES(b0000, 0, 0, 0, 0)
BRES(b0033, 0, 0, 3, 3)
BRES(b0030, 0, 0, 3, 0)
BRES(b3000, 3, 0, 0, 0)
BRES(b0003, 0, 0, 0, 3)
BRES(b0300, 0, 3, 0, 0)
BRES(b0031, 0, 0, 3, 1)
BRES(b0032, 0, 0, 3, 2)
BRES(b0013, 0, 0, 1, 3)
BRES(b0023, 0, 0, 2, 3)
BRES(b3100, 3, 1, 0, 0)
BRES(b3200, 3, 2, 0, 0)
BRES(b1300, 1, 3, 0, 0)
BRES(b2300, 2, 3, 0, 0)
BRES(b0130, 0, 1, 3, 0)
BRES(b0230, 0, 2, 3, 0)
BRES(b0310, 0, 3, 1, 0)
BRES(b0320, 0, 3, 2, 0)
BRES(b3001, 3, 0, 0, 1)
BRES(b3002, 3, 0, 0, 2)
BRES(b1003, 1, 0, 0, 3)
BRES(b2003, 2, 0, 0, 3)
BRES(b3300, 3, 3, 0, 0)
BRES(b0330, 0, 3, 3, 0)
BRES(b3003, 3, 0, 0, 3)
BRES(b1122, 1, 1, 2, 2)
BRES(b2113, 2, 1, 1, 3)
