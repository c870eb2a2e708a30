#include "geo.hpp"
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
using namespace geometrix;
typedef grid_traits<double> GT;
static GT gt() { return GT(0., 4., 0., 4., 1.); }
// The walk goes from the lexicographically lower end cell to the other. It steps across the edge the segment leaves the cell by,
// or diagonally when that is a corner.
struct Walk {
    double sx, sy, tx, ty; int n, i, j; bool ok;
    void operator()(unsigned u, unsigned v) {
        int a = u, b = v, sg = ty >= sy ? 1 : -1, K = (int)std::floor(tx), L = (int)std::floor(ty);
        ok = ok && u < 5 && v < 5;
        if (n) {
            int di = a - i, dj = (b - j)*sg;
            ok = ok && (di == 0 || di == 1) && (dj == 0 || dj == 1) && (di || dj);
            if (i != K && j != L) {
                double cx = i + 1, cy = j + (sg > 0), s = sg*((tx - sx)*(cy - sy) - (ty - sy)*(cx - sx));
                ok = ok && (di && dj ? s == 0 : di ? s > 0 : s < 0);
            } else ok = ok && (i == K ? !di : di) && (j == L ? !dj : dj);
        } else ok = ok && a <= sx && sx < a + 1 && b <= sy && sy < b + 1;
        i = a; j = b; ++n;
    }
};
#define OW(name, I, J, K, L, SWAP) \
LIB(int, name, double a, double b, double c, double d) { double x = I + a, y = J + b, z = K + c, w = L + d; Walk v{x, y, z, w, 0, 0, 0, true}; orientation_segment_traversal(gt(), SWAP ? S2(P2(z, w), P2(x, y)) : S2(P2(x, y), P2(z, w)), v, EXACT()); return v.ok ? 100*v.i + 1000*v.j : -1; } \
REF(int, name, double a, double b, double c, double d) { return 100*K + 1000*L; } \
PRE(name, double a, double b, double c, double d) { return 0 <= a && a < 1 && 0 <= b && b < 1 && 0 <= c && c < 1 && 0 <= d && d < 1 && (I < K || a < c || (J < L && a == c) || (J == L && a == c && b <= d)); }
//@ anchor geometrix/algorithm/orientation_grid_traversal.hpp orientation_segment_traversal
OW(o0000, 0, 0, 0, 0, false)
OW(o0002, 0, 0, 0, 2, false)
OW(o0002s, 0, 0, 0, 2, true)
OW(o0200, 0, 2, 0, 0, false)
OW(o0200s, 0, 2, 0, 0, true)
OW(o0020, 0, 0, 2, 0, false)
OW(o0020s, 0, 0, 2, 0, true)
OW(o0011, 0, 0, 1, 1, false)
OW(o0011s, 0, 0, 1, 1, true)
OW(o0110, 0, 1, 1, 0, false)
OW(o0110s, 0, 1, 1, 0, true)
// longer walks from given starting points
#define OF(name, I, J, A, B, K, L) \
LIB(int, name, double c, double d) { double x = I + A, y = J + B, z = K + c, w = L + d; Walk v{x, y, z, w, 0, 0, 0, true}; orientation_segment_traversal(gt(), S2(P2(x, y), P2(z, w)), v, EXACT()); return v.ok ? 100*v.i + 1000*v.j : -1; } \
REF(int, name, double c, double d) { return 100*K + 1000*L; } \
PRE(name, double c, double d) { return 0 <= c && c < 1 && 0 <= d && d < 1; }
OF(f0, 0, 0, 0.25, 0.5, 1, 2)
OF(f1, 0, 0, 0, 0, 2, 1)
OF(f2, 0, 0, 0.5, 0.5, 2, 2)
OF(f3, 0, 2, 0.25, 0.75, 2, 0)
OF(f4, 0, 2, 0.5, 0.5, 2, 0)
OF(f5, 0, 3, 0.5, 0, 1, 0)
OF(f6, 0, 1, 0.75, 0, 3, 3)
OF(f7, 0, 3, 0, 0.5, 3, 1)
OF(f8, 1, 1, 0.5, 0.25, 3, 2)
OF(f9, 0, 1, 0.75, 0.5, 3, 0)
// a grid with an origin and a cell width of its own
static GT gs() { return GT(-2., 6., 1., 9., 2.); }
static S2 ss(double x, double y, double z, double w) { return S2(P2(-2 + 2*x, 1 + 2*y), P2(-2 + 2*z, 1 + 2*w)); }
LIB(int, scaled, double c, double d) { Walk v{.25, 2.5, 2 + c, d, 0, 0, 0, true}; orientation_segment_traversal(gs(), ss(.25, 2.5, 2 + c, d), v, EXACT()); return v.ok ? 100*v.i + 1000*v.j : -1; }
REF(int, scaled, double c, double d) { return 200; }
PRE(scaled, double c, double d) { return 0 <= c && c < 1 && 0 <= d && d < 1; }
