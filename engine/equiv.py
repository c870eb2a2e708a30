"""Comparison of two abstract values (diagrams) under a domain restriction.

PROVED       the diagrams are the same node, or every cell on which they differ is empty
             (polyhedral abstraction / vanishing of its own equalities)
VIOLATED     an exact point of the domain exists at which the two *normal forms* differ
UNDECIDED    neither (reported in the evidence, never an alarm)
"""
import random
import zlib
import time
from fractions import Fraction
import mpmath
import poly as P
import dd
import lp
import sos
import line
from dd import level, kids, LEAF, TRUE, FALSE, Op, apply1, apply2, leaf
from poly import Rat

mpmath.mp.dps = 60
TINY = mpmath.mpf(10) ** -40


# ---------------------------------------------------------------- evaluation of normal forms at a point
class Undefined(Exception):
    pass


class NotANumber(Undefined):
    """the computation takes the root, logarithm or arc cosine of a number outside its domain"""


class Point(object):
    def __init__(self, vals, seed=0):
        self.v = dict(vals)     # var id -> Fraction
        self.seed = seed
        self.memo = {}

    def var(self, i):
        r = self.v.get(i)
        if r is not None:
            return r
        V = P.VARS[i]
        if V.kind == "arg":
            if V.name == "pi":
                r = mpmath.mpf(mpmath.pi)
            else:
                raise KeyError(i)
        elif V.kind == "sqrt":
            x = self.poly(V.arg)
            if sgn(x) < 0:
                if isinstance(x, Fraction) or x < -1e-12:
                    raise NotANumber()
                raise Undefined()
            r = root(x)
        else:
            a = [self.rat(x) for x in V.arg]
            r = self.fn(V, a)
        self.v[i] = r
        return r

    def fn(self, V, a):
        n = V.name
        try:
            if n in ("floor", "ceil", "trunc", "round", "rint"):
                x = a[0]
                if not isinstance(x, Fraction):
                    x = Fraction(str(mpmath.nstr(x, 50)))
                fl = x.__floor__()
                if n == "floor":
                    return Fraction(fl)
                if n == "ceil":
                    return Fraction(x.__ceil__())
                if n == "trunc":
                    return Fraction(int(x))
                if n == "round":
                    return Fraction((abs(x) + Fraction(1, 2)).__floor__() * (1 if x >= 0 else -1))
                return Fraction(round(x))
            if n == "idiv":
                if a[1] == 0:
                    raise Undefined()
                q = abs(a[0]) // abs(a[1])
                return Fraction(q if (a[0] < 0) == (a[1] < 0) else -q)
            if n == "ishr":
                return Fraction(a[0].__floor__() // a[1])
            if n in ("ashr", "lshr"):
                if a[1] < 0 or (n == "lshr" and a[0] < 0):
                    raise Undefined()
                return Fraction(int(a[0]) >> int(a[1]))
            if n == "imod":
                if a[1] == 0:
                    raise Undefined()
                q = abs(a[0]) // abs(a[1])
                q = q if (a[0] < 0) == (a[1] < 0) else -q
                return a[0] - a[1] * q
            if n in ("and", "or", "xor"):
                x, y = int(a[0]), int(a[1])
                return Fraction({"and": x & y, "or": x | y, "xor": x ^ y}[n])
            if n == "f32":
                # some nearby value of the same sign: the narrowing is a function of its argument, not the identity
                h = zlib.crc32(repr((str(a[0]), self.seed)).encode())
                return a[0] * Fraction(16 + h % 7 - 3, 16)
            m = [mpf(x) for x in a]
            if n in ("asin", "acos"):
                if abs(m[0]) > 1 + mpmath.mpf(10) ** -30:
                    if abs(m[0]) > 1 + mpmath.mpf(10) ** -12:
                        raise NotANumber()
                    raise Undefined()
                m[0] = max(mpmath.mpf(-1), min(mpmath.mpf(1), m[0]))
            if n in ("log", "log10", "log2") and m[0] <= 0:
                raise Undefined()
            f = {"sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "asin": mpmath.asin, "acos": mpmath.acos,
                 "atan": mpmath.atan, "exp": mpmath.exp, "log": mpmath.log, "log10": mpmath.log10, "cbrt": mpmath.cbrt}.get(n)
            if f:
                return f(m[0])
            if n == "atan2":
                return mpmath.atan2(m[0], m[1])
            if n == "pow":
                if m[0] < 0:
                    raise Undefined()
                return mpmath.power(m[0], m[1])
            if n == "fmod":
                if m[1] == 0:
                    raise Undefined()
                q = m[0] / m[1]
                return m[0] - m[1] * (mpmath.floor(q) if q >= 0 else mpmath.ceil(q))
        except (ValueError, ZeroDivisionError):
            raise Undefined()
        # uninterpreted: a deterministic pseudo-random value
        h = zlib.crc32(repr((n, [str(x) for x in a], self.seed)).encode())
        return Fraction(h % 2001 - 1000, 7)

    def poly(self, p):
        r = self.memo.get(p.id)
        if r is None:
            s = Fraction(0)
            for m, c in p.t.items():
                x = Fraction(c)
                for v, e in m:
                    y = self.var(v)
                    x = mul(x, y ** e)
                s = add(s, x)
            r = self.memo[p.id] = s
        return r

    def rat(self, r):
        n = self.poly(r.num)
        d = Fraction(r.dint)
        for p, e in r.den:
            x = self.poly(p)
            if sgn(x) == 0:
                raise Undefined()
            d = mul(d, x ** e)
        if isinstance(n, Fraction) and isinstance(d, Fraction):
            return n / d
        return mpf(n) / mpf(d)

    def nan(self, n):
        """does the computation described by diagram n hand out, or turn on, a value that is not a number at this point?
        An atom that cannot be evaluated does not matter when every answer to it leads to the same leaf."""
        try:
            x = self.lib(n, [0])
            if type(x) is Rat:
                self.rat(x)
        except NotANumber:
            return True
        except (Undefined, KeyError, ZeroDivisionError, OverflowError):
            pass
        return False

    def lib(self, n, cost):
        while level[n] != LEAF:
            try:
                s = sgn(self.poly(dd.ATOMS[level[n]]))
            except NotANumber:
                cost[0] += 1
                if cost[0] > 200:
                    raise Undefined()
                v = [self.lib(k, cost) for k in kids[n]]
                if all(x is v[0] or x == v[0] for x in v[1:]):
                    return v[0]
                raise
            n = kids[n][s + 1]
        return kids[n]

    def node(self, n):
        """-> leaf value, with atoms decided at the point"""
        while level[n] != LEAF:
            s = sgn(self.poly(dd.ATOMS[level[n]]))
            n = kids[n][s + 1]
        return kids[n]


def mpf(x):
    return mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x


def mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return mpf(a) * mpf(b)


def add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return mpf(a) + mpf(b)


def sgn(x):
    if isinstance(x, Fraction):
        return (x > 0) - (x < 0)
    if abs(x) < TINY:
        return 0
    return 1 if x > 0 else -1


def root(x):
    if isinstance(x, Fraction):
        import math
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
    return mpmath.sqrt(mpf(x))


FOLD = Fraction(1, 10 ** 13)


def same_val(a, b, pt):
    if type(a) is Rat and type(b) is Rat:
        if a is b:
            return True
        x, y = pt.rat(a), pt.rat(b)
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            # constants folded by the compiler carry rounding of their own
            return x == y or abs(x - y) < max(1, abs(x)) * FOLD
        return abs(mpf(x) - mpf(y)) < mpmath.mpf(10) ** -25 * (1 + abs(mpf(x)))
    if islog(a) and islog(b):
        return len(a) == len(b) and all(same_val(x, y, pt) for x, y in zip(a, b))
    return a == b


def islog(v):
    return type(v) is tuple and v and v[0] == "log"


# ---------------------------------------------------------------- sampling
def base_vars(nodes):
    """argument indeterminates occurring (transitively) in the diagrams"""
    seen, out = set(), set()

    def po(p):
        if ("p", p.id) in seen:
            return
        seen.add(("p", p.id))
        for v in p.vs:
            va(v)

    def ra(r):
        po(r.num)
        for p, _ in r.den:
            po(p)

    def va(i):
        if ("v", i) in seen:
            return
        seen.add(("v", i))
        V = P.VARS[i]
        if V.kind == "arg":
            if V.name != "pi":
                out.add(i)
        elif V.kind == "sqrt":
            po(V.arg)
        else:
            for a in V.arg:
                ra(a)
    st, sn = list(nodes), set()
    while st:
        n = st.pop()
        if n in sn:
            continue
        sn.add(n)
        if level[n] == LEAF:
            if type(kids[n]) is Rat:
                ra(kids[n])
            elif islog(kids[n]):
                for x in kids[n]:
                    if type(x) is Rat:
                        ra(x)
        else:
            po(dd.ATOMS[level[n]])
            st.extend(kids[n])
    return sorted(out)


def sample(rnd, vs, style):
    d = {}
    pool = None
    if style == 3:
        pool = [Fraction(rnd.randint(-3, 3)) for _ in range(3)]
    for v in vs:
        V = P.VARS[v]
        small = V.name.startswith("eps") or V.name.startswith("tol")
        if V.integer:
            x = Fraction(rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, 10, 20]) if style != 1 else rnd.randint(0, 6))
        elif style == 0:
            x = Fraction(rnd.randint(-2, 2))
        elif style == 1:
            x = Fraction(rnd.randint(-6, 6))
        elif style == 2:
            x = Fraction(rnd.randint(-40, 40), rnd.choice([1, 2, 3, 4, 8]))
        elif style == 4:
            x = Fraction(rnd.randint(0, 8))
        elif style == 5:
            x = Fraction(rnd.randint(0, 8), 8)
        else:
            x = rnd.choice(pool)
        if small and style != 2:
            x = rnd.choice([Fraction(0), Fraction(1, 100), Fraction(1, 2), Fraction(1), Fraction(0)])
        if V.nonneg:
            x = abs(x)
        if v in dd.BOX and not V.integer:
            l, h = dd.BOX[v]
            if not l <= x <= h or style in (2, 5):
                x = l + (h - l) * Fraction(rnd.choice([0, 1, 2, 3, 4, 6, 8, 9, 12, 15, 16]) if style != 2 else rnd.randint(0, 1024), 16 if style != 2 else 1024)
        d[v] = x
    return d


def adjust(rnd, pt, vs, atoms):
    """move the point onto the zero set of one or two atoms that are linear in some variable"""
    for _ in range(rnd.choice([1, 1, 2, 3])):
        p = rnd.choice(atoms)
        cand = [v for v in p.vs if v in pt and P.VARS[v].kind == "arg" and P.degv(p, v) == 1 and not P.VARS[v].integer]
        if not cand:
            continue
        v = rnd.choice(cand)
        co = P.coeffs_in(p, v)
        try:
            q = Point(pt)
            a, b = q.poly(co[1]), q.poly(co.get(0, P.ZERO))
            if not isinstance(a, Fraction) or not isinstance(b, Fraction) or a == 0:
                continue
            pt[v] = -b / a
            if rnd.random() < 0.3:
                pt[v] += rnd.choice([1, -1, Fraction(1, 2), Fraction(-1, 2), 5, -5, 40, Fraction(1, 16), Fraction(-1, 16)])
        except (Undefined, KeyError):
            continue
    return pt


def search(f, g, pre, tries, seed=1, deadline=None):
    rnd = random.Random(seed)
    vs = base_vars([f, g, pre])
    atoms = [dd.ATOMS[a] for a in (dd.support(f) | dd.support(g) | dd.support(pre))]
    patoms = [dd.ATOMS[a] for a in dd.support(pre)]
    hits = 0
    for k in range(tries):
        if deadline and k % 50 == 0 and time.time() > deadline:
            break
        d = sample(rnd, vs, k % 6)
        if atoms and k % 3:
            d = adjust(rnd, d, vs, atoms if (k % 2 or not patoms) else patoms)
        pt = Point(d, seed)
        try:
            if pt.node(pre) is not P.R1:
                continue
            hits += 1
            y = pt.node(g)
            if y == dd.UNDEF:
                continue
            if type(y) is Rat:
                pt.rat(y)
            if pt.nan(f):
                return (d, ("not a number",), y, pt), hits
            x = pt.node(f)
            if not same_val(x, y, pt):
                return (d, x, y, pt), hits
        except Undefined:
            continue
        except (ZeroDivisionError, OverflowError):
            continue
    return None, hits


def line_search(f, g, pre, tries, seed=3, deadline=None):
    """counterexamples on lines parallel to an axis: all but one argument are fixed, and every cell that the atoms cut the
    line into is visited (end points included where they are rational)"""
    rnd = random.Random(seed)
    vs = base_vars([f, g, pre])
    free = [v for v in vs if not P.VARS[v].integer]
    if not free:
        return None, 0
    atoms = [dd.ATOMS[a] for a in (dd.support(f) | dd.support(g) | dd.support(pre))]
    patoms = [dd.ATOMS[a] for a in dd.support(pre)]
    hits = 0
    for k in range(1 if len(vs) == 1 else tries):
        if deadline and time.time() > deadline:
            break
        d = sample(rnd, vs, k % 6)
        if patoms and k % 2:
            d = adjust(rnd, d, vs, patoms)
        v = rnd.choice(free)
        base = dict(d)
        base.pop(v)
        roots = set()
        q = Point(base)
        for p in atoms:
            if v not in p.vs:
                continue
            try:
                co = {e: q.poly(c) for e, c in P.coeffs_in(p, v).items()}
            except (Undefined, KeyError, ZeroDivisionError, OverflowError):
                continue
            if not all(isinstance(c, Fraction) for c in co.values()):
                continue
            m = max([e for e, c in co.items() if c != 0] or [0])
            if m == 1:
                roots.add(-co.get(0, Fraction(0)) / co[1])
            elif m > 1:
                try:
                    for z in mpmath.polyroots([mpf(co.get(e, Fraction(0))) for e in range(m, -1, -1)], maxsteps=60, extraprec=40, error=False):
                        if abs(mpmath.im(z)) < 1e-9 * (1 + abs(z)):
                            roots.add(Fraction(float(mpmath.re(z))))
                except (mpmath.libmp.NoConvergence, ZeroDivisionError):
                    pass
        r = sorted(roots)
        if v in dd.BOX:
            lo, hi = dd.BOX[v]
            r = [lo] + [x for x in r if lo < x < hi] + [hi]
            c = list(r)
        else:
            c = list(r) + ([r[0] - 1, r[-1] + 1] if r else [d[v]])
        c += [(a + b) / 2 for a, b in zip(r, r[1:])]
        if len(vs) > 1 and len(c) > 160:
            c = rnd.sample(c, 160)
        for x in c:
            if P.VARS[v].nonneg and x < 0:
                continue
            d[v] = x
            pt = Point(d, seed)
            try:
                if pt.node(pre) is not P.R1:
                    continue
                hits += 1
                x, y = pt.node(f), pt.node(g)
                if y != dd.UNDEF and not same_val(x, y, pt):
                    return (dict(d), x, y, pt), hits
            except (Undefined, KeyError, ZeroDivisionError, OverflowError):
                continue
    return None, hits


# ---------------------------------------------------------------- cells
class Cell(object):
    """conjunction of atom signs"""
    def __init__(self):
        self.signs = {}


def mono(m):
    return m


def lin(p):
    return {m: Fraction(c) for m, c in p.t.items() if m}, Fraction(p.t.get((), 0))


def cons_of(p, s):
    c, k = lin(p)
    if s == 0:
        return (c, k, "=")
    if s < 0:
        return ({m: -x for m, x in c.items()}, -k, ">")
    return (c, k, ">")


def mono_nonneg(m):
    return all(e % 2 == 0 or P.VARS[v].nonneg or P.VARS[v].kind == "sqrt" for v, e in m)


RANGES = {"sin": (-1, 1, 0), "cos": (-1, 1, 0), "atan": (-1, 1, 2), "asin": (-1, 1, 2), "acos": (0, 1, 1), "atan2": (-1, 1, 1), "tanh": (-1, 1, 0)}


def term_facts(special, signs):
    """linear facts every valuation satisfies: rounding brackets, ranges of trigonometric terms, integrality"""
    out = []
    pi = P.var("pi", nonneg=True)
    PIP = P.pvar(pi)
    usepi = any(V is pi for V in special)
    dens = {}
    for V in special:
        if V.kind != "fn":
            continue
        F = P.pvar(V)
        if V.name in ("floor", "ceil", "trunc", "round", "rint") and len(V.arg) == 1:
            x = V.arg[0]
            D = P.pconst(x.dint)
            for q, e in x.den:
                for _ in range(e):
                    D = P.pmul(D, q)
            sg = sum_sign(D)
            usepi = usepi or pi.id in D.vs or pi.id in x.num.vs
            if sg == 0:
                continue
            N = x.num if sg > 0 else P.pscale(x.num, -1)
            D = D if sg > 0 else P.pscale(D, -1)
            if D.vs:
                dens.setdefault(V.id, D)
            DF = P.pmul(D, F)
            d = P.padd(N, DF, 1, -1)            # N - D*F
            neg = P.pscale(d, -1)
            def ge(p):
                c, k = lin(p)
                out.append((c, k, ">="))
            def gt(p):
                c, k = lin(p)
                out.append((c, k, ">"))
            if V.name == "floor":
                ge(d)
                gt(P.padd(neg, D))
                if not D.vs:
                    dv = D.t[()]
                    for lo, b in const_bounds(N, signs):
                        b = (b[0] / dv, b[1])
                        if lo:
                            out.append((lin(F)[0], -Fraction(b[0].__floor__()), ">="))
                        else:
                            u = b[0].__floor__() if not b[1] else b[0].__ceil__() - 1
                            out.append(({m: -x for m, x in lin(F)[0].items()}, Fraction(u), ">="))
            elif V.name == "ceil":
                ge(neg)
                gt(P.padd(d, D))
            elif V.name == "trunc":
                gt(P.padd(neg, D))
                gt(P.padd(d, D))
            else:
                two = P.pscale(d, 2)
                ge(P.padd(two, D))
                ge(P.padd(P.pscale(two, -1), D))
        elif V.name == "idiv" and len(V.arg) == 2 and V.arg[0].dint == 1 and not V.arg[0].den:
            # an integer quotient is not larger than its dividend
            bs = const_bounds(V.arg[0].num, signs)
            lo = [b[0] for l, b in bs if l]
            hi = [b[0] for l, b in bs if not l]
            if lo and hi:
                m = max(abs(max(lo)), abs(min(hi)))
                c = lin(F)[0]
                out.append((c, Fraction(m), ">="))
                out.append(({a: -x for a, x in c.items()}, Fraction(m), ">="))
        elif V.name in RANGES:
            lo, hi, k = RANGES[V.name]
            scale = P.ONE if k == 0 else (PIP if k == 1 else PIP)
            FF = P.pscale(F, 2) if k == 2 else F
            usepi = usepi or k > 0
            for p in (P.padd(FF, P.pscale(scale, lo), 1, -1), P.padd(P.pscale(scale, hi), FF, 1, -1)):
                c, kk = lin(p)
                out.append((c, kk, ">="))
    if dens:
        for a, s in signs.items():
            p = dd.ATOMS[a]
            if len(p.t) > 6:
                continue
            for v, D in dens.items():
                if v in p.vs and not any(w in D.vs for w in p.vs):
                    out.append(cons_of(P.pmul(p, D), s))
    for a, s in signs.items():
        p = dd.ATOMS[a]
        if s and all(P.VARS[v].integer for v in p.vs):
            c, k = lin(p)
            if s < 0:
                c, k = {m: -x for m, x in c.items()}, -k
            out.append((c, k - 1, ">="))
    if usepi:
        out.append(({((pi.id, 1),): Fraction(1)}, Fraction(-3), ">"))
        out.append(({((pi.id, 1),): Fraction(-1)}, Fraction(22, 7), ">"))
    return out


def const_bounds(N, signs):
    """constant bounds (is_lower, (value, strict)) the sign atoms put on the polynomial N directly"""
    body = {m: c for m, c in N.t.items() if m != ()}
    k0 = N.t.get((), 0)
    out = []
    if not body:
        return out
    m0 = next(iter(body))
    for a, s in signs.items():
        t = dd.ATOMS[a].t
        if m0 not in t or len(t) - (() in t) != len(body):
            continue
        r = Fraction(t[m0], body[m0])
        if any(t.get(m) != r * c for m, c in body.items()):
            continue
        # atom = r*(N - k0) + t0 ~ s 0   =>   N ~ k0 - t0/r
        b = k0 - Fraction(t.get((), 0)) / r
        if s == 0:
            out += [(True, (b, False)), (False, (b, False))]
        else:
            out.append(((s > 0) == (r > 0), (b, True)))
    return out


def sum_sign(p):
    """sign of a polynomial every monomial of which is manifestly of one sign (0 unknown); used for nonzero denominators"""
    sg = None
    for m, c in p.t.items():
        if not mono_nonneg(m):
            return 0
        q = 1 if c > 0 else -1
        if sg is not None and q != sg:
            return 0
        sg = q
    return sg or 0


def cell_empty(signs, deep=False):
    """signs: dict atom index -> -1/0/1.  Sound emptiness test."""
    cons = [cons_of(dd.ATOMS[a], s) for a, s in signs.items()]
    for a, s in signs.items():
        if s == 0:
            for q in P.zero_forms(dd.ATOMS[a]):
                if not q.vs:
                    return True
                cons.append(cons_of(q, 0))
    if deep:
        lst = [(dd.ATOMS[a], s) for a, s in signs.items() if len(dd.ATOMS[a].t) <= 12]
        if len(lst) <= 14:
            for i in range(len(lst)):
                for j in range(i, len(lst)):
                    p, s = lst[i]
                    q, t = lst[j]
                    if len(p.t) * len(q.t) > 60:
                        continue
                    r = P.pmul(p, q)
                    cons.append(cons_of(r, s * t))
    if not signs:
        return False
    vs = set()
    for a in signs:
        vs.update(dd.ATOMS[a].vs)
    special = [P.VARS[v] for v in sorted(vs) if P.VARS[v].kind == "fn" or P.VARS[v].name == "pi" or P.VARS[v].integer]
    if special:
        cons += term_facts(special, signs)
    monos = set()
    for c, k, t in cons:
        monos.update(c)
    for m in monos:
        if mono_nonneg(m):
            cons.append(({m: Fraction(1)}, Fraction(0), ">="))
    return lp.infeasible(cons)


def sos_empty(signs, seconds=4.0):
    """emptiness of a cell by squares, see sos.py: the conditions up to the second degree first, then all"""
    deg = lambda m: sum(e for _, e in m)
    lst = [(dd.ATOMS[a], s, max(map(deg, dd.ATOMS[a].t))) for a, s in signs.items() if len(dd.ATOMS[a].t) <= 20]
    low = [(p, s) for p, s, d in lst if d <= 2]
    if low and sos_try(low, signs, seconds / 3):
        return True
    if len(low) == len(lst) or max(d for _, _, d in lst) > 4:
        return False
    quad = [(p, s) for p, s, d in lst if d > 1]
    return sos_try(quad, signs, seconds / 3) or sos_try([(p, s) for p, s, d in lst], signs, seconds)


def sos_try(lst, signs, seconds):
    deg = lambda m: sum(e for _, e in m)
    vs = set()
    for p, _ in lst:
        vs.update(p.vs)
    if not lst or len(lst) > (40 if all(deg(m) <= 2 for p, _ in lst for m in p.t) else 20) or len(vs) > 8:
        return False
    top = max(deg(m) for p, _ in lst for m in p.t)
    cons = [cons_of(p, s) for p, s in lst]
    for i in range(len(lst)):
        for j in range(i, len(lst)):
            p, s = lst[i]
            q, t = lst[j]
            if max(map(deg, p.t)) + max(map(deg, q.t)) <= max(top, 2) + (top % 2):
                cons.append(cons_of(P.pmul(p, q), s * t))
    special = [P.VARS[v] for v in sorted(vs) if P.VARS[v].kind == "fn" or P.VARS[v].name == "pi" or P.VARS[v].integer]
    if special:
        cons += term_facts(special, signs)
    monos = {m for c, k, t in cons for m in c}
    cons += [({m: Fraction(1)}, Fraction(0), ">=") for m in monos if mono_nonneg(m)]
    basis = [((v, 1),) for v in sorted(vs)]
    if top > 2:
        sup = {}
        for p, _ in lst:
            for m in p.t:
                if deg(m) == 4:
                    f = [v for v, e in m for _ in range(e)]
                    for i in range(4):
                        for j in range(i):
                            d = ((f[j], 1), (f[i], 1)) if f[i] != f[j] else ((f[i], 2),)
                            sup[d] = sup.get(d, 0) + 1
        basis += sorted(sup, key=lambda d: (-sup[d], d))[:16]
    return sos.empty(cons, basis, seconds=seconds)


def subst_poly(p, v, num, den_sign_known=None):
    raise NotImplementedError


def _sqrt_frac(c):
    c = Fraction(c)
    if c < 0:
        return None
    import math
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def known_sign(p, signs):
    """sign of a polynomial on the cell from the atoms' signs; None unknown"""
    c, fs = P.factor(p)
    s = 1 if c > 0 else -1
    for f, e in fs:
        hit = None
        for a, t in signs.items():
            q = dd.ATOMS[a]
            if q is f:
                hit = t
            elif P.pscale(q, -1) is f:
                hit = -t
        if hit is None:
            if e % 2 == 0 or P.is_psd(f):
                hit = 1
            else:
                return None
        s *= hit ** e if hit else 0
    return s


def resolve_roots(num, signs):
    """replace square roots whose argument is, on the cell, zero or the square of a polynomial of known sign"""
    zeros = [dd.ATOMS[a] for a, s in signs.items() if s == 0]
    red = None
    for w in sorted(num.vs):
        V = P.VARS[w]
        if V.kind != "sqrt":
            continue
        if red is None:
            red = [(p, v, d) for p, v, d in reductions(zeros) if abs(P.coeffs_in(p, v)[d].t[()]) == 1][:6]
        cands = [V.arg]
        for p, v, d in red:
            try:
                z = _rem(V.arg, p, v, d)
            except P.TooBig:
                z = None
            if z is not None:
                cands.append(z)
        for q in cands:
            val = None
            if q is P.ZERO or (q is V.arg and any(q is z or P.pscale(q, -1) is z for z in zeros)):
                val = P.ZERO
            elif q is V.arg and len(q.t) < 200 and vanish(P.rat_poly(q), signs):
                val = P.ZERO
            elif q is not V.arg or True:
                c, fs = P.factor(q)
                k = _sqrt_frac(c)
                if k is not None and all(e % 2 == 0 for _, e in fs):
                    b = P.pconst(k)
                    for f, e in fs:
                        for _ in range(e // 2):
                            b = P.pmul(b, f)
                    t = known_sign(b, signs)
                    if t is not None:
                        val = P.pscale(b, t) if t else P.ZERO
            if val is not None:
                num = _sub(num, w, val, P.ONE)
                break
    return num


def vanish(r, signs):
    """does scalar r vanish on the cell, using the cell's own equalities?"""
    num = r.num
    if P.has_roots(num):
        num = resolve_roots(num, signs)
    zeros = [dd.ATOMS[a] for a, s in signs.items() if s == 0]
    zeros += [q for p in zeros for q in P.zero_forms(p)]
    nz = {dd.ATOMS[a].id for a, s in signs.items() if s != 0}
    # linear elimination; v = -B/A with A a nonzero constant or a known-nonzero atom product
    work = list(zeros)
    for _ in range(len(zeros) * 2 + 2):
        if num is P.ZERO:
            return True
        pick = None
        for p in work:
            for v in sorted(p.vs):
                if P.VARS[v].kind != "arg" or P.degv(p, v) != 1:
                    continue
                if any(P.VARS[w].kind != "arg" and v in deep_vars(w) for q in work + [num] for w in q.vs):
                    continue
                A = P.coeffs_in(p, v)[1]
                if not A.vs or all(f.id in nz for f, _ in P.factor(A)[1]):
                    key = (len(A.t), len(p.t))
                    if pick is None or key < pick[0]:
                        pick = (key, p, v)
        if pick is None:
            break
        _, p, v = pick
        co = P.coeffs_in(p, v)
        A, B = co[1], P.pscale(co.get(0, P.ZERO), -1)
        work.remove(p)
        try:
            num = _sub(num, v, B, A)
            work = [w for w in (P.primitive(_sub(q, v, B, A))[1] if _sub(q, v, B, A) is not P.ZERO else P.ZERO for q in work) if w is not P.ZERO]
        except P.TooBig:
            return False
        work += [z for q in list(work) for z in zero_basis(q) if z not in work]
        # refactor the remaining equations: drop factors known nonzero
        new = []
        for q in work:
            fs = [f for f, _ in P.factor(q)[1] if f.id not in nz]
            if len(fs) == 1:
                new.append(fs[0])
            else:
                new.append(q)
        work = new
    if num is P.ZERO:
        return True
    for p in work:
        q = P.pdivexact(num, p)
        if q is not None:
            return True
    if len(num.t) <= 200:
        for p, v, d in reductions(work)[:6]:
            if P.degv(num, v) >= d:
                try:
                    if _rem(num, p, v, d) is P.ZERO:
                        return True
                except P.TooBig:
                    pass
    return False


_dv = {}


def deep_vars(w):
    r = _dv.get(w)
    if r is None:
        V = P.VARS[w]
        r = set()
        if V.kind == "sqrt":
            for x in V.arg.vs:
                r.add(x)
                r |= deep_vars(x)
        elif V.kind == "fn":
            for a in V.arg:
                for p in [a.num] + [q for q, _ in a.den]:
                    for x in p.vs:
                        r.add(x)
                        r |= deep_vars(x)
        _dv[w] = r
    return r


def _sub(p, v, B, A):
    """numerator of p[v := B/A]"""
    co = P.coeffs_in(p, v)
    d = max(co)
    if d == 0:
        return p
    s = P.ZERO
    pw = [P.ONE]
    for _ in range(d):
        pw.append(P.pmul(pw[-1], B))
    pa = [P.ONE]
    for _ in range(d):
        pa.append(P.pmul(pa[-1], A))
    for e, c in co.items():
        s = P.padd(s, P.pmul(P.pmul(c, pw[e]), pa[d - e]))
    return s


def zero_basis(p):
    """polynomials that vanish wherever p does, when p or -p is a sum of squares"""
    q = P.primitive(p)[1]
    return P.zero_forms(q) or P.zero_forms(P.pscale(q, -1))


def _rem(q, p, v, d):
    """remainder of q by p in v, the leading coefficient of p being a constant; and the positive scale applied"""
    cp = P.coeffs_in(p, v)
    lc = cp[d].t[()]
    for _ in range(12):
        cq = P.coeffs_in(q, v)
        e = max(cq)
        if e < d:
            return q
        t = P.pmul(cq[e], _vpow(v, e - d))
        # q*|lc| - sign(lc)*t*p
        q = P.padd(P.pscale(q, abs(lc)), P.pscale(P.pmul(t, p), 1 if lc > 0 else -1), 1, -1)
        if q is P.ZERO:
            return q
    return None


def _vpow(v, e):
    r = P.ONE
    for _ in range(e):
        r = P.pmul(r, P.pvar(P.VARS[v]))
    return r


def reductions(eqs, limit=30):
    """(equation, variable, degree) triples usable for exact reduction: constant leading coefficient, degree at least 2"""
    out = []
    for p in eqs:
        if len(p.t) > limit:
            continue
        for v in sorted(p.vs):
            if P.VARS[v].kind != "arg":
                continue
            d = P.degv(p, v)
            if 2 <= d <= 4:
                if not P.coeffs_in(p, v)[d].vs:
                    out.append((p, v, d))
    return out


def manifest_sign(p):
    """sign every value of p has (1: p >= 0, -1: p <= 0), from its factors; 0 unknown"""
    c, fs = P.factor(p)
    if any(e % 2 and not P.is_psd(f) for f, e in fs):
        return 0
    return 1 if c > 0 else -1


def cell_products(signs):
    """an atom differing from a product of two others by a manifestly signed polynomial has that product's sign"""
    lst = [(dd.ATOMS[a], s) for a, s in signs.items() if s and len(dd.ATOMS[a].t) <= 30]
    if len(lst) > 10:
        return False
    pos = [(p if s > 0 else P.pscale(p, -1)) for p, s in lst]
    for i in range(len(pos)):
        for j in range(i - 1, len(pos)):
            if j >= i and len(pos[i].t) * len(pos[j].t) > 80:
                continue
            r = P.pmul(pos[i], pos[j]) if j >= i else pos[i]
            for k, q in enumerate(pos):
                if k == i or (j >= i and k == j) or j >= i and max(sum(e for _, e in m) for m in q.t) != max(sum(e for _, e in m) for m in r.t):
                    continue
                # q > 0 and r > 0, so q + r > 0
                z = P.padd(q, r)
                if z is P.ZERO or (z.t and manifest_sign(z) < 0):
                    return True
    return False


def cell_contradiction(signs):
    """substitute linear equalities of the cell and re-evaluate the other atoms' signs"""
    zeros = [(a, dd.ATOMS[a]) for a, s in signs.items() if s == 0]
    zeros += [(a, q) for a, p in zeros for q in P.zero_forms(p)]
    others = [(dd.ATOMS[a], s) for a, s in signs.items() if s != 0]
    nz = {dd.ATOMS[a].id for a, s in signs.items() if s != 0}
    done = 0
    eqs = [p for _, p in zeros]
    while eqs:
        pick = None
        for p in eqs:
            for v in sorted(p.vs):
                if P.VARS[v].kind != "arg" or P.degv(p, v) != 1:
                    continue
                if any(P.VARS[w].kind != "arg" and v in deep_vars(w) for q in eqs + [o for o, _ in others] for w in q.vs):
                    continue
                A = P.coeffs_in(p, v)[1]
                if not A.vs:
                    if pick is None or len(p.t) < pick[0]:
                        pick = (len(p.t), p, v)
        if pick is None:
            break
        _, p, v = pick
        co = P.coeffs_in(p, v)
        A, B = co[1], P.pscale(co.get(0, P.ZERO), -1)
        sA = 1 if A.t[()] > 0 else -1
        eqs = [q for q in eqs if q is not p]
        neq = []
        for q in eqs:
            r = _sub(q, v, B, A)
            if r is P.ZERO:
                continue
            if not r.vs:
                return True
            neq.append(r)
            neq += [z for z in zero_basis(r) if z not in neq]
            if any(not z.vs for z in neq):
                return True
        eqs = neq
        no = []
        for q, s in others:
            d = P.degv(q, v)
            r = _sub(q, v, B, A)
            s2 = s * (sA ** d)
            if r is P.ZERO:
                return True
            if not r.vs:
                if (1 if r.t[()] > 0 else -1) != s2:
                    return True
                continue
            if s2 < 0 and P.is_psd(P.primitive(r)[1]) and P.primitive(r)[0] > 0:
                return True
            if s2 > 0 and P.is_psd(P.primitive(r)[1]) and P.primitive(r)[0] < 0:
                return True
            no.append((r, s2))
        others = no
        done += 1
    extra = []
    for p, v, d in reductions(eqs)[:6]:
        for q, s in others:
            if len(q.t) > 60 or P.degv(q, v) < d:
                continue
            try:
                r = _rem(q, p, v, d)
            except P.TooBig:
                continue
            if r is None:
                continue
            if r is P.ZERO:
                return True
            c, pr = P.primitive(r)
            if P.is_psd(pr):
                if (1 if c > 0 else -1) != s:
                    return True
                continue
            if len(r.t) <= 2 * len(q.t) + 8:
                extra.append((r, s))
    others = others + extra
    # same polynomial with two signs, or products of factor signs; unit propagation over factors
    tab = {}
    for q, s in others:
        c, fs = P.factor(q)
        odd = [f for f, e in fs if e % 2 and not P.is_psd(f)]
        s = s * (1 if c > 0 else -1)
        k = tuple(sorted(f.id for f in odd))
        if k == () and s < 0:
            return True
        if k in tab and tab[k] != s:
            return True
        tab[k] = s
    single = {k[0]: s for k, s in tab.items() if len(k) == 1}
    nonzero = {f for k in tab for f in k}
    zero = set()
    prods = [(set(k), s) for k, s in tab.items() if len(k) > 1]
    eqf = [[f for f, e in P.factor(q)[1] if f.vs] for q in eqs]
    new = []
    more = True
    while more:
        more = False
        for k, s in prods:
            pr, unk = s, []
            for f in k:
                if f in single:
                    pr *= single[f]
                else:
                    unk.append(f)
            if not unk:
                if pr < 0:
                    return True
            elif len(unk) == 1:
                single[unk[0]] = pr
                new.append(cons_of(P.POLYS[unk[0]], pr))
                more = True
        for fs in eqf:
            unk = [f for f in fs if f.id not in nonzero and f.id not in single]
            if not unk:
                return True
            if len(unk) == 1 and unk[0].id not in zero:
                zero.add(unk[0].id)
                new.append(cons_of(unk[0], 0))
    if not done and not new and not extra:
        return False
    cons = [cons_of(q, s) for q, s in others] + [cons_of(q, 0) for q in eqs] + new
    monos = {m for c, _, _ in cons for m in c}
    cons += [({m: Fraction(1)}, Fraction(0), ">=") for m in monos if mono_nonneg(m)]
    return lp.infeasible(cons)


class Result(object):
    def __init__(self, status, **kw):
        self.status = status
        self.__dict__.update(kw)


def leaf_equal(x, y, signs):
    if x == y or x is y:
        return True
    if type(x) is Rat and type(y) is Rat:
        d = P.rsub(x, y)
        if d is P.R0:
            return True
        return vanish(d, signs)
    if islog(x) and islog(y):
        return len(x) == len(y) and all(leaf_equal(a, b, signs) for a, b in zip(x, y))
    return False


def compare(f, g, pre=TRUE, budget=20000, seconds=60, tries=4000):
    if f == g:
        return Result("PROVED", how="identical normal forms", cells=0)
    diff = Op("diff", lambda a, b: FALSE if (a is b or a == b or b == dd.UNDEF) else TRUE)
    d = apply2(diff, f, g)
    d = dd.AND(pre, d)
    if d == FALSE:
        return Result("PROVED", how="identical on the domain", cells=0)
    # quick refutation attempt first (cheap, usually finds a difference at once)
    t0 = time.time()
    hit, n1 = search(f, g, pre, 600, 1, t0 + seconds / 4)
    if hit:
        return Result("VIOLATED", point=hit, cells=0)
    vs = base_vars([f, g, pre])
    if len(vs) == 1 and not P.VARS[vs[0]].integer:
        try:
            how, what = line.decide(f, g, pre, vs[0], time.time() + seconds)
            if how == "equal":
                return Result("PROVED", how="every cell of the line", cells=what)
            pt = Point({vs[0]: what})
            try:
                if pt.node(pre) is P.R1:
                    x, y = pt.node(f), pt.node(g)
                    if y != dd.UNDEF and not same_val(x, y, pt):
                        return Result("VIOLATED", point=({vs[0]: what}, x, y, pt), cells=0)
            except Undefined:
                pass
        except line.No:
            pass
    stats = {"cells": 0, "pruned": 0}
    open_ = []

    def rec(f, g, pr, signs):
        if pr == FALSE or f == g:
            return
        if stats["cells"] > budget or time.time() > t0 + seconds:
            raise dd.Budget("cells")
        l = min(level[f], level[g], level[pr])
        if l == LEAF:
            x, y = kids[f], kids[g]
            if y == dd.UNDEF:
                return
            stats["cells"] += 1
            if leaf_equal(x, y, signs):
                return
            if cell_contradiction(signs) or cell_products(signs) or cell_empty(signs, True):
                stats["pruned"] += 1
                return
            if stats.get("sos", 0.0) < seconds / 2:
                t1 = time.time()
                e = sos_empty(signs)
                stats["sos"] = stats.get("sos", 0.0) + time.time() - t1
                if e:
                    stats["pruned"] += 1
                    return
            open_.append((dict(signs), x, y))
            if len(open_) > 40:
                raise dd.Budget("open cells")
            return
        psd = P.is_psd(dd.ATOMS[l])
        for s in ((0, 1) if psd else (-1, 0, 1)):
            a = kids[f][s + 1] if level[f] == l else f
            b = kids[g][s + 1] if level[g] == l else g
            c = kids[pr][s + 1] if level[pr] == l else pr
            if c == FALSE or a == b:
                continue
            signs[l] = s
            if len(signs) > 1 and cell_empty(signs):
                stats["pruned"] += 1
            else:
                rec(a, b, c, signs)
            del signs[l]
    complete = True
    try:
        rec(f, g, pre, {})
    except (dd.Budget, P.TooBig) as e:
        complete = False
        stats["stop"] = repr(e)
    if complete and not open_:
        return Result("PROVED", how="every differing cell is empty or its values coincide", cells=stats["cells"] + stats["pruned"])
    hit, n2 = search(f, g, pre, tries, 2, time.time() + seconds)
    if not hit:
        hit, n3 = line_search(f, g, pre, 60, 3, time.time() + seconds / 3)
        n2 += n3
    if not hit:
        for signs, x, y in open_[:20]:
            hit = directed(f, g, pre, signs)
            if hit:
                break
    if hit:
        return Result("VIOLATED", point=hit, cells=stats["cells"])
    return Result("UNDECIDED", cells=stats["cells"], open=open_, hits=n1 + n2, complete=complete, stop=stats.get("stop"))


def prune(g, pre, budget=3000, seconds=10):
    """the guard g with every cell that cannot be met (under pre) cut off; g itself when that is too expensive"""
    t0 = time.time()
    n = [0]

    def rec(f, pr, signs):
        if pr == FALSE or f == FALSE:
            return FALSE
        n[0] += 1
        if n[0] > budget or time.time() > t0 + seconds:
            raise dd.Budget("prune")
        l = min(level[f], level[pr])
        if l == LEAF:
            if cell_contradiction(signs) or cell_products(signs) or cell_empty(signs, True):
                return FALSE
            return f
        psd = P.is_psd(dd.ATOMS[l])
        r = []
        for s in (-1, 0, 1):
            if s < 0 and psd:
                r.append(FALSE)
                continue
            a = kids[f][s + 1] if level[f] == l else f
            c = kids[pr][s + 1] if level[pr] == l else pr
            if a == FALSE or c == FALSE:
                r.append(FALSE)
                continue
            signs[l] = s
            r.append(FALSE if len(signs) > 1 and cell_empty(signs) else rec(a, c, signs))
            del signs[l]
        return dd.node(l, r[0], r[1], r[2])
    try:
        r = rec(g, pre, {})
    except (dd.Budget, P.TooBig):
        return g
    return r


def directed(f, g, pre, signs, tries=300):
    rnd = random.Random(5)
    vs = base_vars([f, g, pre])
    zs = [dd.ATOMS[a] for a, s in signs.items() if s == 0]
    ineq = [(dd.ATOMS[a], s) for a, s in signs.items() if s != 0]
    for k in range(tries):
        d = sample(rnd, vs, k % 6)
        for _ in range(3):
            for p, s in ineq:
                # push a violated strict inequality to its right side through a variable it is linear in
                cand = [v for v in p.vs if v in d and P.VARS[v].kind == "arg" and P.degv(p, v) == 1 and not P.VARS[v].integer]
                try:
                    q = Point(d)
                    x = q.poly(p)
                    if not isinstance(x, Fraction) or sgn(x) == s or not cand:
                        continue
                    v = rnd.choice(cand)
                    co = P.coeffs_in(p, v)
                    a, b = q.poly(co[1]), q.poly(co.get(0, P.ZERO))
                    if isinstance(a, Fraction) and isinstance(b, Fraction) and a != 0:
                        d[v] = (-b + s * rnd.choice([1, Fraction(1, 4), 8, 1])) / a
                except (Undefined, KeyError):
                    pass
        for _ in range(2):
            for p in zs:
                cand = [v for v in p.vs if v in d and P.VARS[v].kind == "arg" and P.degv(p, v) == 1 and not P.VARS[v].integer]
                if not cand:
                    continue
                v = rnd.choice(cand)
                co = P.coeffs_in(p, v)
                try:
                    q = Point(d)
                    a, b = q.poly(co[1]), q.poly(co.get(0, P.ZERO))
                    if isinstance(a, Fraction) and isinstance(b, Fraction) and a != 0:
                        d[v] = -b / a
                except (Undefined, KeyError):
                    pass
        pt = Point(d)
        try:
            if pt.node(pre) is not P.R1:
                continue
            x, y = pt.node(f), pt.node(g)
            if y != dd.UNDEF and not same_val(x, y, pt):
                return (d, x, y, pt)
        except (Undefined, ZeroDivisionError, OverflowError):
            continue
    return None


def describe(hit):
    d, x, y, pt = hit
    def val(z):
        if type(z) is Rat:
            try:
                q = pt.rat(z)
            except Undefined:
                return P.rstr(z)
            return "%s  [normal form %s]" % (str(q) if isinstance(q, Fraction) else mpmath.nstr(q, 12), P.rstr(z))
        return str(z)
    return {"at": {P.VARS[v].name: str(q) for v, q in sorted(d.items())}, "library": val(x), "specification": val(y)}
