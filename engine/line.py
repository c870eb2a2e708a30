"""Complete decision of an obligation whose diagrams mention a single real argument.

The polynomials of the atoms are factored over the rationals and the real roots of the factors are isolated in disjoint
rational intervals.  They cut the line into finitely many open cells and points; on each of them every atom has one sign, so
both diagrams select one leaf, and two leaves agree on an open cell iff their normal forms agree, on a root iff the root's
minimal polynomial divides the numerator of their difference.  The answer is exact in both directions.
"""
from fractions import Fraction
from itertools import product
import math
import time
import mpmath
import sympy
import poly as P
import dd
from dd import level, kids, LEAF
from poly import Rat

T = sympy.Symbol("t")


class No(Exception):
    pass


def coeffs(p, v):
    if any(w != v for w in p.vs):
        raise No()
    d = {}
    for m, c in p.t.items():
        e = m[0][1] if m else 0
        d[e] = Fraction(c)
    n = max(d)
    return [d.get(i, Fraction(0)) for i in range(n, -1, -1)]


def ev(c, x):
    s = Fraction(0)
    for a in c:
        s = s * x + a
    return s


def sg(x):
    return (x > 0) - (x < 0)


def fr(q):
    return Fraction(int(q.p), int(q.q))


# ---------------------------------------------------------------- expressions with square roots of polynomials in the argument


def surds(p, v):
    """the square roots in p; outside the fragment when anything else occurs"""
    out = []
    for w in p.vs:
        if w == v:
            continue
        V = P.VARS[w]
        if V.kind != "sqrt" or any(u != v for u in V.arg.vs):
            raise No()
        out.append(w)
    if len(out) > 5:
        raise No()
    return sorted(out)


def norm(p, v):
    """the product over all choices of signs of the square roots: a polynomial in the argument alone"""
    for w in surds(p, v):
        a, b = {}, {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(w, 0)
            if e > 1:
                raise No()
            (b if e else a)[tuple(sorted(d.items()))] = c
        A, B = P.mkpoly(a), P.mkpoly(b)
        p = P.padd(P.pmul(A, A), P.pmul(P.VARS[w].arg, P.pmul(B, B)), 1, -1)
    return p


def split_square(n):
    s, d = 1, 2
    while d * d <= n:
        if d > 100000:
            raise No()
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        d += 1 if d == 2 else 2
    return s, n


def exact(p, v, x):
    """value at a rational x as {square-free radicand: rational coefficient}; linearly independent over Q"""
    rad = {}
    for w in surds(p, v):
        q = sum((Fraction(c) * x ** (m[0][1] if m else 0) for m, c in P.VARS[w].arg.t.items()), Fraction(0))
        if q < 0:
            raise No()
        r = math.isqrt(q.numerator * q.denominator)
        if r * r == q.numerator * q.denominator:
            rad[w] = (Fraction(r, q.denominator), 1)
        else:
            s, f = split_square(q.numerator * q.denominator)
            rad[w] = (Fraction(s, q.denominator), f)
    out = {}
    for m, c in p.t.items():
        k, f = Fraction(c), 1
        for w, e in m:
            if w == v:
                k *= x ** e
                continue
            for _ in range(e):
                a, b = rad[w]
                g = math.gcd(f, b)
                k *= a * g
                f = (f // g) * (b // g)
        out[f] = out.get(f, 0) + k
    return {f: k for f, k in out.items() if k}


def sign_exact(p, v, x):
    d = exact(p, v, x)
    if not d:
        return 0
    if len(d) == 1:
        return sg(next(iter(d.values())))
    prec = 80
    while prec < 20000:
        with mpmath.workprec(prec):
            t = [mpmath.mpf(k.numerator) / k.denominator * mpmath.sqrt(f) for f, k in d.items()]
            y = mpmath.fsum(t)
            if abs(y) > mpmath.fsum(abs(z) for z in t) * mpmath.mpf(2) ** (20 - prec):
                return int(mpmath.sign(y))
        prec *= 4
    raise No()


def sign_at_root(p, v, facs, r):
    """sign at an irrational root: of all sign choices of the square roots only as many can vanish as the norm says"""
    ws = surds(p, v)
    for _ in range(240):
        if r.lo == r.hi:
            return sign_exact(p, v, r.lo)
        r.refine(facs[r.f])
    iv = mpmath.iv
    old = iv.prec
    iv.prec = 400
    try:
        X = iv.mpf([iv.mpf(r.lo.numerator) / r.lo.denominator, iv.mpf(r.hi.numerator) / r.hi.denominator])
        X = iv.mpf([X.a, X.b])

        def pv(q, S):
            t = iv.mpf(0)
            for m, c in q.t.items():
                k = iv.mpf(c)
                for w, e in m:
                    k = k * (X if w == v else S[w]) ** e
                t = t + k
            return t
        base = {}
        for w in ws:
            a = pv(P.VARS[w].arg, {})
            if not a.a > 0:
                raise No()
            base[w] = iv.sqrt(a)
        zero, mine = 0, None
        for sgn in product((1, -1), repeat=len(ws)):
            y = pv(p, {w: (base[w] if k > 0 else -base[w]) for w, k in zip(ws, sgn)})
            z = 0 if (y.a <= 0 <= y.b) else (1 if y.a > 0 else -1)
            zero += z == 0
            if all(k > 0 for k in sgn):
                mine = z
        if mine:
            return mine
        n = coeffs(norm(p, v), v)
        if zero == 1 and vanishes(n, facs[r.f]):
            return 0
        raise No()
    finally:
        iv.prec = old


def vanishes(n, f):
    a = sympy.Poly([sympy.Rational(z.numerator, z.denominator) for z in f], T, domain="QQ")
    b = sympy.Poly([sympy.Rational(z.numerator, z.denominator) for z in n], T, domain="QQ")
    return b.rem(a).is_zero


class Root(object):
    __slots__ = ("f", "lo", "hi")

    def __init__(self, f, lo, hi):
        self.f, self.lo, self.hi = f, lo, hi

    def refine(self, c):
        """bisect the isolating interval of an irrational root"""
        if self.lo == self.hi:
            return
        m = (self.lo + self.hi) / 2
        s = sg(ev(c, m))
        if s == 0:
            self.lo = self.hi = m
        elif s == sg(ev(c, self.lo)):
            self.lo = m
        else:
            self.hi = m


def decide(f, g, pre, v, deadline):
    """("equal", cells) | ("differs", point) | None when outside the fragment"""
    atoms = dd.support(f) | dd.support(g) | dd.support(pre)
    facs, fid, dec = [], {}, {}          # irreducible factors as coefficient lists; atom -> (sign, [(factor, parity even?)])
    hard = {}                            # atoms with square roots
    todo = []
    seen = set()

    def under(p):
        for w in surds(p, v):
            if w not in seen:
                seen.add(w)
                if P.VARS[w].arg.vs:
                    todo.append((None, coeffs(P.VARS[w].arg, v)))
    for a in atoms:
        p = dd.ATOMS[a]
        if surds(p, v):
            under(p)
            hard[a] = p
            n = norm(p, v)
            if not n.t:
                raise No()
            if n.vs:
                todo.append((None, coeffs(n, v)))
        else:
            todo.append((a, coeffs(p, v)))
    for val in [dd.val(l) for l in dd.leaves(f)] + [dd.val(l) for l in dd.leaves(g)]:
        if type(val) is Rat:
            try:
                under(val.num)
                for q, _ in val.den:
                    under(q)
                    if surds(q, v):
                        n = norm(q, v)
                        if n.vs:
                            todo.append((None, coeffs(n, v)))
            except No:                   # matters only if two different such values have to be compared
                pass
    for a, c in todo:
        if len(c) == 2:
            l = [(1, [Fraction(1), c[1] / c[0]], 1)]
            s = sg(c[0])
        else:
            k, fl = sympy.Poly([sympy.Rational(x.numerator, x.denominator) for x in c], T, domain="QQ").factor_list()
            s = sg(fr(sympy.Rational(k)))
            l = []
            for q, e in fl:
                cc = [fr(sympy.Rational(x)) for x in q.all_coeffs()]
                s *= sg(cc[0]) if e % 2 else 1
                l.append((1, [x / cc[0] for x in cc], e))
        out = []
        for _, cc, e in l:
            key = tuple(cc)
            i = fid.get(key)
            if i is None:
                i = fid[key] = len(facs)
                facs.append(list(cc))
            out.append((i, e % 2 == 0))
        if a is not None:
            dec[a] = (s, out)
        if time.time() > deadline:
            raise No()
    roots = []
    for i, c in enumerate(facs):
        if len(c) == 2:
            roots.append(Root(i, -c[1], -c[1]))
            continue
        for (a, b), _ in sympy.Poly([sympy.Rational(x.numerator, x.denominator) for x in c], T, domain="QQ").intervals():
            roots.append(Root(i, fr(sympy.Rational(a)), fr(sympy.Rational(b))))
    for k in range(400):
        roots.sort(key=lambda r: (r.lo, r.hi))
        clash = False
        for a, b in zip(roots, roots[1:]):
            if a.hi >= b.lo:
                clash = True
                a.refine(facs[a.f])
                b.refine(facs[b.f])
        if not clash:
            break
        if time.time() > deadline:
            raise No()
    else:
        raise No()
    # no interval of one factor may touch a root of another one: guaranteed by disjointness of all intervals
    samples = []                         # (x, root or None)
    if not roots:
        samples.append((Fraction(0), None))
    else:
        samples.append((roots[0].lo - 1, None))
        for i, r in enumerate(roots):
            samples.append((r.lo, r))
            samples.append(((r.hi + roots[i + 1].lo) / 2 if i + 1 < len(roots) else r.hi + 1, None))
    V = P.VARS[v]
    cells = 0
    for x, r in samples:
        if time.time() > deadline:
            raise No()
        if V.nonneg and x < 0 and not (r is not None and r.hi > 0):
            continue
        memo = {}

        def fs(i):
            s = memo.get(i)
            if s is None:
                s = memo[i] = 0 if (r is not None and i == r.f) else sg(ev(facs[i], x))
            return s

        def hs(a):
            s = memo.get(("h", a))
            if s is None:
                s = memo[("h", a)] = sign_exact(hard[a], v, x) if r is None or r.lo == r.hi else sign_at_root(hard[a], v, facs, r)
            return s

        def walk(n):
            while level[n] != LEAF:
                if level[n] in hard:
                    s = hs(level[n])
                    n = kids[n][s + 1]
                    continue
                s, l = dec[level[n]]
                for i, even in l:
                    s *= fs(i) ** 2 if even else fs(i)
                n = kids[n][s + 1]
            return kids[n]
        if walk(pre) is not P.R1:
            continue
        a, b = walk(f), walk(g)
        cells += 1
        if b == dd.UNDEF or a is b or a == b:
            continue
        if type(a) is Rat and type(b) is Rat:
            d = P.rsub(a, b)
            if d is P.R0 or not d.num.t:
                continue
            if surds(d.num, v) or any(surds(q, v) for q, _ in d.den):
                if r is not None and r.lo != r.hi:
                    if sign_at_root(d.num, v, facs, r) == 0:
                        continue
                    raise No()
                if r is not None:
                    if not exact(d.num, v, r.lo):
                        continue
                    return "differs", r.lo
                # open cell: an algebraic function that is not identically zero has at most as many zeros as its norm's degree
                # (or that of another coefficient of its minimal polynomial, bounded by the same product)
                k = len(surds(d.num, v))
                bound = 2 ** k * (max(sum(e * (1 if w == v else max((m2[0][1] if m2 else 0) for m2 in P.VARS[w].arg.t)) for w, e in m) for m in d.num.t) + 1)
                if bound > 300:
                    raise No()
                lo = max([q.hi for q in roots if q.hi < x], default=x - 2)
                if V.nonneg and lo < 0:
                    lo = Fraction(0)
                for i in range(bound + 1):
                    y = x + (lo - x) * Fraction(i, bound + 2)
                    if V.nonneg and y < 0:
                        continue
                    if exact(d.num, v, y):
                        return "differs", y
                continue
            for q, _ in d.den:
                coeffs(q, v)
            c = coeffs(d.num, v)
            if r is None:
                # a rational point of this open cell where they differ
                lo = max([q.hi for q in roots if q.hi < x], default=x - 2)
                for k in range(1, len(c) + 2):
                    y = x if k == 1 else x + (lo - x) * Fraction(k - 1, len(c) + 2)
                    if V.nonneg and y < 0:
                        continue
                    if ev(c, y) != 0:
                        return "differs", y
                raise No()
            if r.lo == r.hi:
                if ev(c, r.lo) == 0:
                    continue
                return "differs", r.lo
            q = sympy.Poly([sympy.Rational(z.numerator, z.denominator) for z in facs[r.f]], T, domain="QQ")
            n = sympy.Poly([sympy.Rational(z.numerator, z.denominator) for z in c], T, domain="QQ")
            if n.rem(q).is_zero:
                continue
            raise No()                   # differs at an irrational point only: left to the general search
        if type(a) is tuple or type(b) is tuple:
            raise No()
        if r is not None and r.lo != r.hi:
            raise No()
        return "differs", x
    return "equal", cells
