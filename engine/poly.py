"""Normal forms for the scalar part of the abstract domain.

A scalar abstract value is a rational function over *indeterminates* (witness
inputs, and opaque terms such as sqrt(p), atan2(p,q), floor(p) whose arguments are
themselves normal forms).  The representation is canonical:

  * polynomials have integer coefficients, keyed by sorted monomials;
  * denominators are multisets of irreducible primitive polynomials and every
    numerator has been divided by every denominator factor that divides it;
  * sqrt(p)^2 is rewritten to p, square factors are pulled out of roots.

Two values are equal as real functions (where defined) iff their keys are equal,
up to algebraic relations between opaque terms other than the ones above.
"""
from fractions import Fraction
from math import gcd, isqrt
import sympy
from sympy import Poly as SPoly, Symbol, factor_list

# ---------------------------------------------------------------- indeterminates


class Var(object):
    __slots__ = ("id", "name", "kind", "arg", "integer", "nonneg")

    def __init__(self, id, name, kind, arg=None, integer=False, nonneg=False):
        self.id, self.name, self.kind, self.arg = id, name, kind, arg
        self.integer = integer
        self.nonneg = nonneg


VARS = []
_vtab = {}
_syms = []


def var(name, kind="arg", arg=None, integer=False, nonneg=False):
    k = (name, kind, arg)
    v = _vtab.get(k)
    if v is None:
        v = Var(len(VARS), name, kind, arg, integer, nonneg)
        VARS.append(v)
        _syms.append(Symbol("x%d" % v.id))
        _vtab[k] = v
    return v


# ---------------------------------------------------------------- polynomials
# poly: immutable dict wrapper interned by key


class Poly(object):
    __slots__ = ("id", "t", "key", "_fac", "_psd", "_lit", "vs", "_lead")

    def __repr__(self):
        return pstr(self)


_ptab = {}
POLYS = []


def mkpoly(t):
    key = tuple(sorted(t.items()))
    p = _ptab.get(key)
    if p is None:
        p = Poly()
        p.id = len(POLYS)
        p.t = t
        p.key = key
        p._fac = None
        p._psd = None
        p._lit = None
        p._lead = None
        vs = set()
        for m in t:
            for (v, e) in m:
                vs.add(v)
        p.vs = frozenset(vs)
        POLYS.append(p)
        _ptab[key] = p
    return p


ZERO = mkpoly({})
ONE = mkpoly({(): 1})


def pconst(c):
    return mkpoly({(): c} if c else {})


def pvar(v):
    return mkpoly({((v.id, 1),): 1})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        va, vb = a[i][0], b[j][0]
        if va == vb:
            out.append((va, a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mdiv(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def padd(a, b, sa=1, sb=1):
    t = {m: c * sa for m, c in a.t.items()} if sa != 1 else dict(a.t)
    for m, c in b.t.items():
        x = t.get(m, 0) + c * sb
        if x:
            t[m] = x
        else:
            t.pop(m, None)
    return mkpoly(t)


_mulmemo = {}


class TooBig(Exception):
    pass


MAXTERMS = 20000


def pmul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(k)
    if r is None:
        if len(a.t) * len(b.t) > 4000000:
            raise TooBig("polynomial product %d x %d terms" % (len(a.t), len(b.t)))
        t = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                q = mmul(m, n)
                t[q] = t.get(q, 0) + c * d
        t = {m: c for m, c in t.items() if c}
        if len(t) > MAXTERMS:
            raise TooBig("polynomial with %d terms" % len(t))
        r = reduce_roots(t)
        _mulmemo[k] = r
    return r


def has_roots(p):
    return any(VARS[v].kind == "sqrt" for v in p.vs)


def reduce_roots(t):
    """rewrite s^2 -> arg(s) in a term dict, return Poly"""
    while True:
        hit = None
        for m in t:
            for v, e in m:
                if e >= 2 and VARS[v].kind == "sqrt":
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return mkpoly(t)
        arg = VARS[hit].arg  # Poly
        out = {}
        for m, c in t.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e >= 2:
                q, r = divmod(e, 2)
                if r:
                    d[hit] = 1
                else:
                    del d[hit]
                base = tuple(sorted(d.items()))
                f = ONE
                for _ in range(q):
                    f = pmul(f, arg)
                for n, k in f.t.items():
                    mm = mmul(base, n)
                    out[mm] = out.get(mm, 0) + c * k
            else:
                out[m] = out.get(m, 0) + c
        t = {m: c for m, c in out.items() if c}


def content(p):
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def pscale(p, n, d=1):
    return mkpoly({m: c * n // d for m, c in p.t.items()})


def mon_sort_key(m):
    # graded lex on (degree, exponents)
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def lead(p):
    if p._lead is None:
        p._lead = max(p.t, key=mon_sort_key)
    return p._lead


def primitive(p):
    """-> (int content with sign, primitive poly with positive leading coeff)"""
    if p is ZERO:
        return 0, ONE
    g = content(p)
    if p.t[lead(p)] < 0:
        g = -g
    if g == 1:
        return 1, p
    return g, mkpoly({m: c // g for m, c in p.t.items()})


def _lexkey(m, nv):
    d = dict(m)
    return tuple(d.get(v, 0) for v in nv)


def pdivexact(a, b):
    """exact division a/b over Z (b primitive) or None"""
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if not b.vs <= a.vs:
        return None
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        out = {}
        for m, c in a.t.items():
            q = mdiv(m, bm)
            if q is None or c % bc:
                return None
            out[q] = c // bc
        return mkpoly(out)
    nv = sorted(a.vs)
    # quick degree test
    for v in b.vs:
        da = max(dict(m).get(v, 0) for m in a.t)
        db = max(dict(m).get(v, 0) for m in b.t)
        if db > da:
            return None
    key = lambda m: _lexkey(m, nv)
    lb = max(b.t, key=key)
    cb = b.t[lb]
    rem = dict(a.t)
    import heapq
    out = {}
    # simple loop with heap of keys
    heap = [tuple(-x for x in key(m)) for m in rem]
    back = {tuple(-x for x in key(m)): m for m in rem}
    heapq.heapify(heap)
    steps = 0
    while heap:
        k = heapq.heappop(heap)
        m = back.get(k)
        c = rem.get(m, 0)
        if not c:
            continue
        q = mdiv(m, lb)
        if q is None or c % cb:
            return None
        qc = c // cb
        out[q] = qc
        for n, d in b.t.items():
            mm = mmul(q, n)
            if mm in rem:
                rem[mm] -= qc * d
            else:
                rem[mm] = -qc * d
                kk = tuple(-x for x in key(mm))
                back[kk] = mm
                heapq.heappush(heap, kk)
        steps += 1
        if steps > 5000:
            return None
    return mkpoly(out)


def to_sympy(p):
    vs = sorted(p.vs)
    gens = [_syms[v] for v in vs]
    d = {}
    for m, c in p.t.items():
        e = dict(m)
        d[tuple(e.get(v, 0) for v in vs)] = c
    return SPoly.from_dict(d, *gens, domain=sympy.ZZ), vs


def from_sympy(sp, vs):
    t = {}
    for e, c in sp.terms():
        m = tuple((v, int(x)) for v, x in zip(vs, e) if x)
        if int(c):
            t[m] = int(c)
    return mkpoly(t)


IRRED = []  # registered irreducible polys (ids)
_irred = set()


def _reg(p):
    if p.id not in _irred:
        _irred.add(p.id)
        IRRED.append(p)


def degv(p, v):
    d = 0
    for m in p.t:
        for (w, e) in m:
            if w == v and e > d:
                d = e
    return d


def coeffs_in(p, v):
    """dict e -> Poly, coefficients of v^e"""
    out = {}
    for m, c in p.t.items():
        e = 0
        rest = m
        for i, (w, x) in enumerate(m):
            if w == v:
                e = x
                rest = m[:i] + m[i + 1:]
                break
        out.setdefault(e, {})[rest] = c
    return {e: mkpoly(t) for e, t in out.items()}


STATS = {"factor_sympy": 0, "gcd_sympy": 0}


def pgcd(a, b):
    if a is ZERO:
        return primitive(b)[1]
    if b is ZERO:
        return primitive(a)[1]
    common = a.vs & b.vs
    if not common:
        return ONE
    if len(a.t) == 1 or len(b.t) == 1:
        m = a if len(a.t) == 1 else b
        o = b if m is a else a
        (mm, _), = m.t.items()
        out = []
        for v, e in mm:
            k = min(dict(n).get(v, 0) for n in o.t)
            k = min(k, e)
            if k:
                out.append((v, k))
        return mkpoly({tuple(out): 1})
    STATS["gcd_sympy"] += 1
    vs = sorted(a.vs | b.vs)
    gens = [_syms[v] for v in vs]

    def conv(p):
        d = {}
        for m, c in p.t.items():
            e = dict(m)
            d[tuple(e.get(v, 0) for v in vs)] = c
        return SPoly.from_dict(d, *gens, domain=sympy.ZZ)
    g = sympy.gcd(conv(a), conv(b))
    return primitive(from_sympy(g, vs))[1]


def factor(p):
    """-> (int content, tuple of (Poly irreducible primitive, exp))"""
    if p._fac is not None:
        return p._fac
    if p is ZERO:
        r = (0, ())
    else:
        c, q = primitive(p)
        fs = {}
        if q.vs:
            _factor_prim(q, fs)
        r = (c, tuple(sorted(fs.items(), key=lambda kv: kv[0].id)))
    p._fac = r
    return r


def _addf(fs, p, e=1):
    if p is ONE:
        return
    _reg(p)
    fs[p] = fs.get(p, 0) + e


def _factor_prim(p, fs, mult=1):
    """p primitive, positive lead"""
    if p is ONE:
        return
    if p.id in _irred:
        _addf(fs, p, mult)
        return
    # monomial content
    it = iter(p.t)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(common):
            x = min(common[v], d.get(v, 0))
            if x:
                common[v] = x
            else:
                del common[v]
        if not common:
            break
    if common:
        mon = tuple(sorted(common.items()))
        for v, e in mon:
            _addf(fs, pvar(VARS[v]), e * mult)
        q = mkpoly({mdiv(m, mon): c for m, c in p.t.items()})
        _factor_prim(q, fs, mult)
        return
    if len(p.t) == 1:
        return
    deg = max(sum(e for _, e in m) for m in p.t)
    if deg == 1:
        _addf(fs, p, mult)
        return
    # trial division by known irreducibles
    for q in IRRED:
        if q.vs <= p.vs and len(q.t) > 1 and len(q.t) <= len(p.t):
            d = pdivexact(p, q)
            if d is not None:
                _addf(fs, q, mult)
                c, d = primitive(d)
                _factor_prim(d, fs, mult)
                return
    # linear in some variable
    lin = None
    for v in sorted(p.vs):
        if degv(p, v) == 1:
            lin = v
            break
    if lin is not None:
        co = coeffs_in(p, lin)
        A, B = co[1], co.get(0, ZERO)
        g = pgcd(A, B)
        if g is ONE:
            _addf(fs, p, mult)
            return
        d = pdivexact(p, g)
        _factor_prim(primitive(g)[1], fs, mult)
        _addf(fs, primitive(d)[1], mult)
        return
    STATS["factor_sympy"] += 1
    sp, vs = to_sympy(p)
    _, fl = sp.factor_list()
    for f, e in fl:
        q = primitive(from_sympy(f, vs))[1]
        _addf(fs, q, e * mult)


# ---------------------------------------------------------------- positivity

PSD_HINTS = set()  # polys asserted PSD by a derived fact (poly ids)


def is_psd(p):
    """sound test: p >= 0 everywhere on the reals (opaque roots are >= 0)"""
    if p._psd is None:
        p._psd = _psd(p)
    return p._psd or p.id in PSD_HINTS


def _psd(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0:
            return False
        return all(e % 2 == 0 or VARS[v].kind == "sqrt" or VARS[v].nonneg for v, e in m)
    # all monomials nonneg
    if all(c > 0 and all(e % 2 == 0 or VARS[v].kind == "sqrt" or VARS[v].nonneg for v, e in m) for m, c in p.t.items()):
        return True
    deg = max(sum(e for _, e in m) for m in p.t)
    if deg == 2:
        return _psd_quadratic(p)
    if deg == 4:
        return _psd_quartic(p)
    return False


def zero_forms(p):
    """polynomials that vanish wherever the PSD polynomial p does (bases of its sum of squares)"""
    r = _zf.get(p.id)
    if r is None:
        out = []
        if len(p.t) > 1 and max(sum(e for _, e in m) for m in p.t) in (2, 4) and is_psd(p):
            deg = max(sum(e for _, e in m) for m in p.t)
            rows = []
            if (_psd_quadratic if deg == 2 else _psd_quartic)(p, rows):
                for row in rows:
                    q = ZERO
                    for c, m in row:
                        q = padd(q, mkpoly({m: c}))
                    q = primitive(q)[1]
                    if q is not p:
                        out.append(q)
        r = _zf[p.id] = out
    return r


_zf = {}


def _ldl_psd(M, rows=None, basis=None):
    n = len(M)
    M = [[Fraction(x) for x in r] for r in M]
    for i in range(n):
        d = M[i][i]
        if d < 0:
            return False
        if d == 0:
            if any(M[i][j] != 0 for j in range(i + 1, n)):
                return False
            continue
        if rows is not None:
            den = 1
            for k in range(i, n):
                den = den * M[i][k].denominator
            rows.append([(int(M[i][k] * den), basis[k]) for k in range(i, n) if M[i][k]])
        for j in range(i + 1, n):
            f = M[j][i] / d
            if f:
                for k in range(i, n):
                    M[j][k] -= f * M[i][k]
    return True


def _psd_quadratic(p, rows=None):
    vs = sorted(p.vs)
    idx = {v: i + 1 for i, v in enumerate(vs)}
    n = len(vs) + 1
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.t.items():
        flat = []
        for v, e in m:
            flat += [idx[v]] * e
        while len(flat) < 2:
            flat.append(0)
        i, j = flat
        if i == j:
            M[i][i] += c
        else:
            M[i][j] += Fraction(c, 2)
            M[j][i] += Fraction(c, 2)
    return _ldl_psd(M, rows, [()] + [((v, 1),) for v in vs])


def _psd_quartic(p, rows=None):
    """Gram matrix over degree-2 monomials that is unique when every product
    has a single representation; handles sums of squares of bilinear minors."""
    # try the multilinear-squares gram: p = sum_{m} c m ; choose m = a*b with a,b from
    # the half-degree monomial support; solve with the simple assignment that splits
    # each monomial uniformly over its representations.
    if any(sum(e for _, e in m) != 4 for m in p.t):
        return False
    half = set()
    for m in p.t:
        if all(e % 2 == 0 for _, e in m):
            half.add(tuple((v, e // 2) for v, e in m))
    half = sorted(half)
    if len(half) > 80 or not half:
        return False
    reps = {}
    for i, a in enumerate(half):
        for j in range(i, len(half)):
            reps.setdefault(mmul(a, half[j]), []).append((i, j))
    n = len(half)
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.t.items():
        r = reps.get(m)
        if not r:
            return False
        diag = [x for x in r if x[0] == x[1]]
        use = diag if diag else r
        if len(use) > 1:
            # ambiguous: prefer pairs sharing no variable overlap -- split evenly
            pass
        w = Fraction(c, len(use))
        for i, j in use:
            if i == j:
                M[i][i] += w
            else:
                M[i][j] += w / 2
                M[j][i] += w / 2
    return _ldl_psd(M, rows, half)


# ---------------------------------------------------------------- rational functions


class Rat(object):
    """num / (dint * prod den_i^e_i), canonical"""
    __slots__ = ("id", "num", "dint", "den", "key")

    def is_const(self):
        return not self.den and (self.num is ZERO or (len(self.num.t) == 1 and () in self.num.t))

    def const(self):
        return Fraction(self.num.t.get((), 0), self.dint)

    def __repr__(self):
        return rstr(self)


_rtab = {}
RATS = []


def _mkrat(num, dint, den):
    if num is ZERO:
        dint, den = 1, ()
    else:
        if dint < 0:
            num, dint = pscale(num, -1), -dint
        g = gcd(content(num), dint)
        if g > 1:
            num = mkpoly({m: c // g for m, c in num.t.items()})
            dint //= g
    key = (num.id, dint, tuple((p.id, e) for p, e in den))
    r = _rtab.get(key)
    if r is None:
        r = Rat()
        r.id = len(RATS)
        r.num, r.dint, r.den, r.key = num, dint, den, key
        RATS.append(r)
        _rtab[key] = r
    return r


def _norm(num, dint, den):
    """den: dict Poly->exp ; cancel"""
    if num is ZERO:
        return R0
    # eliminate plain roots from the denominator: x/s -> x*s/arg
    for p in list(den):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            (v, e), = m
            if VARS[v].kind == "sqrt" and p in den:
                k = den.pop(p)
                if k % 2:
                    num = pmul(num, p)
                    k += 1
                cc, fs = factor(VARS[v].arg)
                dint *= cc ** (k // 2)
                for q, x in fs:
                    den[q] = den.get(q, 0) + x * (k // 2)
    for p in list(den):
        e = den[p]
        while e > 0:
            q = pdivexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            den[p] = e
        else:
            del den[p]
    return _mkrat(num, dint, tuple(sorted(den.items(), key=lambda kv: kv[0].id)))


def rat_poly(p, dint=1):
    return _mkrat(p, dint, ())


def rconst(fr):
    fr = Fraction(fr)
    return _mkrat(pconst(fr.numerator), fr.denominator, ())


R0 = _mkrat(ZERO, 1, ())
R1 = rconst(1)


def rvar(v):
    return _mkrat(pvar(v), 1, ())


_addmemo = {}


def radd(a, b, sb=1):
    if b is R0:
        return a
    if a is R0:
        return b if sb == 1 else rneg(b)
    k = (a.id, b.id, sb)
    r = _addmemo.get(k)
    if r is None:
        if not a.den and not b.den:
            if a.dint == b.dint:
                r = _mkrat(padd(a.num, b.num, 1, sb), a.dint, ())
            else:
                L = a.dint * b.dint // gcd(a.dint, b.dint)
                r = _mkrat(padd(a.num, b.num, L // a.dint, sb * (L // b.dint)), L, ())
        else:
            da, db = dict(a.den), dict(b.den)
            den = dict(da)
            for p, e in db.items():
                den[p] = max(den.get(p, 0), e)
            na, nb = a.num, b.num
            for p, e in den.items():
                for _ in range(e - da.get(p, 0)):
                    na = pmul(na, p)
                for _ in range(e - db.get(p, 0)):
                    nb = pmul(nb, p)
            L = a.dint * b.dint // gcd(a.dint, b.dint)
            r = _norm(padd(na, nb, L // a.dint, sb * (L // b.dint)), L, den)
        _addmemo[k] = r
    return r


def rsub(a, b):
    return radd(a, b, -1)


def rneg(a):
    return _mkrat(pscale(a.num, -1), a.dint, a.den)


_rmul = {}


def rmul(a, b):
    if a is R0 or b is R0:
        return R0
    if a is R1:
        return b
    if b is R1:
        return a
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _rmul.get(k)
    if r is None:
        if not a.den and not b.den:
            r = _mkrat(pmul(a.num, b.num), a.dint * b.dint, ())
        else:
            # cross-cancel first to keep products small
            da, db = dict(a.den), dict(b.den)
            na, nb = a.num, b.num
            for p in list(db):
                while db.get(p, 0):
                    q = pdivexact(na, p)
                    if q is None:
                        break
                    na = q
                    db[p] -= 1
            for p in list(da):
                while da.get(p, 0):
                    q = pdivexact(nb, p)
                    if q is None:
                        break
                    nb = q
                    da[p] -= 1
            den = {p: e for p, e in da.items() if e}
            for p, e in db.items():
                if e:
                    den[p] = den.get(p, 0) + e
            num = pmul(na, nb)
            if any(has_roots(p) for p in den) or has_roots(na) or has_roots(nb):
                r = _norm(num, a.dint * b.dint, den)
            else:
                r = _mkrat(num, a.dint * b.dint, tuple(sorted(den.items(), key=lambda kv: kv[0].id)))
        _rmul[k] = r
    return r


_rinv = {}


class DivZero(Exception):
    pass


def rinv(a):
    r = _rinv.get(a.id)
    if r is None:
        if a is R0:
            raise DivZero()
        c, fs = factor(a.num)
        num = pconst(a.dint)
        for p, e in a.den:
            for _ in range(e):
                num = pmul(num, p)
        r = _norm(num, c, dict(fs))
        _rinv[a.id] = r
    return r


def rdiv(a, b):
    return rmul(a, rinv(b))


def rfactors(r):
    """-> (sign of constant, list of (Poly, odd/even exponent) num, den)"""
    c, fs = factor(r.num)
    return c, fs, r.den


# ---------------------------------------------------------------- printing

def vname(v):
    V = VARS[v]
    if V.kind == "sqrt":
        return "sqrt(%s)" % pstr(V.arg)
    if V.kind == "fn":
        return "%s(%s)" % (V.name, ", ".join(str(x) for x in V.arg))
    return V.name


def pstr(p, limit=12):
    if p is ZERO:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda kv: mon_sort_key(kv[0]), reverse=True)):
        if i >= limit:
            out.append(" + ...(%d terms)" % len(p.t))
            break
        s = "*".join(vname(v) + ("^%d" % e if e > 1 else "") for v, e in m)
        a = abs(c)
        t = s if (a == 1 and s) else (str(a) + ("*" + s if s else ""))
        out.append((" - " if c < 0 else " + ") + t if i else ("-" if c < 0 else "") + t)
    return "".join(out)


def rstr(r):
    n = pstr(r.num)
    if r.dint == 1 and not r.den:
        return n
    d = "*".join((["%d" % r.dint] if r.dint != 1 else []) + ["(%s)%s" % (pstr(p), "^%d" % e if e > 1 else "") for p, e in r.den])
    return "(%s)/(%s)" % (n, d)


# ---------------------------------------------------------------- evaluation at points (for difference witnesses only)

def peval(p, env):
    s = 0
    for m, c in p.t.items():
        x = c
        for v, e in m:
            x = x * env(v) ** e
        s = s + x
    return s
