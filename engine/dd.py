"""Decision diagrams over sign atoms.

An abstract value is a hash-consed diagram.  Inner nodes test the sign of one
irreducible polynomial (three children: negative, zero, positive); leaves hold a
scalar normal form (poly.Rat), a pointer, or a marker.  All operations are pointwise,
so equal functions (as functions of the sign vector) are the same node.
"""
import sys
from fractions import Fraction
import poly as P
from poly import Rat, R0, R1

sys.setrecursionlimit(100000)

UNDEF = ("u",)
BOT = ("bot",)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


LEAF = 1 << 60
level = []      # per node: atom index or LEAF
kids = []       # per node: (neg, zero, pos) or leaf value
_uniq = {}
_leaf = {}
MAXNODES = 3000000

ATOMS = []      # index -> Poly
_atomix = {}


def lkey(v):
    if type(v) is Rat:
        return ("R", v.id)
    if type(v) is tuple:
        return tuple(lkey(x) if type(x) is Rat or type(x) is tuple else x for x in v)
    return v


def leaf(v):
    k = lkey(v)
    n = _leaf.get(k)
    if n is None:
        n = len(level)
        level.append(LEAF)
        kids.append(v)
        _leaf[k] = n
    return n


def node(a, n, z, p):
    if n == z == p:
        return n
    k = (a, n, z, p)
    r = _uniq.get(k)
    if r is None:
        r = len(level)
        if r > MAXNODES:
            raise Budget("decision diagram larger than %d nodes" % MAXNODES)
        level.append(a)
        kids.append((n, z, p))
        _uniq[k] = r
    return r


def is_leaf(n):
    return level[n] == LEAF


def val(n):
    return kids[n]


N0 = leaf(R0)
N1 = leaf(R1)
NM1 = leaf(P.rconst(-1))
NU = leaf(UNDEF)
NBOT = leaf(BOT)
TRUE, FALSE = N1, N0


def atom(p):
    """p irreducible, primitive, positive lead"""
    i = _atomix.get(p.id)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(p)
        _atomix[p.id] = i
    return i


def const(x):
    return leaf(P.rconst(x))


# ------------------------------------------------------------- apply
_memo = {}


def apply2(op, f, g):
    """op: object with .name and __call__(leafval, leafval)->node id"""
    lf, lg = level[f], level[g]
    if lf == LEAF and lg == LEAF:
        k = (op.name, f, g)
        r = _memo.get(k)
        if r is None:
            r = op.fn(kids[f], kids[g])
            _memo[k] = r
        return r
    sc = op.short
    if sc is not None:
        r = sc(f, g)
        if r is not None:
            return r
    k = (op.name, f, g)
    r = _memo.get(k)
    if r is not None:
        return r
    m = lf if lf < lg else lg
    fn, fz, fp = kids[f] if lf == m else (f, f, f)
    gn, gz, gp = kids[g] if lg == m else (g, g, g)
    a = apply2(op, fn, gn)
    b = a if (fz == fn and gz == gn) else apply2(op, fz, gz)
    c = a if (fp == fn and gp == gn) else (b if (fp == fz and gp == gz) else apply2(op, fp, gp))
    # the leaf operation may return a diagram with atoms above m: recombine by ite
    if min(level[a], level[b], level[c]) > m:
        r = node(m, a, b, c)
    else:
        r = pick(m, a, b, c)
    _memo[k] = r
    return r


def apply1(op, f):
    k = (op.name, f)
    r = _memo.get(k)
    if r is not None:
        return r
    if level[f] == LEAF:
        r = op.fn(kids[f])
    else:
        m = level[f]
        n, z, p = kids[f]
        a = apply1(op, n)
        b = a if z == n else apply1(op, z)
        c = a if p == n else (b if p == z else apply1(op, p))
        if min(level[a], level[b], level[c]) > m:
            r = node(m, a, b, c)
        else:
            r = pick(m, a, b, c)
    _memo[k] = r
    return r


def pick(m, a, b, c):
    """general three-way choice on atom m where children may contain any atoms"""
    if a == b == c:
        return a
    k = ("pick", m, a, b, c)
    r = _memo.get(k)
    if r is not None:
        return r
    l = min(m, level[a], level[b], level[c])
    if l == m:
        a2 = kids[a][0] if level[a] == m else a
        b2 = kids[b][1] if level[b] == m else b
        c2 = kids[c][2] if level[c] == m else c
        r = node(m, a2, b2, c2)
    else:
        def ch(x, i):
            return kids[x][i] if level[x] == l else x
        r = node(l, pick(m, ch(a, 0), ch(b, 0), ch(c, 0)), pick(m, ch(a, 1), ch(b, 1), ch(c, 1)), pick(m, ch(a, 2), ch(b, 2), ch(c, 2)))
    _memo[k] = r
    return r


def ite(c, t, e):
    """c has leaves R0/R1 (UNDEF treated as either -> e)"""
    if c == TRUE:
        return t
    if c == FALSE:
        return e
    if t == e:
        return t
    if t == TRUE and e == FALSE:
        return c
    k = ("ite", c, t, e)
    r = _memo.get(k)
    if r is not None:
        return r
    lc, lt, le = level[c], level[t], level[e]
    if lc == LEAF:
        v = kids[c]
        if type(v) is Rat and v.is_const():
            return t if v is not R0 else e
        if v == UNDEF:
            return e
        if v == BOT:
            return NBOT
        raise Unsupported("branch on non-boolean value %s" % (v,))
    l = min(lc, lt, le)
    cs = kids[c] if lc == l else (c, c, c)
    ts = kids[t] if lt == l else (t, t, t)
    es = kids[e] if le == l else (e, e, e)
    a = ite(cs[0], ts[0], es[0])
    b = ite(cs[1], ts[1], es[1])
    d = ite(cs[2], ts[2], es[2])
    r = node(l, a, b, d)
    _memo[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def constrain(f, c):
    """simplify f under care-set c (generalized cofactor)"""
    if c == TRUE or c == FALSE or level[f] == LEAF:
        return f
    k = ("cons", f, c)
    r = _memo.get(k)
    if r is not None:
        return r
    lf, lc = level[f], level[c]
    if lc == LEAF:
        return f
    if lc < lf:
        # atom not tested by f: or over branches
        n, z, p = kids[c]
        r = constrain(f, OR(OR(n, z), p))
    else:
        n, z, p = kids[f]
        cn, cz, cp = kids[c] if lc == lf else (c, c, c)
        live = [(i, x, y) for i, (x, y) in enumerate(((n, cn), (z, cz), (p, cp))) if y != FALSE]
        if len(live) == 1:
            r = constrain(live[0][1], live[0][2])
        else:
            out = {}
            for i, x, y in live:
                out[i] = constrain(x, y)
            fill = next(iter(out.values()))
            # choose fill for dead branch: if the live ones agree the node vanishes
            r = node(lf, out.get(0, fill if 1 not in out else out.get(1, fill)), out.get(1, fill), out.get(2, fill if 1 not in out else out.get(1, fill)))
    _memo[k] = r
    return r


class Op(object):
    def __init__(self, name, fn, short=None):
        self.name, self.fn, self.short = name, fn, short


# ------------------------------------------------------------- sign of a scalar

OPEN = {}       # var id -> (lo excluded, hi excluded)
BOX = {}        # var id -> (lo, hi): ranges implied by the domain restriction of the obligation


def _cofactor_signs(pre, a):
    """signs of atom a that are compatible with the domain restriction"""
    out = set()
    psd = P.is_psd(ATOMS[a])
    memo = {}

    def sat(n, s):
        l = level[n]
        if l == LEAF:
            return kids[n] is P.R1 or kids[n] == P.R1
        k = (n, s)
        r = memo.get(k)
        if r is None:
            if l == a:
                r = sat(kids[n][s + 1], s)
            else:
                r = any(sat(c, s) for c in set(kids[n]))
            memo[k] = r
        return r
    for s in ((0, 1) if psd else (-1, 0, 1)):
        if sat(pre, s):
            out.add(s)
    return out


def assume(pre):
    """fold into later sign tests what the domain restriction settles (obligations are compared on that domain only)"""
    if is_leaf(pre):
        return
    lo, hi = {}, {}
    open_lo, open_hi = set(), set()
    for a in sorted(support(pre)):
        p = ATOMS[a]
        ss = _cofactor_signs(pre, a)
        if len(ss) == 1:
            (s,) = ss
            p._lit = const(s)
        if len(p.vs) == 1 and len(p.t) <= 2:
            (v,) = p.vs
            if P.VARS[v].kind == "arg" and P.degv(p, v) == 1 and ss:
                co = P.coeffs_in(p, v)
                A = co[1].t[()]
                B = co[0].t[()] if 0 in co and co[0].t else 0
                c = Fraction(-B, A)
                up = 1 if A > 0 else -1
                if (-up) not in ss:       # v >= c
                    if v not in lo or c > lo[v]:
                        lo[v] = c
                        open_lo.discard(v)
                    if c == lo[v] and 0 not in ss:
                        open_lo.add(v)
                if up not in ss:          # v <= c
                    if v not in hi or c < hi[v]:
                        hi[v] = c
                        open_hi.discard(v)
                    if c == hi[v] and 0 not in ss:
                        open_hi.add(v)
    _hull(pre, lo, hi, open_lo, open_hi)
    for v in lo:
        if v in hi and lo[v] <= hi[v]:
            BOX[v] = (lo[v], hi[v])
            OPEN[v] = (v in open_lo, v in open_hi)
    _signmemo.clear()


def _hull(pre, lo, hi, open_lo, open_hi):
    """the exact hull of a domain restriction that is made of linear atoms in one argument"""
    roots, var = [], None
    for a in support(pre):
        p = ATOMS[a]
        if len(p.vs) != 1 or len(p.t) > 2:
            return
        (v,) = p.vs
        if P.VARS[v].kind != "arg" or P.VARS[v].integer or P.degv(p, v) != 1 or var not in (None, v):
            return
        var = v
        co = P.coeffs_in(p, v)
        roots.append(Fraction(-(co[0].t[()] if 0 in co and co[0].t else 0), co[1].t[()]))
    if not roots:
        return
    roots = sorted(set(roots))
    pts = [(roots[0] - 1, None)]
    for i, r in enumerate(roots):
        pts.append((r, r))
        pts.append(((r + roots[i + 1]) / 2 if i + 1 < len(roots) else r + 1, None))

    def at(x):
        n = pre
        while level[n] != LEAF:
            y = P.peval(ATOMS[level[n]], lambda v: x)
            n = kids[n][1 + (y > 0) - (y < 0)]
        return kids[n] is R1
    t = [at(x) for x, _ in pts]
    if True not in t or t[0] or t[-1]:
        return
    i, j = t.index(True), len(t) - 1 - t[::-1].index(True)
    lo[var] = pts[i][0] if pts[i][1] is not None else pts[i - 1][0]
    hi[var] = pts[j][0] if pts[j][1] is not None else pts[j + 1][0]
    (open_lo.discard if pts[i][1] is not None else open_lo.add)(var)
    (open_hi.discard if pts[j][1] is not None else open_hi.add)(var)


def box_floor(x):
    """the integer floor(x) when it is the same everywhere on the box (x linear), else None"""
    if x.den or not BOX or any(v not in BOX for v in x.num.vs):
        return None
    l = h = Fraction(0)
    ho = False
    for m, c in x.num.t.items():
        if m == ():
            l += c
            h += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        v = m[0][0]
        a, b = BOX[v]
        l += c * (a if c > 0 else b)
        h += c * (b if c > 0 else a)
        ho = ho or OPEN[v][1 if c > 0 else 0]
    l, h = l / x.dint, h / x.dint
    f = l.__floor__()
    return f if h < f + 1 or (h == f + 1 and ho) else None


def _range(p, box):
    """interval of polynomial p over the box"""
    l = h = Fraction(0)
    for m, c in p.t.items():
        a = b = Fraction(c)
        for v, e in m:
            x, y = box[v]
            px, py = x ** e, y ** e
            if e % 2 == 0:
                pl, ph = (Fraction(0) if x <= 0 <= y else min(px, py)), max(px, py)
            else:
                pl, ph = px, py
            q = (a * pl, a * ph, b * pl, b * ph)
            a, b = min(q), max(q)
        l += a
        h += b
    return l, h


def box_sign(p, depth=8):
    if not BOX or any(v not in BOX for v in p.vs):
        return None
    if all(m == () or (len(m) == 1 and m[0][1] == 1) for m in p.t):
        l, h = _range(p, BOX)
        lo = any(OPEN[m[0][0]][0 if c > 0 else 1] for m, c in p.t.items() if m)
        ho = any(OPEN[m[0][0]][1 if c > 0 else 0] for m, c in p.t.items() if m)
        if l > 0 or (l == 0 and lo):
            return 1
        if h < 0 or (h == 0 and ho):
            return -1
        return None
    got = None
    work = [({v: BOX[v] for v in p.vs}, depth)]
    n = 0
    while work:
        b, d = work.pop()
        n += 1
        l, h = _range(p, b)
        s = 1 if l > 0 else -1 if h < 0 else None
        if s is None:
            mid = P.peval(p, lambda v, b=b: (b[v][0] + b[v][1]) / 2)
            ms = (mid > 0) - (mid < 0)
            if d == 0 or ms == 0 or n > 400 or (got is not None and ms != got):
                return None
            w = max(b, key=lambda v: b[v][1] - b[v][0])
            x, y = b[w]
            if x == y:
                return None
            m = (x + y) / 2
            b1, b2 = dict(b), dict(b)
            b1[w], b2[w] = (x, m), (m, y)
            work += [(b1, d - 1), (b2, d - 1)]
        elif got is None:
            got = s
        elif got != s:
            return None
    return got


def sign_literal(p):
    """diagram in {-1,0,1} for sign(p), p irreducible"""
    if p._lit is not None:
        return p._lit
    s = box_sign(p) if BOX else None
    if s is not None:
        p._lit = const(s)
        return p._lit
    roots = [v for v in p.vs if P.VARS[v].kind == "sqrt"]
    if len(p.t) == 1 and roots:
        (m, c), = p.t.items()
        # single root variable: sign(sqrt(q)) = sign(q) given q >= 0
        v = roots[0]
        q = P.rat_poly(P.VARS[v].arg)
        s = sign_of(q)
        # domain assumption q >= 0: negative branch is outside the function's domain
        r = apply1(OP_NEG2ZERO, s)
    elif P.is_psd(p):
        a = atom(p)
        r = node(a, N1, N0, N1)
        # negative child canonicalised to the positive one
    elif roots:
        r = _sign_with_root(p, roots)
    else:
        a = atom(p)
        r = node(a, NM1, N0, N1)
    p._lit = r
    return r


OP_NEG2ZERO = Op("neg2zero", lambda x: N0 if x.is_const() and x.const() < 0 else leaf(x))


def _sign_with_root(p, roots):
    # p = A + B*s ;  sign = sA if sA==sB or sB==0 ; sB if sA==0 ; else sA*sign(A^2 - B^2 q)
    if len(roots) > 4:
        a = atom(p)
        return node(a, NM1, N0, N1)
    # eliminate the root whose coefficient is simplest
    best = None
    for v in roots:
        co = P.coeffs_in(p, v)
        if set(co) <= {0, 1}:
            c = len(co[1].t)
            if best is None or c < best[0]:
                best = (c, v, co)
    if best is None:
        a = atom(p)
        return node(a, NM1, N0, N1)
    _, v, co = best
    A, B = co.get(0, P.ZERO), co[1]
    q = P.VARS[v].arg
    try:
        D = P.padd(P.pmul(A, A), P.pmul(P.pmul(B, B), q), 1, -1)
        if len(D.t) > 1500:
            raise P.TooBig("")
        sD = sign_of(P.rat_poly(D))
    except P.TooBig:
        a = atom(p)
        return node(a, NM1, N0, N1)
    sA = sign_of(P.rat_poly(A))
    sB = apply2(OP_SMUL, sign_of(P.rat_poly(B)), apply1(OP_NEG2ZERO, sign_of(P.rat_poly(q))))
    prod = apply2(OP_SMUL, sA, sB)
    same = cmp_sign(prod, lambda s: s > 0)
    azero = cmp_sign(sA, lambda s: s == 0)
    bzero = cmp_sign(sB, lambda s: s == 0)
    r = apply2(OP_SMUL, sA, sD)
    r = ite(same, sA, r)
    r = ite(azero, sB, r)
    r = ite(bzero, sA, r)
    return r


def _smul(a, b):
    if type(a) is Rat and type(b) is Rat:
        return leaf(P.rmul(a, b))
    return NU


OP_SMUL = Op("smul", _smul)

_signmemo = {}


def sign_of(r):
    """diagram in {-1,0,1} for the sign of scalar r"""
    k = r.id
    d = _signmemo.get(k)
    if d is not None:
        return d
    if r.is_const():
        c = r.const()
        d = const(0 if c == 0 else (1 if c > 0 else -1))
    else:
        c, fs = P.factor(r.num)
        d = N1 if c > 0 else NM1
        lits = []
        for p, e in fs:
            l = sign_literal(p)
            if e % 2 == 0:
                l = apply1(OP_ABS1, l)
            lits.append(l)
        for p, e in r.den:
            if e % 2 == 0 or P.is_psd(p):
                continue
            lits.append(sign_literal(p))
        for l in lits:
            d = apply2(OP_SMUL, d, l)
    _signmemo[k] = d
    return d


OP_ABS1 = Op("abs1", lambda x: leaf(P.rconst(abs(x.const()))))
_cmpops = {}


def cmp_sign(d, pred):
    key = "cmp%d%d%d" % (pred(-1), pred(0), pred(1))
    op = _cmpops.get(key)
    if op is None:
        def f(x, pred=pred):
            if type(x) is not Rat:
                return leaf(x)
            return TRUE if pred(x.const()) else FALSE
        op = _cmpops[key] = Op(key, f)
    return apply1(op, d)


def leaves(n, seen=None):
    out, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if level[x] == LEAF:
            out.append(x)
        else:
            st.extend(kids[x])
    return out


def size(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if level[x] != LEAF:
            st.extend(kids[x])
    return len(seen)


def support(n):
    st, seen, at = [n], set(), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if level[x] != LEAF:
            at.add(level[x])
            st.extend(kids[x])
    return at


def lstr(v):
    if type(v) is Rat:
        return P.rstr(v)
    return str(v)


def dump(n, ind=0, out=None, depth=6):
    out = [] if out is None else out
    pad = "  " * ind
    if level[n] == LEAF:
        out.append(pad + lstr(kids[n]))
    elif ind >= depth:
        out.append(pad + "...")
    else:
        a = ATOMS[level[n]]
        for s, c in zip("<=>", kids[n]):
            out.append(pad + "[%s %s 0]" % (P.pstr(a), s))
            dump(c, ind + 1, out, depth)
    return out


# ------------------------------------------------------------- numeric operations

def _num(f):
    def g(a, b):
        if type(a) is Rat and type(b) is Rat:
            try:
                return leaf(f(a, b))
            except P.DivZero:
                return NU
        return special(f, a, b)
    return g


def special(f, a, b):
    if a == BOT or b == BOT:
        return NBOT
    if a == UNDEF or b == UNDEF:
        return NU
    ai, bi = isinf(a), isinf(b)
    nm = f.__name__
    if ai or bi:
        if nm == "radd":
            if ai and bi:
                return leaf(a) if a == b else NU
            return leaf(a if ai else b)
        if nm == "rsub":
            if ai and bi:
                return leaf(a) if a != b else NU
            return leaf(a) if ai else leaf(("inf", -b[1]))
        if nm == "rmul":
            o = b if ai else a
            s = (a if ai else b)[1]
            if isinf(o):
                return leaf(("inf", s * o[1]))
            if o.is_const():
                if o.const() == 0:
                    return N0   # the only "infinite" constants in the sources are max() values
                return leaf(("inf", s if o.const() > 0 else -s))
            return apply1(Op("infmul%d" % s, lambda x, s=s: N0 if x.const() == 0 else leaf(("inf", s * int(x.const())))), sign_of(o))
        if nm == "rdiv":
            if bi and not ai:
                return N0
            return NU
    na, nb = _nullint(a), _nullint(b)
    if na is not a or nb is not b:
        return _num(f)(na, nb)
    raise Unsupported("arithmetic on %s, %s" % (lstr(a), lstr(b)))


def _nullint(a):
    """the integer behind a null based pointer"""
    if type(a) is tuple and len(a) == 3 and a[0] == "p" and a[1] == "null":
        return P.rconst(a[2]) if type(a[2]) is int else a[2]
    return a


def isinf(v):
    return type(v) is tuple and v[0] == "inf"


ADD = Op("add", _num(P.radd), lambda f, g: g if f == N0 else (f if g == N0 else None))


def _sub(a, b):
    return P.rsub(a, b)


_sub.__name__ = "rsub"
SUB = Op("sub", _num(_sub), lambda f, g: f if g == N0 else None)
MUL = Op("mul", _num(P.rmul), lambda f, g: g if f == N1 else (f if g == N1 else None))
DIV = Op("div", _num(P.rdiv), lambda f, g: f if g == N1 else None)


def bit_or(d):
    """the operands when d is exactly a bitwise or of two integers"""
    if d.dint == 1 and not d.den and len(d.num.t) == 1:
        (m, c), = d.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            V = P.VARS[m[0][0]]
            if V.kind == "fn" and V.name == "or" and len(V.arg) == 2:
                return V.arg
    return None


def or_sign(x, y):
    """sign of x|y : zero when both are, negative when either is"""
    return apply2(ORS, sign_of(x), sign_of(y))


def _ors(a, b):
    if type(a) is not Rat or type(b) is not Rat:
        return NU
    p, q = a.const(), b.const()
    return const(0 if p == 0 and q == 0 else (-1 if p < 0 or q < 0 else 1))


ORS = Op("orsign", _ors)


def _sgncmp(a, b):
    """diagram for sign(a-b)"""
    if type(a) is Rat and type(b) is Rat:
        d = P.rsub(a, b)
        o = bit_or(d)
        if o is not None:
            return or_sign(*o)
        return sign_of(d)
    if a == BOT or b == BOT:
        return NBOT
    if a == UNDEF or b == UNDEF:
        return NU
    if isinf(a) or isinf(b):
        x = a[1] if isinf(a) else 0
        y = b[1] if isinf(b) else 0
        return const((x > y) - (x < y))
    if isptr(a) and type(b) is Rat and b.is_const() and b.const() == 0:
        b = ("p", "null", 0)      # zeroed storage read back as a pointer
    if isptr(b) and type(a) is Rat and a.is_const() and a.const() == 0:
        a = ("p", "null", 0)
    fa = type(a) is tuple and a and a[0] == "fn"
    fb = type(b) is tuple and b and b[0] == "fn"
    if fa or fb:                  # a function's address is not null
        if type(a) is Rat or type(b) is Rat or isptr(a) or isptr(b):
            return const(2)
        return const(0 if a == b else 2)
    if isptr(a) and isptr(b):
        if a[1] == b[1]:
            if type(a[2]) is int and type(b[2]) is int:
                return const((a[2] > b[2]) - (a[2] < b[2]))
        return const(2)  # distinct objects: unequal, unordered
    if (isptr(a) and type(b) is Rat) or (isptr(b) and type(a) is Rat):
        return const(2)  # a number is no address of an object
    raise Unsupported("compare %s with %s" % (lstr(a), lstr(b)))


def isptr(v):
    return type(v) is tuple and v[0] == "p"


SCMP = Op("scmp", _sgncmp)


def compare(a, b, pred):
    return cmp_sign(apply2(SCMP, a, b), pred)
