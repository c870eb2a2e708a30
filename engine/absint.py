"""Gated-SSA abstract interpretation of LLVM IR.

One forward dataflow pass over a function's control-flow graph in weak topological
order.  The abstract state at a program point is (guard, memory): the guard is the
decision diagram of the conditions under which control reaches the point, memory maps
(object, byte offset) to decision diagrams.  States are *joined* at every control-flow
merge (phi nodes and memory cells become gated values); no path is enumerated.  Loops
are unrolled while the back-edge guard is not false, which terminates when trip counts
are determined by the witness; otherwise the obligation is reported as not analysable.
"""
from fractions import Fraction
import os
import re
import struct
import llir
import dd
import poly as P
from dd import leaf, N0, N1, NU, NBOT, TRUE, FALSE, AND, OR, NOT, ite, Op, apply1, apply2, Unsupported, Budget
from poly import Rat

LOOP_LIMIT = 96
NULL = leaf(("p", "null", 0))

# compile-time constants are doubles: map them back to the rational they round, and
# multiples of pi to an exact indeterminate, so that folding is not a difference.
import math
PI = P.var("pi", nonneg=True)
_constmemo = {}


def snap(fr):
    r = _constmemo.get(fr)
    if r is not None:
        return r
    if type(fr) is tuple:
        if fr[0] == "inf":
            r = leaf(fr)
        else:
            r = NU
    elif abs(fr) >= Fraction(10) ** 300:
        r = leaf(("inf", 1 if fr > 0 else -1))
    elif fr and abs(fr) < Fraction(1, 10 ** 300):
        r = N0   # numeric_limits::min()
    elif fr.denominator <= 1 << 12:
        r = dd.const(fr)
    else:
        f = float(fr)
        r = None
        c = fr.limit_denominator(1000)
        if float(c) == f or abs(f - float(c)) <= abs(f) * 2e-16:
            r = dd.const(c)
        if r is None:
            k = Fraction(f / math.pi).limit_denominator(360)
            if k and abs(float(k) * math.pi - f) <= abs(f) * 4e-16:
                r = leaf(P.rmul(P.rconst(k), P.rvar(PI)))
        if r is None:
            k = Fraction(f * math.pi).limit_denominator(360)
            if k and abs(float(k) / math.pi - f) <= abs(f) * 4e-16:
                r = leaf(P.rdiv(P.rconst(k), P.rvar(PI)))
        if r is None:
            # decimal literals (tolerances) : shortest repr
            r = dd.const(Fraction(repr(f)))
    _constmemo[fr] = r
    return r


# ---------------------------------------------------------------- leaf operations

def opaque(name, *args, **kw):
    if all(type(a) is Rat for a in args):
        v = P.var(name, "fn", tuple(args), integer=kw.get("integer", False), nonneg=kw.get("nonneg", False))
        return leaf(P.rvar(v))
    for a in args:
        if a == dd.BOT:
            return NBOT
    if any(a == dd.UNDEF for a in args):
        return NU
    raise Unsupported("%s(%s)" % (name, ", ".join(dd.lstr(a) for a in args)))


def rat_only(fn):
    def g(x):
        if type(x) is Rat:
            return fn(x)
        if x == dd.BOT:
            return NBOT
        if x == dd.UNDEF:
            return NU
        if dd.isinf(x) and fn is fabs_leaf:
            return leaf(("inf", 1))
        if dd.isinf(x) and fn is sqrt_leaf:
            return leaf(x) if x[1] > 0 else NU
        raise Unsupported("numeric op on %s" % dd.lstr(x))
    return g


def fabs_leaf(x):
    if x.is_const():
        return dd.const(abs(x.const()))
    return ite(dd.cmp_sign(dd.sign_of(x), lambda s: s < 0), leaf(P.rneg(x)), leaf(x))


def sqrt_leaf(x):
    if x is P.R0:
        return N0
    c, fs = P.factor(x.num)
    c *= x.dint
    D = dd.const(Fraction(1, x.dint))
    odd = []
    outer = []  # (poly, exp) whose absolute value comes out
    for p, e in fs:
        if e // 2:
            outer.append((p, e // 2))
        if e % 2:
            odd.append(p)
    for p, e in x.den:
        if e % 2:
            odd.append(p)
        k = (e + 1) // 2
        outer.append((p, -k))
    # constant: c = s^2 * f
    neg = c < 0
    n = abs(c)
    s = 1
    f = 1
    d = 2
    m = n
    while d * d <= m and d < 2000:
        while m % (d * d) == 0:
            m //= d * d
            s *= d
        d += 1
    f = m
    r = math.isqrt(f)
    if r * r == f:
        s *= r
        f = 1
    res = apply2(dd.MUL, D, dd.const(s))
    psd = [p for p in odd if P.is_psd(p)]
    rest = [p for p in odd if not P.is_psd(p)]
    for p in psd:
        if len(p.t) == 1 and () not in p.t:
            pass
        res = apply2(dd.MUL, res, leaf(P.rvar(P.var("sqrt", "sqrt", p, nonneg=True))))
    if f != 1 and not (rest or neg):
        res = apply2(dd.MUL, res, leaf(P.rvar(P.var("sqrt", "sqrt", P.pconst(f), nonneg=True))))
    elif rest or neg:
        q = P.pconst(-f if neg else f)
        for p in rest:
            q = P.pmul(q, p)
        res = apply2(dd.MUL, res, leaf(P.rvar(P.var("sqrt", "sqrt", q, nonneg=True))))
    for p, e in outer:
        b = leaf(P.rat_poly(p))
        if abs(e) % 2 and not P.is_psd(p):
            b = fabs_leaf(P.rat_poly(p))
        for _ in range(abs(e)):
            res = apply2(dd.MUL if e > 0 else dd.DIV, res, b)
    return res


FABS = Op("fabs", rat_only(fabs_leaf))
SQRT = Op("sqrt", rat_only(sqrt_leaf))


def is_integral(x):
    return x.dint == 1 and not x.den and all(P.VARS[v].integer for v in x.num.vs)


def round_leaf(kind):
    def f(x):
        if x.is_const():
            c = x.const()
            fl = c.numerator // c.denominator
            if kind == "floor":
                return dd.const(fl)
            if kind == "ceil":
                return dd.const(-((-c.numerator) // c.denominator))
            if kind == "trunc":
                return dd.const(fl if c >= 0 else -((-c.numerator) // c.denominator))
            if kind == "round":
                return dd.const((abs(c) + Fraction(1, 2)).__floor__() * (1 if c >= 0 else -1))
        if is_integral(x):
            return leaf(x)
        if kind == "trunc":
            # towards zero: floor of a non-negative value, minus the floor of the negated one otherwise
            lo = apply1(ROUND["floor"], leaf(x))
            hi = apply2(dd.MUL, apply1(ROUND["floor"], apply2(dd.MUL, leaf(x), dd.const(-1))), dd.const(-1))
            return ite(dd.cmp_sign(dd.sign_of(x), lambda s: s < 0), hi, lo)
        if kind == "floor":
            k = dd.box_floor(x)
            if k is not None:
                return dd.const(k)
        # pull integral summands out of floor and ceil
        if kind in ("floor", "ceil") and not x.den:
            D = x.dint
            part = {m: c // D * D for m, c in x.num.t.items() if all(P.VARS[v].integer for v, _ in m)}
            part = {m: c for m, c in part.items() if c}
            if part:
                whole = P.mkpoly(part)
                rest = P.rat_poly(P.padd(x.num, whole, 1, -1), D)
                return apply2(dd.ADD, leaf(P.rat_poly(P.pscale(whole, 1, D))), apply1(ROUND[kind], leaf(rest)))
        return opaque(kind, x, integer=True)
    return f


ROUND = {}


def reset_round():
    """forget roundings computed before the domain restriction was known"""
    for k in ("floor", "ceil", "trunc", "round", "rint"):
        ROUND[k] = Op(k, rat_only(round_leaf(k)))


reset_round()


def _f32(x):
    """narrowing a double to single precision is not the identity: an opaque term"""
    if x.is_const() or is_integral(x) or (len(x.num.t) == 1 and not x.den and all(P.VARS[v].kind == "fn" and P.VARS[v].name == "f32" for v in x.num.vs)):
        return leaf(x)
    return opaque("f32", x)


F32 = Op("f32", rat_only(_f32))


def _odd_even(name, odd):
    def f(x):
        if x is P.R0:
            if name in ("sin", "tan", "asin", "atan", "sinh", "tanh"):
                return N0
            if name == "cos":
                return N1
        neg = (not x.is_const() and x.num.t[P.lead(x.num)] < 0) or (x.is_const() and x.const() < 0)
        if neg:
            y = opaque(name, P.rneg(x))
            return apply1(NEG, y) if odd else y
        return opaque(name, x)
    return f


def _plain(name):
    return lambda x: opaque(name, x)


NEG = Op("neg", lambda x: leaf(P.rneg(x)) if type(x) is Rat else (leaf(("inf", -x[1])) if dd.isinf(x) else leaf(x)))
UN = {}
for _n, _o in (("sin", True), ("tan", True), ("asin", True), ("atan", True), ("cos", False)):
    UN[_n] = Op(_n, rat_only(_odd_even(_n, _o)))
for _n in ("acos", "exp", "log", "log10", "log2", "cbrt", "exp2"):
    UN[_n] = Op(_n, rat_only(_plain(_n)))


def _atan2(y, x):
    if type(y) is Rat and type(x) is Rat:
        neg = y is not P.R0 and y.num.t[P.lead(y.num)] < 0
        if neg:
            return apply1(NEG, opaque("atan2", P.rneg(y), x))
    return opaque("atan2", y, x)


BI = {
    "atan2": Op("atan2", _atan2),
    "pow": Op("pow", lambda a, b: _pow(a, b)),
    "fmod": Op("fmod", lambda a, b: opaque("fmod", a, b)),
    "hypot": Op("hypot", lambda a, b: SQRT.fn(P.radd(P.rmul(a, a), P.rmul(b, b))) if type(a) is Rat and type(b) is Rat else opaque("hypot", a, b)),
}


def _pow(a, b):
    if type(a) is Rat and type(b) is Rat and b.is_const():
        c = b.const()
        if c.denominator == 1 and abs(c) <= 8:
            r = P.R1
            for _ in range(abs(int(c))):
                r = P.rmul(r, a)
            return leaf(r if c >= 0 else P.rinv(r))
        if c == Fraction(1, 2):
            return SQRT.fn(a)
    return opaque("pow", a, b)


def fcopysign(a, b):
    m = apply1(FABS, a)
    return ite(dd.compare(b, N0, lambda s: s < 0), apply1(NEG, m), m)


def fmin2(a, b):
    return ite(dd.compare(a, b, lambda s: s < 0), a, b)


def fmax2(a, b):
    return ite(dd.compare(a, b, lambda s: s > 0), a, b)


def int_bin(op, w):
    def f(a, b):
        if type(a) is Rat and type(b) is Rat:
            if a.is_const() and b.is_const():
                x, y = a.const(), b.const()
                if x.denominator == 1 and y.denominator == 1:
                    x, y = int(x), int(y)
                    m = (1 << w) - 1
                    ux, uy = x & m, y & m
                    if op == "and":
                        r = ux & uy
                    elif op == "or":
                        r = ux | uy
                    elif op == "xor":
                        r = ux ^ uy
                    elif op == "shl":
                        r = ux << uy if uy < w else 0
                    elif op == "lshr":
                        r = ux >> uy if uy < w else 0
                    elif op == "ashr":
                        r = _signed(ux, w) >> uy if uy < w else 0
                    elif op == "udiv":
                        if uy == 0:
                            return NU
                        r = ux // uy
                    elif op == "urem":
                        if uy == 0:
                            return NU
                        r = ux % uy
                    elif op in ("sdiv", "srem"):
                        sx, sy = _signed(ux, w), _signed(uy, w)
                        if sy == 0:
                            return NU
                        q = abs(sx) // abs(sy)
                        if (sx < 0) != (sy < 0):
                            q = -q
                        r = q if op == "sdiv" else sx - sy * q
                    return dd.const(_wrap(r, w))
            if b.is_const():
                y = b.const()
                if op in ("and", "or", "xor", "shl", "lshr", "ashr") and y == 0:
                    return N0 if op == "and" else leaf(a)
                if op == "and" and y == -1:
                    return leaf(a)
                if op == "and" and w > 1 and y == (1 << (w - 1)) - 1:
                    return leaf(a)  # clearing the sign bit of a nonnegative count
                if op == "shl" and 0 <= y < w:
                    return leaf(P.rmul(a, P.rconst(1 << int(y))))
                if op == "xor" and y == -1:
                    return leaf(P.rsub(P.rconst(-1), a))
                if op in ("udiv", "sdiv", "urem", "srem") and y == 1:
                    return leaf(a) if op.endswith("div") else N0
                if op == "or" and is_shifted(a, int(y)):
                    return leaf(P.radd(a, b))
            if a.is_const() and op in ("and", "or", "xor"):
                return f(b, a)
            nm = op
            if op in ("lshr", "ashr") and b.is_const():
                # a right shift rounds down (a logical one too: LLVM writes trunc(ashr) as trunc(lshr))
                b = P.rconst(1 << int(b.const()))
                nm = "idiv" if plainly_nonneg(a) else "ishr"
            elif op in ("udiv", "sdiv"):
                nm = "idiv"
            if nm in ("idiv", "ishr") and op != "udiv" and b.is_const():
                k = int(b.const())
                if k > 1 and a.dint == 1 and not a.den and all(c % k == 0 for c in a.num.t.values()):
                    return leaf(P.rdiv(a, b))  # exact
            if nm != op:
                pass
            elif op in ("urem", "srem"):
                nm = "imod"
            elif op in ("and", "or", "xor") and a.id > b.id:
                a, b = b, a
            return opaque(nm, a, b, integer=True)
        if a == dd.BOT or b == dd.BOT:
            return NBOT
        if a == dd.UNDEF or b == dd.UNDEF:
            return NU
        if dd.isptr(a) and type(a[2]) is int and type(b) is Rat and b.is_const() and w == 64:
            # tag bits in the low bits of a pointer to an 8-byte aligned object
            y = int(b.const())
            if op == "or" and 0 <= y < 8:
                return leaf(("p", a[1], a[2] | y))
            if op == "and" and 0 <= y < 8:
                return dd.const(a[2] & y)
            if op == "and" and -8 <= y < 0:
                return leaf(("p", a[1], a[2] & y))
        raise Unsupported("%s on %s, %s" % (op, dd.lstr(a), dd.lstr(b)))
    return Op("i%s%d" % (op, w), f)


def plainly_nonneg(a):
    return not a.den and a.dint > 0 and all(c >= 0 and all(P.VARS[v].nonneg or e % 2 == 0 for v, e in m) for m, c in a.num.t.items())


def is_shifted(a, y):
    k = y.bit_length()
    return y >= 0 and a.dint == 1 and not a.den and all(c % (1 << k) == 0 for c in a.num.t.values())


def _signed(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def _wrap(x, w):
    if w == 1:
        return x & 1
    return _signed(x, w)


_intops = {}


def intop(op, w):
    k = (op, w)
    if k not in _intops:
        _intops[k] = int_bin(op, w)
    return _intops[k]


def wrapop(w):
    k = ("wrap", w)
    if k not in _intops:
        def f(x):
            if type(x) is Rat and x.is_const() and x.const().denominator == 1:
                return dd.const(_wrap(int(x.const()), w))
            return leaf(x)
        _intops[k] = Op("wrap%d" % w, f)
    return _intops[k]


def zextop(w):
    k = ("zext", w)
    if k not in _intops:
        def f(x):
            if type(x) is Rat and x.is_const() and x.const().denominator == 1:
                return dd.const(int(x.const()) & ((1 << w) - 1))
            return leaf(x)
        _intops[k] = Op("zext%d" % w, f)
    return _intops[k]


LOST = leaf(("lost",))     # bytes of a value the domain cannot take apart


def _ptradd(a, b):
    if a is P.R0:
        a = ("p", "null", 0)
    b = dd._nullint(b)
    if dd.isptr(a) and type(b) is Rat:
        if b.is_const() and b.const().denominator == 1:
            if type(a[2]) is int:
                return leaf(("p", a[1], a[2] + int(b.const())))
            return leaf(("p", a[1], P.radd(a[2], b)))
        off = P.radd(P.rconst(a[2]) if type(a[2]) is int else a[2], b)
        return leaf(("p", a[1], off))
    if a == dd.UNDEF or b == dd.UNDEF:
        return NU
    if a == dd.BOT or b == dd.BOT:
        return NBOT
    if type(a) is Rat and a.is_const():
        return leaf(("p", "null", 0))  # a number is no address of an object: using the result is undefined
    raise Unsupported("pointer arithmetic %s + %s" % (dd.lstr(a), dd.lstr(b)))


PTRADD = Op("ptradd", _ptradd)


def _ptrint_sub(a, b):
    if dd.isptr(a) and dd.isptr(b):
        if a[1] == b[1] and type(a[2]) is int and type(b[2]) is int:
            return dd.const(a[2] - b[2])
        raise Unsupported("difference of unrelated pointers")
    if dd.isptr(a) and type(b) is Rat and b.is_const():
        return leaf(("p", a[1], a[2] - int(b.const())))
    return dd.SUB.fn(a, b)


ISUB = Op("isub", _ptrint_sub)


def _iadd(a, b):
    if dd.isptr(a) and type(b) is Rat:
        return _ptradd(a, b)
    if dd.isptr(b) and type(a) is Rat:
        return _ptradd(b, a)
    return dd.ADD.fn(a, b)


IADD = Op("iadd", _iadd, dd.ADD.short)

EMPTYLOG = leaf(("log",))
LOGAPP = Op("logapp", lambda a, b: leaf(a + (b,)) if type(a) is tuple and a[0] == "log" else leaf(a))

PRED = {
    "eq": lambda s: s == 0, "ne": lambda s: s != 0,
    "gt": lambda s: s == 1, "ge": lambda s: s in (0, 1),
    "lt": lambda s: s == -1, "le": lambda s: s in (0, -1),
}
ALLOC = {"@_Znwm", "@_Znam", "@malloc", "@_ZnwmRKSt9nothrow_t", "@_ZnwmSt11align_val_t"}
FREE = {"@_ZdlPv", "@_ZdaPv", "@free", "@_ZdlPvm", "@_ZdaPvm", "@_ZdlPvmSt11align_val_t", "@_ZdlPvSt11align_val_t"}
# constructors / destructors of standard exception types: the exception object is never inspected
EXC = re.compile(r"@_ZNSt\d+(logic_error|runtime_error|domain_error|invalid_argument|length_error|out_of_range|overflow_error|underflow_error|range_error|exception|bad_alloc)[CD]\d")
NORETURN = ("@__assert_fail", "@abort", "@_ZSt9terminatev", "@__cxa_throw", "@__cxa_rethrow", "@llvm.trap", "@exit", "@_Exit", "@__clang_call_terminate", "@_ZN5boost16assertion_failed", "@__assert")


class State(object):
    __slots__ = ("g", "mem")

    def __init__(self, g, mem):
        self.g, self.mem = g, mem


PRE = TRUE


class Interp(object):
    def __init__(self, M, int_args_nonneg=False):
        self.M = M
        self.nobj = 0
        self.objinfo = {}
        self.gcells = {}
        self.stats = {"insts": 0, "blocks": 0, "joins": 0, "calls": 0}
        self.depth = 0
        self.active = {}
        self.events = []
        self.allocs = []
        self.inputs = {}
        self.ptrintegers = {}
        self.pre = PRE

    # -------------------------------------------------- objects
    def newobj(self, kind, size=None):
        self.nobj += 1
        o = "%s#%d" % (kind, self.nobj)
        self.objinfo[o] = (kind, size)
        return o

    def initial_cell(self, obj, off, ty):
        """value of a never-written cell"""
        kind = self.objinfo.get(obj, ("?", None))[0]
        if kind == "arg":
            isint = ty != "ptr" and ty[0] == "i"
            if ty == "ptr":
                o = "%s[%d]" % (obj, off)
                self.objinfo[o] = ("arg", None)
                return leaf(("p", o, 0))
            nm = "%s[%d]" % (obj, off // llir.store_size(self.M, ty))
            if ty[0] == "i" and ty[1] == 8:
                # bool-like byte
                pass
            return leaf(P.rvar(P.var(nm, "arg", None, integer=isint)))
        return NU

    # -------------------------------------------------- globals
    def global_ptr(self, name):
        if name in self.M._raw or name in self.M.decls:
            return leaf(("fn", name))
        o = "glob:" + name
        if o not in self.objinfo:
            self.objinfo[o] = ("glob", None)
        return leaf(("p", o, 0))

    def load_global(self, obj, off, ty):
        name = obj[5:]
        cells = self.gcells.get(name)
        if cells is None:
            d = self.M.globals.get(name)
            cells = {}
            if d is not None:
                m = d
                toks = llir.tokenize(llir.strip_line(m))
                c = llir.Cur(toks)
                words = []
                while c.peek()[0] == "id" and c.peek()[1] not in ("global", "constant"):
                    words.append(c.next()[1])
                    if c.peek()[1] == "(":
                        llir.skip_parens(c)
                kind = c.next()[1]
                if kind == "constant" or ("internal" in words and False):
                    t = llir.parse_type(c)
                    v = llir.parse_value(c, t)
                    self._fill(cells, 0, t, v)
                else:
                    cells = {"mutable": True}
            self.gcells[name] = cells
        if "mutable" in cells:
            raise Unsupported("load from mutable global %s" % name)
        x = cells.get(off)
        if x is None:
            raise Unsupported("load from global %s+%d" % (name, off))
        return x[1]

    def _fill(self, cells, off, t, v):
        M = self.M
        t = llir.resolve(M, t)
        if v[0] == "zero":
            if t == "ptr":
                cells[off] = (8, NULL)
            elif t[0] in ("i", "f"):
                cells[off] = (llir.store_size(M, t), N0)
            elif t[0] in ("arr", "vec"):
                sz = llir.size_of(M, t[2])
                for k in range(t[1]):
                    self._fill(cells, off + k * sz, t[2], v)
            elif t[0] == "st":
                for k, x in enumerate(t[1]):
                    self._fill(cells, off + llir.field_offset(M, t, k), x, v)
            return
        if v[0] == "agg":
            if t[0] in ("arr", "vec"):
                sz = llir.size_of(M, t[2])
                for k, (tt, x) in enumerate(v[1]):
                    self._fill(cells, off + k * sz, t[2], x)
            else:
                for k, (tt, x) in enumerate(v[1]):
                    self._fill(cells, off + llir.field_offset(M, t, k), tt, x)
            return
        if v[0] == "str":
            s = v[1]
            b = s[s.index('"') + 1:-1]
            i = 0
            k = 0
            while i < len(b):
                if b[i] == "\\":
                    ch = int(b[i + 1:i + 3], 16)
                    i += 3
                else:
                    ch = ord(b[i])
                    i += 1
                cells[off + k] = (1, dd.const(_signed(ch, 8)))
                k += 1
            return
        cells[off] = (llir.store_size(M, t), self.const(v, t))

    # -------------------------------------------------- operand evaluation
    def const(self, v, t):
        k = v[0]
        if k == "int":
            x = v[1]
            if t != "ptr" and t[0] == "i" and t[1] == 1:
                return TRUE if x else FALSE
            return dd.const(x)
        if k == "fp":
            return snap(v[1])
        if k == "null":
            return NULL
        if k in ("undef", "opaque", "meta"):
            tt = t if type(t) is not tuple else llir.resolve(self.M, t)
            if type(tt) is tuple and tt[0] in ("st", "arr", "vec"):
                return self.default(tt, NU)
            return NU
        if k == "glob":
            return self.global_ptr(v[1])
        if k == "zero":
            return self.default(t, None)
        if k == "agg":
            return tuple(self.const(x, tt) for tt, x in v[1])
        if k == "gep":
            return self.gep(v[1], [(tt, self.const(x, tt)) for tt, x in v[2]])
        if k == "cast":
            return self.const(v[3], v[2])
        if k == "str":
            return NU
        raise Unsupported("constant %r" % (v,))

    def default(self, t, fill):
        t = llir.resolve(self.M, t)
        if t == "ptr":
            return fill if fill is not None else NULL
        if t[0] in ("i", "f"):
            return fill if fill is not None else N0
        if t[0] in ("arr", "vec"):
            return tuple(self.default(t[2], fill) for _ in range(t[1]))
        return tuple(self.default(x, fill) for x in t[1])

    def ev(self, env, v, t):
        if v[0] == "loc":
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported("use of undefined %s" % v[1])
        return self.const(v, t)

    # -------------------------------------------------- memory
    def gep(self, t, ops):
        base = ops[0][1]
        M = self.M
        off = None
        cur = t
        acc = 0
        res = base
        for n, (tt, ix) in enumerate(ops[1:]):
            if n == 0:
                sc = llir.size_of(M, cur)
            else:
                cur = llir.resolve(M, cur)
                if cur[0] == "st":
                    acc += llir.field_offset(M, cur, int(dd.val(ix).const()))
                    cur = cur[1][int(dd.val(ix).const())]
                    continue
                cur = cur[2]
                sc = llir.size_of(M, cur)
            if dd.is_leaf(ix) and type(dd.val(ix)) is Rat and dd.val(ix).is_const():
                acc += int(dd.val(ix).const()) * sc
            else:
                res = apply2(PTRADD, res, apply2(dd.MUL, ix, dd.const(sc)))
        if acc:
            res = apply2(PTRADD, res, dd.const(acc))
        return res

    def load(self, st, ptr, t, where):
        t = llir.resolve(self.M, t)
        if t != "ptr" and t[0] in ("st", "arr", "vec"):
            out = []
            if t[0] == "st":
                for k, x in enumerate(t[1]):
                    o = llir.field_offset(self.M, t, k)
                    out.append(self.load(st, apply2(PTRADD, ptr, dd.const(o)), x, where))
            else:
                sz = llir.size_of(self.M, t[2])
                for k in range(t[1]):
                    out.append(self.load(st, apply2(PTRADD, ptr, dd.const(k * sz)), t[2], where))
            return tuple(out)
        ptr = self.concretise(ptr, llir.store_size(self.M, t))
        return self._map_ptr(ptr, lambda p: self.load_cell(st, p, t), where)

    def objsize(self, obj):
        if obj.startswith("glob:"):
            self.load_global_prime(obj)
            cells = self.gcells[obj[5:]]
            return None if "mutable" in cells or not cells else max(o + c[0] for o, c in cells.items())
        sz = self.objinfo.get(obj, ("?", None))[1]
        if type(sz) is Rat and sz.is_const():
            sz = int(sz.const())
        return sz if type(sz) is int else None

    def concretise(self, ptr, sz):
        """a pointer with a data-dependent offset into an object of known size becomes a choice
        among the element offsets of that object (an offset outside it is undefined)"""
        if all(not dd.isptr(dd.val(l)) or type(dd.val(l)[2]) is int for l in dd.leaves(ptr)):
            return ptr

        def split(v):
            if not dd.isptr(v) or type(v[2]) is int:
                return leaf(v)
            obj, off = v[1], v[2]
            size = self.objsize(obj)
            terms = None if off.den else off.num.t
            if size is None or terms is None:
                return leaf(v)
            import math
            g, c0 = 0, 0
            for mono, c in terms.items():
                c = Fraction(c, off.dint)
                if c.denominator != 1:
                    return leaf(v)
                if mono == ():
                    c0 = int(c)
                else:
                    g = math.gcd(g, int(c))
            if g == 0:
                return leaf(v)
            ks = range(c0 % g, size - sz + 1, g)
            if len(ks) > 128 or not len(ks):
                return leaf(v)
            acc = NU
            for k in reversed(ks):
                acc = ite(dd.compare(leaf(off), dd.const(k), PRED["eq"]), leaf(("p", obj, k)), acc)
            return acc
        memo = {}

        def rec(n):
            r = memo.get(n)
            if r is None:
                if dd.is_leaf(n):
                    r = split(dd.val(n))
                else:
                    a, b, c = dd.kids[n]
                    r = dd.pick(dd.level[n], rec(a), rec(b), rec(c))
                memo[n] = r
            return r
        return rec(ptr)

    def _map_ptr(self, ptr, fn, where):
        memo = {}

        def rec(n):
            if n in memo:
                return memo[n]
            if dd.is_leaf(n):
                v = dd.val(n)
                if dd.isptr(v):
                    if v[1] == "null":
                        r = NBOT
                    else:
                        r = fn(v)
                elif v in (dd.UNDEF, dd.BOT):
                    r = NU
                elif type(v) is Rat and v.is_const():
                    r = NBOT
                else:
                    raise Unsupported("dereference of %s in %s" % (dd.lstr(v), " < ".join(reversed([k for k, n in self.active.items() if n]))[:2000]))
            else:
                a, b, c = dd.kids[n]
                m = dd.level[n]
                r = dd.pick(m, rec(a), rec(b), rec(c))
            memo[n] = r
            return r
        return rec(ptr)

    def load_cell(self, st, p, t):
        obj, off = p[1], p[2]
        if type(off) is not int:
            return self.load_symbolic(st, p, t)
        if obj.startswith("glob:"):
            return self.load_global(obj, off, t)
        cells = st.mem.get(obj)
        sz = llir.store_size(self.M, t)
        if cells is not None:
            c = cells.get(off)
            if c is not None:
                if c[0] == sz:
                    return c[1]
                if c[0] < sz:
                    return self._assemble(cells, off, sz)
                if c[1] == NU:
                    return NU
                if dd.is_leaf(c[1]) and dd.val(c[1]) is P.R0:
                    return N0
                return self._extract(c, 0, sz)
            # overlapping?
            for o, (s, v) in cells.items():
                if o < off + sz and off < o + s:
                    if v == NU:
                        continue
                    return self._assemble(cells, off, sz)
        v = self.initial_cell(obj, off, t)
        if v != NU:
            cc = dict(cells or {})
            cc[off] = (sz, v)
            # initial values are identical in every state: record for later merges
            st.mem[obj] = cc
            self.inputs.setdefault(obj, {})[off] = (sz, v)
        return v

    def _bad(self, obj, off, sz, c):
        raise Unsupported("load of %d bytes at %s+%d overlaps a %d-byte cell" % (sz, obj, off, c[0]))

    def _extract(self, c, rel, sz):
        """the sz bytes at offset rel inside the wider cell c (little endian)"""
        def f(x):
            if x in (dd.UNDEF, dd.BOT):
                return leaf(x)
            if type(x) is Rat and x.is_const() and x.const().denominator == 1:
                return dd.const(_signed((int(x.const()) >> (8 * rel)) & ((1 << (8 * sz)) - 1), 8 * sz))
            if type(x) is tuple and x[0] == "pack":
                return self._assemble({k: (s, n) for k, s, n in x[1]}, rel, sz)
            return LOST
        return apply1(Op("extract%d_%d" % (rel, sz), f), c[1])

    def _assemble(self, cells, off, sz):
        """the sz bytes at offset off, put together from the cells that cover them"""
        vals = []
        o = off
        end = off + sz
        while o < end:
            c = cells.get(o)
            if c is not None and o + c[0] <= end:
                s, n = c
            else:
                for p, (w, n) in cells.items():
                    if p <= o < p + w:
                        s = min(p + w, end) - o
                        n = self._extract((w, n), o - p, s)
                        break
                else:
                    s = min([p for p in cells if p > o] + [end]) - o
                    n = NU
            vals.append((o - off, (s, n)))
            o += s
        if len(vals) == 1:
            return vals[0][1][1]
        if all(v[1] == NU for _, v in vals):
            return NU
        if all(dd.is_leaf(v[1]) and type(dd.val(v[1])) is Rat and dd.val(v[1]).is_const() for _, v in vals):
            x = 0
            for k, (s, n) in vals:
                x |= (int(dd.val(n).const()) & ((1 << (8 * s)) - 1)) << (8 * k)
            return dd.const(_signed(x, 8 * sz))
        if all(type(dd.val(l)) is Rat and dd.val(l).is_const() and dd.val(l).const().denominator == 1 for _, (s, n) in vals for l in dd.leaves(n)):
            acc = None            # constants chosen by conditions
            for k, (s, n) in vals:
                part = apply1(Op("byte%d_%d" % (k, s), lambda x, k=k, s=s: dd.const((int(x.const()) & ((1 << (8 * s)) - 1)) << (8 * k))), n)
                acc = part if acc is None else apply2(dd.ADD, acc, part)
            return apply1(Op("signed%d" % sz, lambda x: dd.const(_signed(int(x.const()), 8 * sz))), acc)
        flat = []
        for k, (s, n) in vals:
            if dd.is_leaf(n) and type(dd.val(n)) is tuple and dd.val(n)[0] == "pack":
                flat += [(k + k2, s2, n2) for k2, s2, n2 in dd.val(n)[1]]
            else:
                flat.append((k, s, n))
        return leaf(("pack", tuple(flat)))

    def load_symbolic(self, st, p, t):
        raise Unsupported("load at a data-dependent offset of %s" % p[1])

    def store(self, st, ptr, t, v, where, cond=TRUE):
        t = llir.resolve(self.M, t)
        if t != "ptr" and t[0] in ("st", "arr", "vec"):
            if t[0] == "st":
                for k, x in enumerate(t[1]):
                    o = llir.field_offset(self.M, t, k)
                    self.store(st, apply2(PTRADD, ptr, dd.const(o)), x, v[k], where)
            else:
                sz = llir.size_of(self.M, t[2])
                for k in range(t[1]):
                    self.store(st, apply2(PTRADD, ptr, dd.const(k * sz)), t[2], v[k], where)
            return
        sz = llir.store_size(self.M, t)
        ptr = self.concretise(ptr, sz)
        if dd.is_leaf(ptr):
            self.store_cell(st, dd.val(ptr), sz, v, TRUE, t)
            return
        for l in dd.leaves(ptr):
            pv = dd.val(l)
            if pv == dd.UNDEF or pv == dd.BOT:
                continue
            op = Op("is:%r" % (pv,), lambda x, pv=pv: TRUE if x == pv else FALSE)
            c = apply1(op, ptr)
            if AND(c, st.g) == FALSE:
                continue
            self.store_cell(st, pv, sz, v, c, t)

    def store_cell(self, st, p, sz, v, cond, t):
        if not dd.isptr(p):
            if p in (dd.UNDEF, dd.BOT):
                return
            raise Unsupported("store through %s" % dd.lstr(p))
        obj, off = p[1], p[2]
        if obj == "null":
            return
        if type(off) is not int:
            raise Unsupported("store at a data-dependent offset of %s" % obj)
        if obj.startswith("glob:"):
            raise Unsupported("store to global %s" % obj)
        cells = dict(st.mem.get(obj) or {})
        old = cells.get(off)
        if dd.is_leaf(v) and type(dd.val(v)) is tuple and dd.val(v)[0] == "pack":
            for k, s, n in dd.val(v)[1]:
                self.store_cell(st, ("p", obj, off + k), s, n, cond, None)
            return
        if cond != TRUE:
            if old is None or old[0] != sz:
                ov = self.initial_cell(obj, off, t) if (old is None and t is not None) else NU
                if any(o < off + sz and off < o + s for o, (s, _) in cells.items()):
                    ov = self._assemble(cells, off, sz)
            else:
                ov = old[1]
            v = ite(cond, v, ov)
        if old is None or old[0] != sz:
            for o in [o for o, (s, _) in cells.items() if o < off + sz and off < o + s]:
                s, ov = cells[o]
                if o >= off and o + s <= off + sz:
                    del cells[o]
                elif ov == NU or (dd.is_leaf(ov) and dd.val(ov) is P.R0):
                    # split a zero / undefined cell
                    del cells[o]
                    if o < off:
                        cells[o] = (off - o, ov)
                    if o + s > off + sz:
                        cells[off + sz] = (o + s - off - sz, ov)
                else:
                    del cells[o]
                    if o < off:
                        cells[o] = (off - o, self._extract((s, ov), 0, off - o))
                    if o + s > off + sz:
                        cells[off + sz] = (o + s - off - sz, self._extract((s, ov), off + sz - o, o + s - off - sz))
        cells[off] = (sz, v)
        st.mem[obj] = cells

    def memcpy(self, st, dst, src, n, where):
        if n == 0:
            return
        if not dd.is_leaf(dst):
            for l in dd.leaves(dst):
                dv = dd.val(l)
                if dv in (dd.UNDEF, dd.BOT):
                    continue
                op = Op("is:%r" % (dv,), lambda x, pv=dv: TRUE if x == pv else FALSE)
                c = AND(apply1(op, dst), st.g)
                if c == FALSE:
                    continue
                sub = State(c, dict(st.mem))
                self.memcpy(sub, l, src, n, where)
                st.mem = self.merge_mem([(c, sub.mem), (NOT(c), st.mem)])
            return
        if not dd.is_leaf(src):
            parts = []
            for l in dd.leaves(src):
                sv = dd.val(l)
                if sv in (dd.UNDEF, dd.BOT):
                    continue
                op = Op("is:%r" % (sv,), lambda x, pv=sv: TRUE if x == pv else FALSE)
                c = AND(apply1(op, src), st.g)
                if c == FALSE:
                    continue
                sub = State(c, dict(st.mem))
                self.memcpy(sub, dst, l, n, where)
                parts.append((c, sub.mem))
            if parts:
                st.mem = self.merge_mem(parts)
            return
        d, s = dd.val(dst), dd.val(src)
        if not (dd.isptr(d) and dd.isptr(s)):
            if d in (dd.UNDEF, dd.BOT) or s in (dd.UNDEF, dd.BOT):
                return
            raise Unsupported("memcpy %s <- %s" % (dd.lstr(d), dd.lstr(s)))
        if type(d[2]) is not int or type(s[2]) is not int:
            raise Unsupported("memcpy at data-dependent offset")
        if s[1].startswith("glob:"):
            self.load_global_prime(s[1])
            cells = self.gcells[s[1][5:]]
            if "mutable" in cells:
                raise Unsupported("memcpy from mutable global")
        else:
            cells = st.mem.get(s[1]) or {}
            if self.objinfo.get(s[1], ("?",))[0] == "arg":
                for o in range(s[2], s[2] + n, 8):
                    if not any(oo < o + 8 and o < oo + ss for oo, (ss, _) in cells.items()):
                        self.load_cell(st, ("p", s[1], o), ("f", "double"))
                cells = st.mem.get(s[1]) or {}
        todo = []
        for o, (z, v) in cells.items():
            if o >= s[2] and o + z <= s[2] + n:
                todo.append((o - s[2], z, v))
            elif o < s[2] + n and s[2] < o + z:
                if v == NU or (dd.is_leaf(v) and dd.val(v) is P.R0):
                    lo = max(o, s[2])
                    hi = min(o + z, s[2] + n)
                    todo.append((lo - s[2], hi - lo, v))
                else:
                    raise Unsupported("memcpy splits a cell of %s" % s[1])
        # clear destination range
        dc = dict(st.mem.get(d[1]) or {})
        for o in [o for o, (z, _) in dc.items() if o >= d[2] and o + z <= d[2] + n]:
            del dc[o]
        st.mem[d[1]] = dc
        for o, z, v in todo:
            self.store_cell(st, ("p", d[1], d[2] + o), z, v, TRUE, None)

    def load_global_prime(self, obj):
        try:
            self.load_global(obj, -1, "ptr")
        except Unsupported:
            pass

    def memset(self, st, dst, byte, n):
        if not dd.is_leaf(dst):
            for l in dd.leaves(dst):
                dv = dd.val(l)
                if dv in (dd.UNDEF, dd.BOT):
                    continue
                op = Op("is:%r" % (dv,), lambda x, pv=dv: TRUE if x == pv else FALSE)
                c = AND(apply1(op, dst), st.g)
                if c == FALSE:
                    continue
                sub = State(c, dict(st.mem))
                self.memset(sub, l, byte, n)
                st.mem = self.merge_mem([(c, sub.mem), (NOT(c), st.mem)])
            return
        d = dd.val(dst)
        if n == 0 or not dd.isptr(d):
            return
        v = byte if (dd.is_leaf(byte) and dd.val(byte) is P.R0) else NU
        if dd.is_leaf(byte) and type(dd.val(byte)) is Rat and dd.val(byte).is_const() and dd.val(byte).const() in (-1, 255):
            v = dd.const(-1)        # all bits set: -1 at every width
        if n > 1 << 16:
            raise Unsupported("large memset")
        dc = dict(st.mem.get(d[1]) or {})
        for o in [o for o, (z, _) in dc.items() if o >= d[2] and o + z <= d[2] + n]:
            del dc[o]
        st.mem[d[1]] = dc
        o = 0
        while o < n:
            k = 8 if (d[2] + o) % 8 == 0 and o + 8 <= n else 1
            self.store_cell(st, ("p", d[1], d[2] + o), k, v, TRUE, None)
            o += k

    def merge_mem(self, parts):
        """parts: list of (guard, mem)"""
        self.stats["joins"] += 1
        base = parts[-1][1]
        out = dict(base)
        objs = set()
        for _, m in parts:
            objs.update(m)
        for o in objs:
            cs = [m.get(o) for _, m in parts]
            first = cs[0]
            if all(c is first for c in cs):
                out[o] = first
                continue
            cs = self.align_cells(cs)
            offs = set()
            for c in cs:
                if c:
                    offs.update(c)
            res = {}
            isarg = self.objinfo.get(o, ("?",))[0] == "arg"
            for off in offs:
                ent = [c.get(off) if c else None for c in cs]
                sz = None
                for e in ent:
                    if e is not None:
                        sz = e[0] if sz is None else sz
                acc = None
                same = True
                vals = []
                for (g, _), e in zip(parts, ent):
                    if e is None or e[0] != sz:
                        if isarg and e is None:
                            iv = self.inputs.get(o, {}).get(off)
                            if iv is None:
                                iv = (sz, self.initial_cell(o, off, ("f", "double") if sz == 8 else ("i", 8 * sz)))
                            v = iv[1]
                        else:
                            v = NU
                    else:
                        v = e[1]
                    vals.append((g, v))
                acc = self.gate(vals)
                if acc != NU or isarg:
                    res[off] = (sz, acc)
            out[o] = res
        return out

    def align_cells(self, cs):
        """give the states the same cell boundaries wherever theirs overlap"""
        iv = sorted({(o, e[0]) for c in cs if c for o, e in c.items()})
        end = -1
        clash = False
        for o, sz in iv:
            if o < end:
                clash = True
                break
            end = max(end, o + sz)
        if not clash:
            return cs
        groups = []          # maximal overlapping runs: (start, end, cuts)
        for o, sz in iv:
            if groups and o < groups[-1][1]:
                g = groups[-1]
                g[1] = max(g[1], o + sz)
                g[2] |= {o, o + sz}
                g[3] += 1
            else:
                groups.append([o, o + sz, {o, o + sz}, 1])
        out = []
        for c in cs:
            if not c:
                out.append(c)
                continue
            d = dict(c)
            for a, b, cuts, n in groups:
                if n == 1:
                    continue
                mine = [o for o in c if a <= o < b]
                if not mine:
                    continue
                cut = sorted(cuts)
                for o in mine:
                    del d[o]
                for x, y in zip(cut, cut[1:]):
                    if any(o < y and x < o + c[o][0] for o in mine):
                        d[x] = (y - x, self._assemble(c, x, y - x))
            out.append(d)
        return out

    def gate(self, vals):
        """join of gated values; undefined alternatives are don't-cares"""
        v0 = vals[0][1]
        if all(v == v0 for _, v in vals):
            return v0
        if type(v0) is tuple:
            return tuple(self.gate([(g, v[i]) for g, v in vals]) for i in range(len(v0)))
        acc = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            acc = ite(g, v, acc)
        return acc

    # -------------------------------------------------- functions
    def run(self, fname, args, mem, guard):
        """-> (ret value or None, mem, alive guard)"""
        f = llir.get_func(self.M, fname)
        if f is None:
            raise Unsupported("call to undefined %s" % fname)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion deeper than 60 at %s" % fname)
        n = self.active.get(fname, 0)
        if n and guard != TRUE and self.pre != FALSE:
            # a recursive call: drop it where no input of the domain reaches it
            import equiv
            guard = equiv.prune(AND(guard, self.pre), TRUE)
            if guard == FALSE:
                self.depth -= 1
                return None, mem, FALSE
        self.active[fname] = n + 1
        env = {}
        mem = dict(mem)
        for (nm, t, at), v in zip(f.params, args):
            if "byval" in at and v is not None:
                o = self.newobj("byval")
                st = State(guard, mem)
                self.memcpy(st, leaf(("p", o, 0)), v, llir.size_of(self.M, at["byval"]), fname)
                mem = st.mem
                v = leaf(("p", o, 0))
            env[nm] = v
        pending = {f.order[0]: [(guard, mem, {})]}
        rets = []
        self.exec_part(f, llir.wto(f), env, pending, rets)
        self.depth -= 1
        self.active[fname] = n
        if not rets:
            return None, mem, FALSE
        alive = FALSE
        for g, v, m in rets:
            alive = OR(alive, g)
        if len(rets) == 1:
            return rets[0][1], rets[0][2], alive
        rv = None
        if rets[0][1] is not None:
            rv = self.gate([(g, v) for g, v, m in rets])
        return rv, self.merge_mem([(g, m) for g, v, m in rets]), alive

    def exec_part(self, f, part, env, pending, rets):
        for el in part:
            if type(el) is tuple:
                head, body = el
                n = 0
                last = None
                while pending.get(head):
                    n += 1
                    if "VHEADS" in os.environ:
                        print(head, n)
                    now = FALSE
                    for x in pending[head]:
                        now = OR(now, x[0])
                    if n > 2 and "VLOOP" in os.environ and os.environ["VLOOP"] == head: [print(n, i, "\n".join(dd.dump(v2, depth=9))[:900]) for x in pending[head] for i, v2 in list(x[2].items())[:6]]
                    if n > LOOP_LIMIT:
                        raise Unsupported("loop at %s %s is not bounded by the witness after %d iterations" % (f.name, head, LOOP_LIMIT))
                    if n >= 2 and now != last and not self.refine(pending, head, n):
                        break
                    last = now
                    self.exec_block(f, head, env, pending, rets)
                    self.exec_part(f, body, env, pending, rets)
            elif pending.get(el):
                self.exec_block(f, el, env, pending, rets)

    def refine(self, pending, head, n):
        """drop from a loop head the iterations no input of the domain can reach"""
        inc = []
        for g, mem, phis in pending[head]:
            if g != TRUE and self.pre != FALSE:
                import equiv
                g = equiv.prune(AND(g, self.pre), TRUE)
            if g != FALSE:
                inc.append((g, mem, phis))
        if not inc:
            del pending[head]
            return False
        pending[head] = inc
        return True

    def exec_block(self, f, b, env, pending, rets):
        inc = pending.pop(b)
        self.stats["blocks"] += 1
        if len(inc) == 1:
            g, mem, phis = inc[0]
            mem = dict(mem)
            env.update(phis)
        else:
            g = FALSE
            for x in inc:
                g = OR(g, x[0])
            mem = self.merge_mem([(x[0], x[1]) for x in inc])
            names = inc[0][2].keys()
            for nme in names:
                env[nme] = self.gate([(x[0], x[2][nme]) for x in inc])
        st = State(g, mem)
        for ins in f.blocks[b]:
            if ins is None or ins.op == "phi":
                continue
            self.stats["insts"] += 1
            op = ins.op
            if op == "br":
                if len(ins.a) == 1:
                    self.edge(f, b, ins.a[0], st.g, st.mem, env, pending)
                else:
                    c = self.ev(env, ins.a[0], ("i", 1))
                    if ins.a[1] == ins.a[2]:
                        self.edge(f, b, ins.a[1], st.g, st.mem, env, pending)
                        return
                    gt = AND(st.g, c)
                    ge = AND(st.g, NOT(c))
                    if gt != FALSE:
                        self.edge(f, b, ins.a[1], gt, st.mem, env, pending)
                    if ge != FALSE:
                        self.edge(f, b, ins.a[2], ge, st.mem, env, pending)
                return
            if op == "switch":
                t, v, d, cases = ins.a
                v = self.ev(env, v, t)
                rest = st.g
                tgt = {}
                for kv, lab in cases:
                    c = dd.compare(v, self.const(kv, t), PRED["eq"])
                    gg = AND(rest, c)
                    if gg != FALSE:
                        tgt[lab] = OR(tgt.get(lab, FALSE), gg)
                    rest = AND(rest, NOT(c))
                if rest != FALSE:
                    tgt[d] = OR(tgt.get(d, FALSE), rest)
                for lab, gg in tgt.items():
                    self.edge(f, b, lab, gg, st.mem, env, pending)
                return
            if op == "ret":
                t, v = ins.a
                rets.append((st.g, None if v is None else self.ev(env, v, t), st.mem))
                return
            if op in ("unreachable", "resume"):
                return
            if op in ("call", "invoke"):
                r = self.call(f, st, env, ins)
                if ins.res is not None:
                    env[ins.res] = r
                if st.g == FALSE:
                    return
                if op == "invoke":
                    self.edge(f, b, ins.a[3], st.g, st.mem, env, pending)
                    return
                continue
            r = self.step(f, st, env, ins)
            if ins.res is not None:
                env[ins.res] = r
        raise Unsupported("block %s without terminator" % b)

    def edge(self, f, b, s, g, mem, env, pending):
        phis = {}
        for ins in f.blocks[s]:
            if ins is None:
                continue
            if ins.op != "phi":
                break
            t, inc = ins.a
            for v, lab in inc:
                if lab == b:
                    phis[ins.res] = self.ev(env, v, t)
                    break
            else:
                raise Unsupported("phi without edge %s->%s" % (b, s))
        pending.setdefault(s, []).append((g, mem, phis))

    def vecmap(self, t, fn, *vals):
        t = llir.resolve(self.M, t)
        if type(t) is tuple and t[0] == "vec":
            return tuple(fn(t[2], *[v[i] for v in vals]) for i in range(t[1]))
        return fn(t, *vals)

    def step(self, f, st, env, ins):
        op = ins.op
        M = self.M
        A = ins.a
        ev = self.ev
        if op in llir.BIN:
            t, x, y = A
            x, y = ev(env, x, t), ev(env, y, t)
            return self.vecmap(t, lambda tt, p, q: self.binop(op, tt, p, q), x, y)
        if op == "fneg":
            return self.vecmap(A[0], lambda tt, p: apply1(NEG, p), ev(env, A[1], A[0]))
        if op == "icmp":
            pred, t, x, y = A
            return self.vecmap(t, lambda tt, p, q: self.icmp(pred, tt, p, q), ev(env, x, t), ev(env, y, t))
        if op == "fcmp":
            pred, t, x, y = A
            return self.vecmap(t, lambda tt, p, q: self.fcmp(pred, p, q), ev(env, x, t), ev(env, y, t))
        if op == "select":
            ct, c, t, x, y = A
            c, x, y = ev(env, c, ct), ev(env, x, t), ev(env, y, t)
            if type(c) is tuple:
                return tuple(ite(a, b, d) for a, b, d in zip(c, x, y))
            return self.sel(c, x, y)
        if op == "alloca":
            t, n = A
            o = self.newobj("alloca:%s%s" % (f.name[:24], ins.res), llir.size_of(M, t))
            return leaf(("p", o, 0))
        if op == "load":
            t, p = A
            return self.load(st, ev(env, p, "ptr"), t, ins.line)
        if op == "store":
            t, v, p = A
            self.store(st, ev(env, p, "ptr"), t, ev(env, v, t), ins.line)
            return None
        if op == "getelementptr":
            t, ops = A
            vals = [(tt, ev(env, v, tt)) for tt, v in ops]
            if any(type(v) is tuple for _, v in vals):
                raise Unsupported("vector gep")
            return self.gep(t, vals)
        if op in llir.CASTS:
            t, v, t2 = A
            v = ev(env, v, t)
            rt, rt2 = llir.resolve(M, t), llir.resolve(M, t2)
            if op == "bitcast":
                if (type(rt) is tuple and rt[0] == "vec") != (type(rt2) is tuple and rt2[0] == "vec"):
                    if type(v) is tuple and len(v) == 1:
                        return v[0]
                    if type(v) is not tuple and rt2[0] == "vec" and rt2[1] == 1:
                        return (v,)
                    raise Unsupported("bitcast %s to %s" % (rt, rt2))
                return v
            return self.vecmap(t, lambda tt, p: self.cast(op, tt, p, rt2[2] if rt2 != "ptr" and rt2[0] == "vec" else rt2), v)
        if op == "extractvalue":
            t, v, ix = A
            v = ev(env, v, t)
            for i in ix:
                v = v[i]
            return v
        if op == "insertvalue":
            t, v, t2, v2, ix = A
            v, v2 = ev(env, v, t), ev(env, v2, t2)
            if v == NU:
                v = self.default(t, NU)

            def ins_(a, ix):
                i = ix[0]
                return a[:i] + ((v2,) if len(ix) == 1 else (ins_(a[i], ix[1:]),)) + a[i + 1:]
            return ins_(v, ix)
        if op == "extractelement":
            t, v, i = A
            v = ev(env, v, t)
            i = ev(env, i, ("i", 64))
            return v[int(dd.val(i).const())] if v != NU else NU
        if op == "insertelement":
            t, v, x, i = A
            v = ev(env, v, t)
            if v == NU:
                v = self.default(t, NU)
            i = int(dd.val(ev(env, i, ("i", 64))).const())
            x = ev(env, x, llir.resolve(M, t)[2])
            return v[:i] + (x,) + v[i + 1:]
        if op == "shufflevector":
            t, v, w, mt, m = A
            v, w = ev(env, v, t), ev(env, w, t)
            n = llir.resolve(M, t)[1]
            if v == NU:
                v = (NU,) * n
            if w == NU:
                w = (NU,) * n
            both = v + w
            if m[0] == "zero":
                ixs = [0] * mt[1]
            elif m[0] == "undef":
                ixs = [None] * mt[1]
            else:
                ixs = [x[1][1] if x[1][0] == "int" else None for x in m[1]]
            return tuple(NU if i is None else both[i] for i in ixs)
        if op == "freeze":
            return ev(env, A[1], A[0])
        if op == "landingpad":
            return NU
        if op == "fence":
            return None
        raise Unsupported("instruction %s" % ins.line.strip()[:100])

    def sel(self, c, x, y):
        if type(x) is tuple:
            return tuple(self.sel(c, a, b) for a, b in zip(x, y))
        return ite(c, x, y)

    def binop(self, op, t, x, y):
        if op == "fadd":
            return apply2(dd.ADD, x, y)
        if op == "fsub":
            return apply2(dd.SUB, x, y)
        if op == "fmul":
            return apply2(dd.MUL, x, y)
        if op == "fdiv":
            return apply2(dd.DIV, x, y)
        if op == "frem":
            return apply2(BI["fmod"], x, y)
        w = t[1]
        if op == "add":
            r = apply2(IADD, x, y)
            return apply1(wrapop(w), r)
        if op == "sub":
            r = apply2(ISUB, x, y)
            return apply1(wrapop(w), r)
        if op == "mul":
            return apply1(wrapop(w), apply2(dd.MUL, x, y))
        if w == 1 and op in ("and", "or", "xor"):
            if op == "and":
                return ite(x, y, FALSE)
            if op == "or":
                return ite(x, TRUE, y)
            return ite(x, NOT(y), y)
        if op in ("sdiv", "udiv", "lshr", "ashr") and dd.is_leaf(y):
            # exact division of a multiple (pointer differences)
            yv = dd.val(y)
            if type(yv) is Rat and yv.is_const():
                k = int(yv.const())
                k = (1 << k) if op in ("lshr", "ashr") else k
                if k > 1 and op in ("sdiv", "ashr") and all(type(dd.val(l)) is Rat and dd.val(l).dint == 1 and not dd.val(l).den and all(c % k == 0 for c in dd.val(l).num.t.values()) for l in dd.leaves(x) if type(dd.val(l)) is Rat):
                    return apply2(dd.DIV, x, dd.const(k))
        return apply2(intop(op, w), x, y)

    def icmp(self, pred, t, x, y):
        if pred in ("eq", "ne"):
            if t != "ptr":
                x, y = self._common(x, y, t)
            return dd.compare(x, y, PRED[pred])
        base = pred[1:]
        if pred[0] == "u" and t != "ptr":
            w = t[1]
            # signed representatives: map constants to unsigned; symbolic terms are counts >= 0
            x = apply1(zextop(w), x)
            y2 = apply1(zextop(w), y)
            r = dd.compare(x, y2, PRED[base])
            c = dd.val(y2) if dd.is_leaf(y2) else None
            if type(c) is Rat and c.is_const() and c.const() >= 1 << (w - 1):
                # a bound beyond the signed range: only the representatives of negative numbers can exceed it
                nn = self._maybe_neg(x)
                if nn is not None:
                    r = dd.compare(x, dd.const(c.const() - (1 << w)), PRED[base])
                    return OR(nn, r) if base in ("lt", "le") else AND(NOT(nn), r)
                return r
            if base in ("lt", "le"):
                nn = self._maybe_neg(x)
                if nn is not None:
                    r = AND(nn, r)
            elif base in ("gt", "ge"):
                nn = self._maybe_neg(x)
                if nn is not None:
                    r = OR(NOT(nn), r)
            return r
        return dd.compare(x, y, PRED[base])

    def _common(self, x, y, t):
        return apply1(wrapop(t[1]), x), apply1(wrapop(t[1]), y)

    def _maybe_neg(self, x):
        """guard x >= 0 when x is a symbolic difference (range-check idiom), else None"""
        if all((type(dd.val(l)) is not Rat) or dd.val(l).is_const() or dd.val(l).num.t.keys() and P.is_psd(dd.val(l).num) for l in dd.leaves(x)):
            return None
        return dd.compare(x, N0, PRED["ge"])

    def fcmp(self, pred, x, y):
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        if pred == "ord":
            return TRUE
        if pred == "uno":
            return FALSE
        return dd.compare(x, y, PRED[pred[1:]])

    def cast(self, op, t, v, t2):
        if op == "fptrunc" and t2 == ("f", "float"):
            return apply1(F32, v)
        if op in ("fpext", "fptrunc", "sitofp", "addrspacecast", "ptrtoint", "inttoptr"):
            if op == "sitofp" and t == ("i", 1):
                return apply2(dd.MUL, v, dd.const(-1))
            return v
        if op == "uitofp":
            return apply1(zextop(t[1]), v)
        if op in ("fptosi", "fptoui"):
            return apply1(ROUND["trunc"], v)
        if op == "zext":
            return apply1(zextop(t[1]), v) if t[1] > 1 else v
        if op == "sext":
            if t[1] == 1:
                return apply2(dd.MUL, v, dd.const(-1))
            return v
        if op == "trunc":
            if t2[1] == 1:
                ls = dd.leaves(v)
                if all(type(dd.val(l)) is Rat and dd.val(l).is_const() for l in ls if dd.val(l) not in (dd.UNDEF, dd.BOT)):
                    return apply1(Op("low1", lambda x: (TRUE if int(x.const()) & 1 else FALSE) if type(x) is Rat else leaf(x)), v)
                return dd.compare(apply2(intop("and", 8), v, N1), N0, PRED["ne"])
            return apply1(wrapop(t2[1]), v)
        raise Unsupported(op)

    # -------------------------------------------------- calls
    def call(self, f, st, env, ins):
        rt, callee, args, normal = ins.a
        self.stats["calls"] += 1
        if callee[0] == "loc":
            cv = env[callee[1]]
            fns = [dd.val(l) for l in dd.leaves(cv)]
            fns = [x for x in fns if x not in (dd.UNDEF, dd.BOT)]
            if len(fns) == 1 and type(fns[0]) is tuple and fns[0][0] == "fn":
                name = fns[0][1]
            else:
                raise Unsupported("indirect call to %s" % [dd.lstr(x) for x in fns])
        elif callee[0] == "glob":
            name = callee[1]
        else:
            raise Unsupported("callee %r" % (callee,))
        if name.startswith("@llvm.lifetime") or name.startswith("@llvm.dbg") or name.startswith("@llvm.assume") or name.startswith("@llvm.experimental.noalias") or name.startswith("@llvm.invariant") or name.startswith("@llvm.stacksave") or name.startswith("@llvm.stackrestore") or name.startswith("@llvm.prefetch"):
            return NU
        vals = [None if t == "metadata" else self.ev(env, v, t) for t, v in args]
        for n in NORETURN:
            if name.startswith(n):
                self.events.append(("abort", st.g, name))
                st.g = FALSE
                return NU
        if name.startswith("@_ZSt") and "__throw" in name:
            self.events.append(("throw", st.g, name))
            st.g = FALSE
            return NU
        if name in ALLOC:
            n = vals[0]
            o = self.newobj("heap", dd.val(n) if dd.is_leaf(n) else None)
            self.allocs.append((o, st.g))
            return leaf(("p", o, 0))
        if name in FREE:
            self.events.append(("free", st.g, vals[0]))
            return NU
        if name == "@__cxa_allocate_exception":
            return leaf(("p", self.newobj("exc", None), 0))
        if name == "@__cxa_free_exception" or EXC.match(name):
            return NU
        r = self.intrinsic(st, name, vals, ins, rt)
        if r is not None:
            return r[0]
        if name in self.M._raw:
            rv, mem, alive = self.run(name, vals, st.mem, st.g)
            st.mem = mem
            st.g = alive
            return NU if rv is None else rv
        raise Unsupported("call to external %s" % name)

    def intrinsic(self, st, name, v, ins, rt):
        n = name[1:]
        if n.startswith("llvm."):
            parts = n.split(".")
            b = parts[1]
            el = lambda fn: (self.vecmap(rt, lambda tt, *a: fn(*a), *v),)
            if b in ("fmuladd", "fma"):
                return el(lambda a, c, d: apply2(dd.ADD, apply2(dd.MUL, a, c), d))
            if b == "fabs":
                return el(lambda a: apply1(FABS, a))
            if b == "sqrt":
                return el(lambda a: apply1(SQRT, a))
            if b in ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"):
                k = {"nearbyint": "rint", "roundeven": "rint"}.get(b, b)
                return el(lambda a: apply1(ROUND[k], a))
            if b in UN:
                return el(lambda a: apply1(UN[b], a))
            if b in ("minnum", "minimum", "maxnum", "maximum"):
                return el(fmin2 if b.startswith("min") else fmax2)
            if b == "copysign":
                return el(fcopysign)
            if b in ("pow", "powi"):
                return el(lambda a, c: apply2(BI["pow"], a, c))
            if b in ("smin", "umin"):
                return el(fmin2)
            if b in ("smax", "umax"):
                return el(fmax2)
            if b == "abs":
                return (self.vecmap(rt, lambda tt, a: apply1(FABS, a), v[0]),)
            if b == "usub" and parts[2] == "sat":
                return el(lambda a, c: ite(dd.compare(a, c, PRED["lt"]), N0, apply2(dd.SUB, a, c)))
            if b in ("uadd", "umul", "sadd", "smul", "usub", "ssub") and parts[2] == "with":
                o = {"add": "add", "mul": "mul", "sub": "sub"}[b[1:]]
                return ((self.binop(o, llir.resolve(self.M, rt)[1][0], v[0], v[1]), FALSE),)
            if b in ("memcpy", "memmove"):
                self.do_memcpy(st, v)
                return (NU,)
            if b == "memset":
                self.memset(st, v[0], v[1], self.cint(v[2]))
                return (NU,)
            if b in ("expect", "launder", "strip", "ptr", "threadlocal"):
                return (v[0],)
            if b == "is" and parts[2] == "fpclass":
                return (FALSE,)
            if b == "is" and parts[2] == "constant":
                return (FALSE,)
            if b == "objectsize":
                return (dd.const(-1),)
            if b == "ctlz" or b == "cttz" or b == "ctpop":
                w = rt[1]

                def f(x):
                    if type(x) is Rat and x.is_const():
                        u = int(x.const()) & ((1 << w) - 1)
                        if b == "ctpop":
                            return dd.const(bin(u).count("1"))
                        if b == "ctlz":
                            return dd.const(w - u.bit_length())
                        return dd.const((u & -u).bit_length() - 1 if u else w)
                    return opaque(b, x, integer=True)
                return (apply1(Op("%s%d" % (b, w), f), v[0]),)
            if b == "eh":
                return (NU,)
            raise Unsupported("intrinsic %s" % name)
        base = {"sqrt": "sqrt", "fabs": "fabs"}
        if n in ("sqrt", "sqrtf", "sqrtl"):
            return (apply1(SQRT, v[0]),)
        if n in ("fabs", "fabsf", "fabsl", "abs", "labs"):
            return (apply1(FABS, v[0]),)
        if n.rstrip("fl") in UN and len(v) == 1:
            return (apply1(UN[n.rstrip("fl")], v[0]),)
        if n in UN:
            return (apply1(UN[n], v[0]),)
        if n in ("floor", "ceil", "trunc", "round", "rint"):
            return (apply1(ROUND[n], v[0]),)
        if n in BI:
            return (apply2(BI[n], v[0], v[1]),)
        if n in ("fmin", "fmax"):
            return (fmin2(v[0], v[1]) if n == "fmin" else fmax2(v[0], v[1]),)
        if n == "copysign":
            return (fcopysign(v[0], v[1]),)
        if n == "ldexp":
            return None
        if n in ("memcpy", "memmove"):
            self.do_memcpy(st, v)
            return (v[0],)
        if n == "memset":
            self.memset(st, v[0], v[1], self.cint(v[2]))
            return (v[0],)
        if n in ("__cxa_allocate_exception",):
            o = self.newobj("exc")
            return (leaf(("p", o, 0)),)
        if n in ("__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_guard_release"):
            return (NU,)
        if n.startswith("verif_emit"):
            # an observable event: appended to the (gated) event log of the state
            lg = (st.mem.get("log") or {}).get(0, (8, EMPTYLOG))[1]
            lg = apply2(LOGAPP, lg, leaf(("tag", n)))
            for x in v:
                lg = apply2(LOGAPP, lg, x)
            st.mem["log"] = {0: (8, lg)}
            return (NU,)
        return None

    def do_memcpy(self, st, v):
        if dd.is_leaf(v[2]):
            self.memcpy(st, v[0], v[1], self.cint(v[2]), "")
            return
        parts = []
        for l in dd.leaves(v[2]):
            lv = dd.val(l)
            if type(lv) is not Rat:
                continue
            op = Op("isn:%d" % lv.id, lambda x, lv=lv: TRUE if x is lv else FALSE)
            c = AND(apply1(op, v[2]), st.g)
            if c == FALSE:
                continue
            sub = State(c, dict(st.mem))
            self.memcpy(sub, v[0], v[1], self.cint(l), "")
            parts.append((c, sub.mem))
        if parts:
            st.mem = self.merge_mem(parts)

    def cint(self, n):
        if dd.is_leaf(n) and type(dd.val(n)) is Rat and dd.val(n).is_const():
            x = int(dd.val(n).const())
            if x < 0:
                raise Unsupported("negative length")
            return x
        raise Unsupported("data-dependent length")


def analyse(M, fname, argnames=None):
    """analyse a witness function. -> dict with ret, cells of pointer args, alive, stats"""
    I = Interp(M)
    f = llir.get_func(M, fname)
    if f is None:
        raise Unsupported("no witness function %s" % fname)
    args = []
    ptrs = []
    for k, (nm, t, at) in enumerate(f.params):
        an = argnames[k] if argnames and k < len(argnames) else "a%d" % k
        if t == "ptr":
            o = an
            I.objinfo[o] = ("arg", None)
            args.append(leaf(("p", o, 0)))
            ptrs.append(o)
        elif t[0] == "f":
            args.append(leaf(P.rvar(P.var(an))))
        elif t[0] == "i":
            if t[1] == 1:
                v = leaf(P.rvar(P.var(an, "arg", None, integer=True)))
                args.append(dd.compare(v, N0, PRED["gt"]))
            else:
                args.append(leaf(P.rvar(P.var(an, "arg", None, integer=True))))
        else:
            raise Unsupported("witness parameter type %r" % (t,))
    rv, mem, alive = I.run(fname, args, {}, TRUE)
    out = {}
    if "log" in mem:
        out[("log", 0)] = mem["log"][0]
    for o in ptrs:
        for off, (sz, v) in sorted((mem.get(o) or {}).items()):
            init = I.inputs.get(o, {}).get(off)
            if init is not None and init[1] == v:
                continue
            out[(o, off)] = (sz, v)
    return {"ret": rv, "out": out, "alive": alive, "stats": I.stats, "I": I, "mem": mem, "events": I.events}
