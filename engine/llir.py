"""Reader for the textual LLVM IR clang 18 emits (the subset the witnesses need)."""
import re
import struct
from fractions import Fraction


class ParseError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 |(?P<int>-?[0-9]+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ParseError("token at %r" % s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class T(object):
    """types: ('i',n) ('f',name) 'ptr' 'void' ('arr',n,t) ('vec',n,t) ('st',(t..),packed) ('named',name) 'label' 'metadata'"""


class Cur(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError("expected %r got %r in %s" % (v, x, self.t))


FLOATS = ("double", "float", "x86_fp80", "half", "fp128")
PARAM_ATTRS = set("""noundef nonnull nocapture readonly writeonly readnone noalias zeroext signext inreg returned
 immarg nofree nest swiftself swifterror allocptr allocalign noext dead_on_unwind writable range dereferenceable
 dereferenceable_or_null align sret byval byref inalloca preallocated elementtype nofpclass captures initializes""".split())


def parse_type(c):
    k, v = c.next()
    if k == "id":
        if v[0] == "i" and v[1:].isdigit():
            t = ("i", int(v[1:]))
        elif v in FLOATS:
            t = ("f", v)
        elif v == "ptr":
            t = "ptr"
            if c.peek()[1] == "addrspace":
                c.next(); c.expect("("); c.next(); c.expect(")")
        elif v in ("void", "label", "metadata", "token", "opaque"):
            t = v
        else:
            raise ParseError("type %r" % v)
    elif v == "[":
        n = int(c.next()[1]); c.expect("x")
        e = parse_type(c); c.expect("]")
        t = ("arr", n, e)
    elif v == "<":
        if c.peek()[1] == "{":
            c.next()
            t = ("st", tuple(_tlist(c, "}")), True)
            c.expect(">")
        else:
            n = int(c.next()[1]); c.expect("x")
            e = parse_type(c); c.expect(">")
            t = ("vec", n, e)
    elif v == "{":
        t = ("st", tuple(_tlist(c, "}")), False)
    elif k == "name" and v[0] == "%":
        t = ("named", v)
    else:
        raise ParseError("type %r" % (v,))
    # function type suffix
    while c.peek()[1] == "(" and False:
        pass
    return t


def _tlist(c, end):
    out = []
    if c.accept(end):
        return out
    while True:
        out.append(parse_type(c))
        if c.accept(end):
            return out
        c.expect(",")


def skip_parens(c):
    d = 0
    while True:
        v = c.next()[1]
        if v == "(":
            d += 1
        elif v == ")":
            d -= 1
            if d == 0:
                return


def skip_attrs(c):
    while True:
        k, v = c.peek()
        if k == "id" and v in PARAM_ATTRS:
            c.next()
            if c.peek()[1] == "(":
                skip_parens(c)
            elif v == "align":
                c.next()
        elif k == "attr":
            c.next()
        else:
            return


def parse_float(k, v, ty):
    if k == "hex":
        h = v[2:]
        if h[0] in "KLMHR":
            if h[0] == "K":
                bits = int(h[1:], 16)
                sign = bits >> 79
                exp = (bits >> 64) & 0x7fff
                man = bits & ((1 << 64) - 1)
                if exp == 0x7fff:
                    return ("inf", -1 if sign else 1)
                x = Fraction(man) * Fraction(2) ** (exp - 16383 - 63)
                return -x if sign else x
            raise ParseError("fp constant %s" % v)
        d = struct.unpack(">d", struct.pack(">Q", int(h, 16)))[0]
        if d != d:
            return ("nan",)
        if d in (float("inf"), float("-inf")):
            return ("inf", 1 if d > 0 else -1)
        return Fraction(d)
    return Fraction(float(v))


CASTS = ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp")


def parse_value(c, ty):
    """-> ('loc',name) ('glob',name) ('int',n) ('fp',Fraction|..) ('null',) ('undef',) ('zero',) ('agg',[(ty,v)]) ('gep',ty,[(ty,v)]) ('cast',op,ty,v,ty)"""
    k, v = c.next()
    if k == "name":
        return ("loc", v) if v[0] == "%" else ("glob", v)
    if k == "int":
        if ty[0] == "f":
            return ("fp", Fraction(v))
        return ("int", int(v))
    if k in ("flt", "hex"):
        return ("fp", parse_float(k, v, ty))
    if k == "str":
        return ("str", v)
    if k == "id":
        if v == "true":
            return ("int", 1)
        if v == "false":
            return ("int", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison", "none"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "getelementptr":
            while c.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                c.next()
                if c.peek()[1] == "(" and c.peek(1)[0] == "int":
                    skip_parens(c)
            c.expect("(")
            t = parse_type(c)
            ops = []
            while c.accept(","):
                while c.peek()[1] == "inrange":
                    c.next()
                tt = parse_type(c)
                ops.append((tt, parse_value(c, tt)))
            c.expect(")")
            return ("gep", t, ops)
        if v in CASTS:
            c.expect("(")
            t = parse_type(c)
            x = parse_value(c, t)
            c.expect("to")
            t2 = parse_type(c)
            c.expect(")")
            return ("cast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr", "select", "icmp", "fcmp"):
            while c.peek()[1] != "(":
                c.next()
            c.i -= 0
            skip_parens(c)
            return ("opaque", v)
        if v in ("dso_local_equivalent", "no_cfi"):
            return ("glob", c.next()[1])
        if v in ("blockaddress",):
            skip_parens(c)
            return ("opaque", v)
        raise ParseError("value %r" % v)
    if v in ("{", "["):
        end = "}" if v == "{" else "]"
        out = []
        if not c.accept(end):
            while True:
                t = parse_type(c)
                out.append((t, parse_value(c, t)))
                if c.accept(end):
                    break
                c.expect(",")
        return ("agg", out)
    if v == "<":
        if c.accept("{"):
            c.i -= 1
            x = parse_value(c, ty)
            c.expect(">")
            return x
        out = []
        while True:
            t = parse_type(c)
            out.append((t, parse_value(c, t)))
            if c.accept(">"):
                break
            c.expect(",")
        return ("agg", out)
    if k == "meta":
        # metadata operand: skip the rest of the parenthesised text if any
        if c.peek()[1] == "(":
            skip_parens(c)
        elif c.peek()[1] == "{":
            d = 0
            while True:
                x = c.next()[1]
                d += (x == "{") - (x == "}")
                if d == 0:
                    break
        return ("meta",)
    raise ParseError("value %r" % (v,))


class Inst(object):
    __slots__ = ("op", "res", "a", "line")

    def __init__(self, op, res, a, line):
        self.op, self.res, self.a, self.line = op, res, a, line


class Func(object):
    __slots__ = ("name", "params", "ret", "blocks", "order", "wto", "lines", "src")


class Module(object):
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self._raw = {}


FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "samesign"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CC = {"fastcc", "coldcc", "ccc", "tailcc", "swiftcc", "preserve_mostcc", "preserve_allcc", "x86_fastcallcc"}


def strip_line(s):
    # drop trailing metadata attachments ", !dbg !12" and comments outside strings
    i = 0
    inq = False
    for i, ch in enumerate(s):
        if ch == '"':
            inq = not inq
        elif ch == ";" and not inq:
            s = s[:i]
            break
    m = re.search(r',\s*![a-zA-Z]', s)
    if m and '"' not in s[m.start():]:
        s = s[:m.start()]
    return s


def parse_inst(line):
    s = strip_line(line)
    toks = tokenize(s)
    if not toks:
        return None
    c = Cur(toks)
    res = None
    if c.peek()[0] == "name" and c.peek(1)[1] == "=":
        res = c.next()[1]
        c.next()
    k, op = c.next()
    A = None
    if op in ("tail", "musttail", "notail"):
        op = c.next()[1]
    if op in BIN:
        while c.peek()[1] in FMF:
            c.next()
        t = parse_type(c)
        x = parse_value(c, t); c.expect(",")
        y = parse_value(c, t)
        A = (t, x, y)
    elif op == "fneg":
        while c.peek()[1] in FMF:
            c.next()
        t = parse_type(c)
        A = (t, parse_value(c, t))
    elif op in ("icmp", "fcmp"):
        while c.peek()[1] in FMF:
            c.next()
        pred = c.next()[1]
        t = parse_type(c)
        x = parse_value(c, t); c.expect(",")
        y = parse_value(c, t)
        A = (pred, t, x, y)
    elif op == "select":
        while c.peek()[1] in FMF:
            c.next()
        ct = parse_type(c); cv = parse_value(c, ct); c.expect(",")
        t = parse_type(c); x = parse_value(c, t); c.expect(",")
        t2 = parse_type(c); y = parse_value(c, t2)
        A = (ct, cv, t, x, y)
    elif op == "phi":
        while c.peek()[1] in FMF:
            c.next()
        t = parse_type(c)
        inc = []
        while True:
            c.expect("[")
            v = parse_value(c, t); c.expect(",")
            b = c.next()[1]; c.expect("]")
            inc.append((v, b))
            if not c.accept(","):
                break
        A = (t, inc)
    elif op == "br":
        t = parse_type(c)
        if t == "label":
            A = (c.next()[1],)
        else:
            v = parse_value(c, t); c.expect(",")
            c.expect("label"); x = c.next()[1]; c.expect(",")
            c.expect("label"); y = c.next()[1]
            A = (v, x, y)
    elif op == "switch":
        t = parse_type(c)
        v = parse_value(c, t); c.expect(",")
        c.expect("label"); d = c.next()[1]
        c.expect("[")
        cases = []
        while not c.accept("]"):
            tt = parse_type(c)
            kv = parse_value(c, tt); c.expect(",")
            c.expect("label")
            cases.append((kv, c.next()[1]))
        A = (t, v, d, cases)
    elif op == "ret":
        t = parse_type(c)
        A = (t, None if t == "void" else parse_value(c, t))
    elif op == "unreachable":
        A = ()
    elif op == "resume":
        A = ()
    elif op == "alloca":
        while c.peek()[1] in ("inalloca", "swifterror"):
            c.next()
        t = parse_type(c)
        n = ("int", 1)
        if c.peek()[1] == "," and c.peek(1)[0] == "id" and re.match(r"i\d+$", c.peek(1)[1]):
            c.next()
            tt = parse_type(c)
            n = parse_value(c, tt)
        A = (t, n)
    elif op == "load":
        while c.peek()[1] in ("volatile", "atomic"):
            c.next()
        t = parse_type(c); c.expect(",")
        pt = parse_type(c)
        A = (t, parse_value(c, pt))
    elif op == "store":
        while c.peek()[1] in ("volatile", "atomic"):
            c.next()
        t = parse_type(c)
        v = parse_value(c, t); c.expect(",")
        pt = parse_type(c)
        A = (t, v, parse_value(c, pt))
    elif op == "getelementptr":
        while c.peek()[1] in FMF or c.peek()[1] in ("nusw",):
            c.next()
        t = parse_type(c)
        ops = []
        while c.accept(","):
            tt = parse_type(c)
            ops.append((tt, parse_value(c, tt)))
        A = (t, ops)
    elif op in CASTS:
        while c.peek()[1] in FMF:
            c.next()
        t = parse_type(c)
        v = parse_value(c, t)
        c.expect("to")
        A = (t, v, parse_type(c))
    elif op in ("call", "invoke"):
        while c.peek()[1] in FMF or c.peek()[1] in CC:
            c.next()
        skip_attrs(c)
        while c.peek()[1] in CC:
            c.next()
        skip_attrs(c)
        rt = parse_type(c)
        if c.peek()[1] == "(":  # function type
            skip_parens(c)
        if c.peek()[1] == "asm":
            return Inst("asm", res, (), line)
        callee = parse_value(c, "ptr")
        c.expect("(")
        args = []
        if not c.accept(")"):
            while True:
                tt = parse_type(c)
                skip_attrs(c)
                args.append((tt, parse_value(c, tt)))
                if c.accept(")"):
                    break
                c.expect(",")
        normal = None
        if op == "invoke":
            while c.peek()[1] != "to":
                c.next()
            c.next(); c.expect("label")
            normal = c.next()[1]
        A = (rt, callee, args, normal)
    elif op == "extractvalue":
        t = parse_type(c); v = parse_value(c, t)
        ix = []
        while c.accept(","):
            ix.append(int(c.next()[1]))
        A = (t, v, ix)
    elif op == "insertvalue":
        t = parse_type(c); v = parse_value(c, t); c.expect(",")
        t2 = parse_type(c); v2 = parse_value(c, t2)
        ix = []
        while c.accept(","):
            ix.append(int(c.next()[1]))
        A = (t, v, t2, v2, ix)
    elif op == "extractelement":
        t = parse_type(c); v = parse_value(c, t); c.expect(",")
        t2 = parse_type(c); v2 = parse_value(c, t2)
        A = (t, v, v2)
    elif op == "insertelement":
        t = parse_type(c); v = parse_value(c, t); c.expect(",")
        t1 = parse_type(c); x = parse_value(c, t1); c.expect(",")
        t2 = parse_type(c); v2 = parse_value(c, t2)
        A = (t, v, x, v2)
    elif op == "shufflevector":
        t = parse_type(c); v = parse_value(c, t); c.expect(",")
        t1 = parse_type(c); x = parse_value(c, t1); c.expect(",")
        t2 = parse_type(c); m = parse_value(c, t2)
        A = (t, v, x, t2, m)
    elif op == "freeze":
        t = parse_type(c)
        A = (t, parse_value(c, t))
    elif op in ("landingpad", "fence", "atomicrmw", "cmpxchg", "va_arg", "indirectbr", "cleanuppad", "catchpad"):
        A = ()
    else:
        raise ParseError("opcode %r" % op)
    return Inst(op, res, A, line)


DEF = re.compile(r'^define\s.*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(')


def parse_module(text):
    M = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            nm, rest = l.split(" = type ", 1)
            if rest.strip() != "opaque":
                M.types[nm.strip()] = parse_type(Cur(tokenize(rest)))
        elif l.startswith("@"):
            m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
            M.globals[m.group(1)] = m.group(2)
        elif l.startswith("declare "):
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
            if m:
                M.decls.add(m.group(1))
        elif l.startswith("define "):
            m = DEF.match(l)
            name = m.group(1)
            j = i + 1
            while lines[j] != "}":
                j += 1
            M._raw[name] = (l, lines[i + 1:j])
            i = j
        i += 1
    return M


def get_func(M, name):
    f = M.funcs.get(name)
    if f is not None:
        return f
    raw = M._raw.get(name)
    if raw is None:
        return None
    head, body = raw
    f = Func()
    f.name = name
    m = DEF.match(head)
    # return type: tokens before name
    pre = head[len("define"):m.start(1)]
    toks = tokenize(pre)
    # find the type: parse from the first token that can start a type
    c = Cur(toks)
    while True:
        k, v = c.peek()
        if k == "id" and not (re.match(r"i\d+$", v) or v in FLOATS or v in ("ptr", "void")):
            c.next()
            if c.peek()[1] == "(":
                skip_parens(c)
            elif v == "align":
                c.next()
        elif k == "int":
            c.next()
        else:
            break
    f.ret = parse_type(c)
    c = Cur(tokenize(head[m.end(1):].rsplit("{", 1)[0]))
    c.expect("(")
    ps = []
    unnamed = 0
    if not c.accept(")"):
        while True:
            if c.peek()[0] == "dots":
                c.next(); c.expect(")"); break
            t = parse_type(c)
            attrs = {}
            while c.peek()[0] == "id" and c.peek()[1] in PARAM_ATTRS:
                a = c.next()[1]
                if c.peek()[1] == "(":
                    c0 = c.i
                    if a in ("byval", "sret"):
                        c.next()
                        attrs[a] = parse_type(c)
                        c.expect(")")
                    else:
                        skip_parens(c)
                elif a == "align":
                    c.next()
            nm = None
            if c.peek()[0] == "name":
                nm = c.next()[1]
            if nm is None:
                nm = "%%%d" % unnamed
            if nm[1:].isdigit():
                unnamed += 1
            ps.append((nm, t, attrs))
            if c.accept(")"):
                break
            c.expect(",")
    f.params = ps
    blocks = {}
    order = []
    cur = None
    k = 0
    nb = len(body)
    lab = re.compile(r'^((?:"[^"]*")|[-a-zA-Z$._0-9]+):')
    buf = None
    while k < nb:
        l = body[k]
        k += 1
        if not l.strip() or l.lstrip().startswith(";"):
            continue
        m = lab.match(l)
        if m:
            cur = "%" + m.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        if cur is None:
            cur = "%%%d" % unnamed
            blocks[cur] = []
            order.append(cur)
        # multi-line: switch [ ... ] / landingpad
        s = l.strip()
        if s.startswith("switch ") and not s.rstrip().endswith("]"):
            while not body[k].strip().startswith("]"):
                l += " " + strip_line(body[k]).strip()
                k += 1
            l += " ]"
            k += 1
        elif s.startswith("invoke ") or " = invoke " in s:
            l += " " + body[k].strip()
            k += 1
        elif "landingpad" in s:
            while k < nb and body[k].strip().split(" ")[0].rstrip(",") in ("cleanup", "catch", "filter"):
                k += 1
        blocks[cur].append(l)
    f.blocks = {b: [parse_inst(x) for x in ls] for b, ls in blocks.items()}
    f.order = order
    f.wto = None
    M.funcs[name] = f
    return f


# ------------------------------------------------------------------ layout

def resolve(M, t):
    while type(t) is tuple and t[0] == "named":
        if t[1] not in M.types:
            raise ParseError("opaque type %s" % t[1])
        t = M.types[t[1]]
    return t


def align_of(M, t):
    t = resolve(M, t)
    if t == "ptr":
        return 8
    if t[0] == "i":
        n = (t[1] + 7) // 8
        return 1 if n <= 1 else 2 if n <= 2 else 4 if n <= 4 else 8 if n <= 8 else 16
    if t[0] == "f":
        return {"double": 8, "float": 4, "x86_fp80": 16, "half": 2, "fp128": 16}[t[1]]
    if t[0] == "arr":
        return align_of(M, t[2])
    if t[0] == "vec":
        s = size_of(M, t)
        a = 1
        while a < s:
            a *= 2
        return a
    if t[0] == "st":
        if t[2]:
            return 1
        return max([align_of(M, x) for x in t[1]] or [1])
    raise ParseError("align %r" % (t,))


def store_size(M, t):
    t = resolve(M, t)
    if t != "ptr" and t[0] == "i":
        return (t[1] + 7) // 8
    if t == ("f", "x86_fp80"):
        return 10
    return size_of(M, t)


def size_of(M, t):
    t = resolve(M, t)
    if t == "ptr":
        return 8
    if t[0] == "i":
        n = (t[1] + 7) // 8
        a = align_of(M, t)
        return (n + a - 1) // a * a
    if t[0] == "f":
        return {"double": 8, "float": 4, "x86_fp80": 16, "half": 2, "fp128": 16}[t[1]]
    if t[0] == "arr":
        return t[1] * size_of(M, t[2])
    if t[0] == "vec":
        if t[2] == ("i", 1):
            return (t[1] + 7) // 8
        n = t[1] * size_of(M, t[2])
        a = 1
        while a < n:
            a *= 2
        return a
    if t[0] == "st":
        o = 0
        for x in t[1]:
            a = 1 if t[2] else align_of(M, x)
            o = (o + a - 1) // a * a + size_of(M, x)
        a = align_of(M, t)
        return (o + a - 1) // a * a
    raise ParseError("size %r" % (t,))


def field_offset(M, t, i):
    t = resolve(M, t)
    o = 0
    for k, x in enumerate(t[1]):
        a = 1 if t[2] else align_of(M, x)
        o = (o + a - 1) // a * a
        if k == i:
            return o
        o += size_of(M, x)
    raise ParseError("field")


# ------------------------------------------------------------------ weak topological order

def succs(f, b):
    ins = f.blocks[b]
    for x in reversed(ins):
        if x is None:
            continue
        if x.op == "br":
            return [x.a[0]] if len(x.a) == 1 else [x.a[1], x.a[2]]
        if x.op == "switch":
            return [x.a[2]] + [l for _, l in x.a[3]]
        if x.op == "invoke":
            return [x.a[3]]
        return []
    return []


def wto(f):
    if f.wto is not None:
        return f.wto
    entry = f.order[0]
    S = {b: succs(f, b) for b in f.blocks}
    dfn = {b: 0 for b in f.blocks}
    stack = []
    num = [0]

    import sys
    sys.setrecursionlimit(200000)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        head = dfn[v] = num[0]
        loop = False
        for w in S[v]:
            mn = visit(w, part) if dfn[w] == 0 else dfn[w]
            if mn <= head:
                head = mn
                loop = True
        if head == dfn[v]:
            dfn[v] = 1 << 60
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0
                    el = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for w in S[v]:
            if dfn[w] == 0:
                visit(w, part)
        return (v, part)
    P = []
    visit(entry, P)
    f.wto = P
    return P
