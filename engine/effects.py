"""Effect analysis of query entry points: which memory can each query write, which outliving state can it touch.

A unit defines queries  Q(ret, name, params) { ... }  (see witness/effects/q.hpp).  Parameters whose name starts with `out`
are the storage a query may write; every other reference parameter is an argument it must leave alone - the references are
deliberately not const, so a library function that grew a non-const parameter still compiles and is judged by what it does.

For every query the call graph below it is walked with one context per call chain, and an inclusion-based points-to
analysis (allocation-site objects, byte offsets, whatever an argument's pointers lead to = one object per argument)
resolves the address of every store, block copy, load and indirect call.
 rule args:     no store's address may resolve into an argument or into what an argument points to.
 rule globals:  no store's address resolves to storage that outlives the call (namespace scope, function-local static, per
                thread, or heap memory owned by such), and no load reads such storage if anything but its initialiser
                writes it; the value a function-local static is initialised with must not derive from an argument.
Stores that may hit either an argument or fresh storage are reported as undecided, not as violations.
"""
import os
import re
import resource
import signal
import subprocess
import sys
import time
import traceback

import run as R
import llir

GEN = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-ffp-contract=off", "-gline-tables-only", "-DNDEBUG",
       "-mllvm", "-inline-threshold=2000", "-emit-llvm", "-S", "-o", "-"]
PURE = re.compile(r"^@(llvm\.(fabs|sqrt|fmuladd|fma|minnum|maxnum|minimum|maximum|copysign|floor|ceil|trunc|round|rint|nearbyint|pow|powi|exp|exp2|log|log2|log10|sin|cos|"
                  r"abs|smax|smin|umax|umin|ctpop|ctlz|cttz|bswap|lifetime|assume|dbg|experimental\.noalias|is\.constant|expect|objectsize|eh\.|trap|ssub|sadd|smul|uadd|usub|umul|"
                  r"vector\.reduce|invariant|sideeffect|lround|llround|is\.fpclass|fptosi|fptoui|stacksave|stackrestore|usub\.sat|fshl|fshr|ldexp)|"
                  r"(a?(sin|cos|tan)h?|atan2|sqrt|cbrt|fmod|remainder|pow|exp2?|expm1|log(10|2|1p)?|floor|ceil|round|trunc|hypot|fabs|fmin|fmax|copysign|nextafter|ldexp|l?lround|rint|nearbyint|scalbn|ilogb|logb)[fl]?$|"
                  r"(memcmp|strlen|strcmp|memchr|abort|exit|__assert_fail|__isnan|__isinf|__finite)$|"
                  r"_Zd[la]|free$|__cxa_(throw|rethrow|end_catch|free_exception|atexit|guard_release|guard_abort|bad_cast|bad_typeid|call_unexpected|pure_virtual|throw_bad_array_new_length)|__clang_call_terminate|_ZSt\d+terminate|_Unwind_Resume|"
                  r"__cxa_thread_atexit|_ZSt\d+__throw_|_ZNSt\d+\w*(error|exception|argument|range|cast|alloc|logic_error|bad_\w+)[CD]\dE|_ZNK?St9exception|_ZNSt11logic_error|_ZNSt13runtime_error|_ZNSt16invalid_argumentC|_ZNSt12out_of_range|_ZNSt12domain_error|__gxx_personality)")
ALLOC = re.compile(r"^@(_Zn[wa]|malloc$|calloc$|aligned_alloc$|__cxa_allocate_exception$)")
COPY = re.compile(r"^@(llvm\.memcpy|llvm\.memmove|memcpy$|memmove$)")
SET = re.compile(r"^@(llvm\.memset|memset$)")
OUTARG = {"@frexp": [1], "@modf": [1], "@remquo": [2], "@lgamma_r": [1], "@sincos": [1, 2]}
# std::_Rb_tree rebalancing: relinks nodes of the tree it is given (arguments 1.. ), returns nodes of it
RBWRITE = re.compile(r"^@_ZSt29_Rb_tree_insert_and_rebalance|^@_ZSt28_Rb_tree_rebalance_for_erase|^@_ZNSt8__detail15_List_node_base")
RBREAD = re.compile(r"^@_ZSt18_Rb_tree_(increment|decrement)|^@_ZSt19_Rb_tree_black|__dynamic_cast$|^@__cxa_begin_catch$|^@_ZNKSt8__detail20_Prime_rehash_policy")
SELFWRITE = re.compile(r"^@_ZNSt8__detail20_Prime_rehash_policy|_ZNSt7__cxx1112basic_string|_ZNSs|_ZNKSt7__cxx1112basic_string|_ZNSt15_List|_ZNSt8ios_base|_ZNSo|_ZNSt13basic_ostream|_ZNSt7__cxx11\d+basic_|_ZNSt6locale|_ZNSt9basic_ios|_ZSt16__ostream_insert|_ZNSolsE|_ZStls")
MAXOFF = 24


def build(src):
    p = subprocess.run(R.CXX + GEN + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return None, "%s does not compile against the current tree:\n%s" % (src, p.stderr.decode(errors="replace")[:3000])
    return p.stdout.decode(), None


class Debug(object):
    """line tables: !dbg !N -> chain of (file, line, function), innermost first"""

    def __init__(self, text):
        self.m = {}
        for x in re.finditer(r'^(!\d+) = (?:distinct )?!DI(\w+)\((.*)\)$', text, re.M):
            self.m[x.group(1)] = (x.group(2), x.group(3))

    def f(self, body, key):
        m = re.search(r'\b%s: (!\d+|"(?:[^"\\]|\\.)*"|\d+)' % key, body)
        return m.group(1).strip('"') if m else None

    def scope(self, n):
        """-> file, function"""
        fn = None
        while n in self.m:
            k, b = self.m[n]
            if k == "Subprogram":
                fi = self.m.get(self.f(b, "file"))
                return (self.f(fi[1], "filename") if fi else "?"), self.f(b, "name")
            n = self.f(b, "scope")
        return "?", fn

    def chain(self, line):
        m = re.search(r'!dbg (!\d+)', line)
        n = m.group(1) if m else None
        out = []
        while n in self.m:
            k, b = self.m[n]
            fi, fn = self.scope(self.f(b, "scope"))
            out.append((fi, self.f(b, "line"), fn))
            n = self.f(b, "inlinedAt")
        return out

    def where(self, line, fallback=""):
        for fi, ln, fn in self.chain(line):
            if fi and "geometrix/" in fi:
                return "geometrix/" + fi.rsplit("geometrix/", 1)[1], fn or fallback, ln
        return None


def demangle(n):
    try:
        return subprocess.run(["c++filt", n.lstrip("@").strip('"')], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip()
    except OSError:
        return n


GDEF = re.compile(r'^(?:[\w()."$]+ )*?(constant|global) ')


class Effects(object):
    def __init__(self, M, text):
        self.M, self.text = M, text
        self.dbg = Debug(text)
        self.gconst = {}
        for g, d in M.globals.items():
            m = re.search(r'\b(constant|global)\b', d)
            self.gconst[g] = bool(m and m.group(1) == "constant") or " alias " in d
        self.alias = {}
        for g, d in M.globals.items():
            m = re.search(r'\balias\b.*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', d)
            if m:
                self.alias[g] = m.group(1)

    # ---- values
    def val(self, ctx, v, off=0):
        k = v[0]
        if k == "loc":
            return self.pts.get((ctx, v[1]), EMPTY)
        if k == "glob":
            g = self.alias.get(v[1], v[1])
            return frozenset([(("g", g), 0)])
        if k == "gep":
            base = self.val(ctx, v[2][0][1])
            return shift(base, const_offset(self.M, v[1], v[2]))
        if k == "cast":
            return self.val(ctx, v[3])
        if k == "agg":
            s = set()
            for t, x in v[1]:
                s |= self.val(ctx, x)
            return frozenset(s)
        return EMPTY

    def tainted(self, ctx, v):
        if v[0] == "loc":
            return (ctx, v[1]) in self.taint
        return False

    def setp(self, ctx, name, s):
        if not s:
            return
        k = (ctx, name)
        old = self.pts.get(k, EMPTY)
        if not s <= old:
            n = collapse(old | s)
            if n != old:
                self.pts[k] = n
                self.changed = True

    def settaint(self, ctx, name):
        if (ctx, name) not in self.taint:
            self.taint.add((ctx, name))
            self.changed = True

    def memload(self, addr):
        out = set()
        for o, off in addr:
            if o[0] in ("arg", "arg*", "out", "out*") and o[1] not in self.flat and not (o[0][-1] == "*" and o[1] in self.flat1):
                out.add(((o[0].rstrip("*") + "*", o[1]), None))
            if o[0] == "unk":
                out.add((("unk",), None))
            m = self.mem.get(o)
            if m:
                if off is None:
                    for s in m.values():
                        out |= s
                else:
                    out |= m.get(off, EMPTY)
                    out |= m.get(None, EMPTY)
        return frozenset(out)

    def memstore(self, addr, s):
        if not s:
            return
        for o, off in addr:
            m = self.mem.setdefault(o, {})
            old = m.get(off, EMPTY)
            if not s <= old:
                n = collapse(old | s)
                if n != old:
                    m[off] = n
                    self.changed = True

    def memcopy(self, dst, src, ln=None):
        for o, off in src:
            star = o[0] in ("arg", "arg*", "out", "out*", "unk")
            m = self.mem.get(o, {})
            for d, doff in dst:
                if star:
                    self.memstore([(d, None)], self.memload([(o, None)]))
                    continue
                for so, s in list(m.items()):
                    if so is None or off is None or doff is None:
                        self.memstore([(d, None)], s)
                    elif so >= off and (ln is None or so < off + ln):
                        self.memstore([(d, doff + so - off)], s)

    def reach(self, s):
        seen = set()
        work = [o for o, _ in s]
        out = set()
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            out.add((o, None))
            for q, _ in self.memload([(o, None)]):
                work.append(q)
        return frozenset(out)

    # ---- guard regions of function-local statics
    def guards(self, f):
        """block -> [(start index, end index or None, global)]"""
        g = getattr(self, "_gd", None)
        if g is None:
            g = self._gd = {}
        if f.name in g:
            return g[f.name]
        res = {}
        for b in f.order:
            for i, I in enumerate(f.blocks[b]):
                if I.op in ("call", "invoke") and I.a and I.a[1] == ("glob", "@__cxa_guard_acquire"):
                    gv = I.a[2][0][1]
                    if gv[0] != "glob":
                        continue
                    target = gv[1].replace("_ZGV", "_Z")
                    # the branch on its result
                    start = None
                    for J in f.blocks[b][i + 1:]:
                        if J.op == "br" and len(J.a) == 3:
                            cond = J.a[0]
                            for K in f.blocks[b][i + 1:]:
                                if cond == ("loc", K.res) and K.op == "icmp":
                                    start = J.a[2] if K.a[0] == "eq" else J.a[1]
                    if start is None:
                        continue
                    work, seen = [start], set()
                    while work:
                        x = work.pop()
                        if x in seen:
                            continue
                        seen.add(x)
                        end = None
                        for k, J in enumerate(f.blocks[x]):
                            if J.op in ("call", "invoke") and J.a and J.a[1][0] == "glob" and J.a[1][1] in ("@__cxa_guard_release", "@__cxa_guard_abort") and J.a[2][0][1] == gv:
                                end = k
                        res.setdefault(x, []).append((0, end, target))
                        if end is None:
                            work += llir.succs(f, x)
        g[f.name] = res
        return res

    def ginit(self, f, b, i):
        for s, e, t in self.guards(f).get(b, ()):
            if s <= i and (e is None or i <= e):
                return t
        return None

    # ---- one query
    def run(self, name, params_kind, flat=(), flat1=()):
        self.flat, self.flat1 = set(flat), set(flat1)
        self.pts, self.mem, self.taint, self.tmem = {}, {}, set(), set()
        self.ctxs = {}
        self.order = []
        f = llir.get_func(self.M, name)
        root = (name, ())
        self.names = {}
        for i, (pn, t, at) in enumerate(f.params):
            if t == "ptr":
                kind = params_kind[i] if i < len(params_kind) else "arg"
                if "sret" in at:
                    kind = "out"
                self.pts[(root, pn)] = frozenset([((kind, i), 0)])
            self.taint.add((root, pn))
        self.ctxs[root] = (f, None)
        self.order = [root]
        self.external = {}
        rounds = 0
        self.changed = True
        while self.changed:
            self.changed = False
            self.stores, self.loads, self.atomics = [], [], []
            self.ncalls = 0
            self.nins = 0
            for c in list(self.order):
                self.func(c)
            rounds += 1
            if rounds > 60:
                raise RuntimeError("points-to iteration does not settle")
        return self

    def call_ctx(self, ctx, key, fname, init):
        chain = ctx[1]
        anc = [c for c in self.ancestors(ctx) if c[0] == fname]
        if anc:
            return anc[0]
        if len(chain) >= 6:
            c = (fname, ("shared", init))
        else:
            c = (fname, chain + ((ctx[0], key, init),)) if not (chain and chain[0] == "shared") else (fname, ("shared", init))
        if c not in self.ctxs:
            self.ctxs[c] = (llir.get_func(self.M, fname), ctx)
            self.order.append(c)
            self.changed = True
            self.inits[c] = init or self.inits.get(ctx)
        return c

    inits = {}

    def ancestors(self, ctx):
        while ctx is not None:
            yield ctx
            ctx = self.ctxs[ctx][1]

    def func(self, ctx):
        f = self.ctxs[ctx][0]
        cinit = self.inits.get(ctx)
        for b in f.order:
            for i, I in enumerate(f.blocks[b]):
                if I is None:
                    continue
                self.nins += 1
                self.inst(ctx, f, b, i, I, cinit)

    def inst(self, ctx, f, b, i, I, cinit):
        op, a, r = I.op, I.a, I.res
        V = self.val
        if op == "alloca":
            self.setp(ctx, r, frozenset([(("alloca", ctx, r), 0)]))
        elif op == "getelementptr":
            t, ops = a
            self.setp(ctx, r, shift(V(ctx, ops[0][1]), const_offset(self.M, t, ops)))
            if any(self.tainted(ctx, v) for _, v in ops):
                self.settaint(ctx, r)
        elif op == "load":
            ad = V(ctx, a[1])
            t = a[0]
            if t == "ptr" or (type(t) is tuple and t[0] in ("st", "named", "arr", "vec")) or t == ("i", 64):
                s = self.memload(ad)
                if t == ("i", 64):
                    s = frozenset(x for x in s if x[0][0] not in ("arg*", "out*", "unk")) if not any(x[0][0] in self.mem for x in s) else s
                    s = frozenset(x for x in s if x[0][0] not in ("arg*", "out*"))
                self.setp(ctx, r, s)
            self.loads.append((ctx, f, I, ad, self.ginit(f, b, i) or cinit))
            if self.tainted(ctx, a[1]) or any(o[0] in ("arg", "arg*") or o in self.tmem for o, _ in ad):
                self.settaint(ctx, r)
        elif op == "store":
            ad = V(ctx, a[2])
            self.memstore(ad, V(ctx, a[1]))
            tv = self.tainted(ctx, a[1])
            self.stores.append((ctx, f, I, ad, self.ginit(f, b, i) or cinit, tv))
            if tv:
                self.taintmem(ad)
        elif op == "phi":
            s = EMPTY
            for v, _ in a[1]:
                s = s | V(ctx, v)
                if self.tainted(ctx, v):
                    self.settaint(ctx, r)
            self.setp(ctx, r, s)
        elif op == "select":
            self.setp(ctx, r, V(ctx, a[3]) | V(ctx, a[4]))
            if any(self.tainted(ctx, v) for v in (a[1], a[3], a[4])):
                self.settaint(ctx, r)
        elif op in llir.CASTS or op == "freeze":
            self.setp(ctx, r, V(ctx, a[1]))
            if self.tainted(ctx, a[1]):
                self.settaint(ctx, r)
        elif op in llir.BIN or op in ("icmp", "fcmp", "fneg"):
            vs = [v for v in a if type(v) is tuple and v and v[0] in ("loc", "glob", "gep", "cast")]
            if op in ("add", "sub", "and", "or"):
                s = EMPTY
                for v in vs:
                    s = s | V(ctx, v)
                self.setp(ctx, r, frozenset((o, None) for o, _ in s))
            if any(self.tainted(ctx, v) for v in vs):
                self.settaint(ctx, r)
        elif op in ("extractvalue", "extractelement"):
            self.setp(ctx, r, V(ctx, a[1]))
            if self.tainted(ctx, a[1]):
                self.settaint(ctx, r)
        elif op in ("insertvalue", "insertelement"):
            vs = [v for v in a if type(v) is tuple and v and v[0] in ("loc", "glob", "gep", "cast")]
            s = EMPTY
            for v in vs:
                s = s | V(ctx, v)
                if self.tainted(ctx, v):
                    self.settaint(ctx, r)
            self.setp(ctx, r, s)
        elif op == "shufflevector":
            self.setp(ctx, r, V(ctx, a[1]) | V(ctx, a[2]))
            if self.tainted(ctx, a[1]) or self.tainted(ctx, a[2]):
                self.settaint(ctx, r)
        elif op == "landingpad":
            pass
        elif op in ("atomicrmw", "cmpxchg"):
            self.atomics.append((ctx, f, I))
        elif op == "ret":
            if a[1] is not None:
                self.setp(ctx, "ret", V(ctx, a[1]))
                if self.tainted(ctx, a[1]):
                    self.settaint(ctx, "ret")
        elif op in ("call", "invoke"):
            self.call(ctx, f, b, i, I, cinit)
        elif op == "asm":
            self.external["inline asm"] = I

    def taintmem(self, ad):
        for o, _ in ad:
            if o not in self.tmem:
                self.tmem.add(o)
                self.changed = True

    def call(self, ctx, f, b, i, I, cinit):
        rt, callee, args, _ = I.a
        r = I.res
        init = self.ginit(f, b, i) or cinit
        if callee[0] == "glob":
            targets = [self.alias.get(callee[1], callee[1])]
        else:
            tg = self.val(ctx, callee)
            targets = [o[1] for o, _ in tg if o[0] == "g"]
            if len(targets) != len(tg) or not targets:
                targets.append("indirect call")
        A = [self.val(ctx, v) for _, v in args]
        tn = [self.tainted(ctx, v) for _, v in args]
        self.ncalls += 1
        for t in targets:
            if t in self.M._raw:
                c = self.call_ctx(ctx, (b, i), t, init)
                g = self.ctxs[c][0]
                for k, (pn, pt, at) in enumerate(g.params):
                    if k < len(A):
                        if "byval" in at:
                            o = ("alloca", c, pn)
                            self.memcopy([(o, 0)], A[k])
                            self.setp(c, pn, frozenset([(o, 0)]))
                        else:
                            self.setp(c, pn, A[k])
                        if tn[k]:
                            self.settaint(c, pn)
                if r:
                    self.setp(ctx, r, self.pts.get((c, "ret"), EMPTY))
                    if (c, "ret") in self.taint:
                        self.settaint(ctx, r)
                continue
            if COPY.match(t):
                ln = args[2][1][1] if args[2][1][0] == "int" else None
                self.memcopy(A[0], A[1], ln)
                tv = any(o[0] in ("arg", "arg*") or o in self.tmem for o, _ in A[1])
                zero = ln == 0
                if not zero:
                    self.stores.append((ctx, f, I, A[0], init, tv))
                    self.loads.append((ctx, f, I, A[1], init))
                if tv:
                    self.taintmem(A[0])
                if r:
                    self.setp(ctx, r, A[0])
            elif SET.match(t):
                self.stores.append((ctx, f, I, A[0], init, tn[1]))
                if r:
                    self.setp(ctx, r, A[0])
            elif ALLOC.match(t):
                self.setp(ctx, r, frozenset([(("gheap" if init else "heap", ctx, (b, i)), 0)]))
            elif t == "@realloc":
                o = (("heap", ctx, (b, i)), 0)
                self.memcopy([o], A[0])
                self.setp(ctx, r, frozenset([o]))
            elif t.startswith("@llvm.threadlocal.address"):
                self.setp(ctx, r, A[0])
            elif t == "@__cxa_guard_acquire":
                pass
            elif t in OUTARG:
                for k in OUTARG[t]:
                    self.stores.append((ctx, f, I, A[k], init, any(tn)))
                if r and any(tn):
                    self.settaint(ctx, r)
            elif PURE.match(t):
                if r and any(tn):
                    self.settaint(ctx, r)
            elif RBWRITE.match(t):
                s = EMPTY
                for x in A:
                    s = s | self.reach(x)
                for x in A:
                    self.stores.append((ctx, f, I, x, init, False))
                self.memstore(s, s)
                if r:
                    self.setp(ctx, r, s)
            elif RBREAD.match(t):
                if r:
                    s = EMPTY
                    for x in A:
                        s = s | self.reach(x)
                    self.setp(ctx, r, s)
            elif SELFWRITE.match(t):
                if A:
                    self.stores.append((ctx, f, I, A[0], init, any(tn)))
                    o = frozenset([(("heap", ctx, (b, i)), None)])
                    self.memstore(A[0], o)
                    if r:
                        self.setp(ctx, r, self.reach(A[0]))
            else:
                if any(x for x in A) or t == "indirect call":
                    self.external[t] = I
                if r and rt == "ptr":
                    s = frozenset([(("unk",), None)])
                    for x in A:
                        s = s | self.reach(x)
                    self.setp(ctx, r, s)


EMPTY = frozenset()


def shift(s, off):
    if off == 0:
        return s
    out = set()
    for o, x in s:
        out.add((o, None if x is None or off is None or abs(x + off) > 4096 else x + off))
    return frozenset(out)


def collapse(s):
    """one unknown offset stands for all offsets of that object; more than 6 known ones become unknown"""
    if len(s) < 2:
        return s
    cnt = {}
    for o, x in s:
        if x is None:
            cnt[o] = 99
        else:
            cnt[o] = cnt.get(o, 0) + 1
    if max(cnt.values()) <= 6:
        return s
    return frozenset((o, None) if cnt[o] > 6 else (o, x) for o, x in s)


def const_offset(M, t, ops):
    off = 0
    cur = t
    for k, (ty, v) in enumerate(ops[1:]):
        if k == 0:
            if v == ("int", 0):
                continue
            if v[0] != "int":
                return None
            off += v[1] * llir.size_of(M, t)
            continue
        rc = llir.resolve(M, cur)
        if rc[0] == "st":
            if v[0] != "int":
                return None
            off += llir.field_offset(M, rc, v[1])
            cur = rc[1][v[1]]
        else:
            el = rc[2]
            if v[0] != "int":
                return None
            off += v[1] * llir.size_of(M, el)
            cur = el
    return off


def writers(M, E):
    """globals some function of the unit stores to outside their own initialiser: global -> (function, instruction)"""
    out = {}
    for n in M._raw:
        if n.startswith("@_GLOBAL__sub_I") or n.startswith("@__cxx_global_var_init") or n.startswith("@__tls_init"):
            continue
        if not any(" @" in l or "(@" in l for l in M._raw[n][1] if "store" in l or "mem" in l or "call" in l):
            continue
        if not any("store" in l and "@" in l for l in M._raw[n][1]):
            continue
        try:
            f = llir.get_func(M, n)
        except llir.ParseError:
            continue
        for b in f.order:
            for i, I in enumerate(f.blocks[b]):
                if I is not None and I.op == "store":
                    v = I.a[2]
                    while v[0] in ("gep", "cast"):
                        v = v[2][0][1] if v[0] == "gep" else v[3]
                    if v[0] == "glob" and E.ginit(f, b, i) != v[1]:
                        out.setdefault(v[1], (n, I))
    return out


STDSTATE = re.compile(r'^@(_ZTV|_ZTI|_ZTS|_ZTT|_ZTC|__dso_handle|_ZGV|_ZSt4c(out|err|in|log)|_ZNSt|_ZSt)')


def judge(E, name, rule, wr, pnames):
    """-> status, why, anchor, stats"""
    viol, und = [], []

    def at(I, f):
        w = E.dbg.where(I.line, demangle(f.name))
        if w:
            return "%s:%s %s" % (w[0], w[2], w[1]), (w[0], w[1] or "?")
        ch = E.dbg.chain(I.line)
        return (" <- ".join("%s:%s %s" % (os.path.basename(a or "?"), l, fn) for a, l, fn in ch[:3]) or demangle(f.name)), None
    nst = 0
    if rule == "args":
        for ctx, f, I, ad, init, tv in E.stores:
            nst += 1
            hit = [o for o, _ in ad if o[0] in ("arg", "arg*")]
            if hit:
                w, an = at(I, f)
                what = ", ".join(sorted(set(("what `%s` points to" if o[0] == "arg*" else "`%s`") % (pnames[o[1]] if o[1] < len(pnames) else "#%d" % o[1]) for o in hit)))
                if all(o[0] in ("arg", "arg*") for o, _ in ad):
                    viol.append(("writes its argument %s at %s" % (what, w), an))
                else:
                    und.append("may write %s at %s" % (what, w))
            elif any(o[0] == "unk" for o, _ in ad):
                und.append("store through an unresolved pointer at %s" % at(I, f)[0])
    else:
        for ctx, f, I, ad, init, tv in E.stores:
            nst += 1
            hit = [o for o, _ in ad if (o[0] == "g" and not E.gconst.get(o[1], False)) or o[0] == "gheap"]
            if hit:
                w, an = at(I, f)
                for o in hit:
                    own = o[0] == "gheap" and init or o[0] == "g" and (init == o[1])
                    nm = demangle(o[1]) if o[0] == "g" else "memory owned by a static object"
                    if own:
                        if tv and o[0] == "g":
                            viol.append(("the static `%s` is initialised from the arguments of the first call at %s" % (nm, w), an))
                    elif all(q[0] in ("g", "gheap") for q, _ in ad):
                        viol.append(("writes state that outlives the call, `%s`, at %s" % (nm, w), an))
                    else:
                        und.append("may write `%s` at %s" % (nm, w))
        for ctx, f, I, ad, init in E.loads:
            nst += 1
            for o, _ in ad:
                if o[0] == "g" and o[1] in wr and not E.gconst.get(o[1], False) and not STDSTATE.match(o[1]):
                    w, an = at(I, f)
                    viol.append(("reads mutable state `%s`, written by %s, at %s" % (demangle(o[1]), demangle(wr[o[1]][0]), w), an))
    for x in E.external:
        und.append("effects of %s are not known" % demangle(x))
    st = {"insts": E.nins, "calls": E.ncalls, "accesses": nst, "contexts": len(E.order)}
    if viol:
        return "VIOLATED", viol[0][0], viol[0][1], st
    if und:
        return "UNDECIDED", "; ".join(sorted(set(und))[:3])[:600], None, st
    return "PROVED", None, None, st


def _task(a):
    ir, name, pnames, flat, retflat, rules, secs, tag = a
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def boom(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(secs))
    t0 = time.time()
    out = []
    try:
        M = llir.parse_module(ir)
        E = Effects(M, ir)
        E.inits = {}
        sret = 0
        f = llir.get_func(M, "@q_" + name)
        if f.params and "sret" in f.params[0][2]:
            sret = 1
        pn = ["result"] * sret + pnames
        fl = [i + sret for i, x in enumerate(flat) if x is True] + ([0] if sret and retflat else [])
        E.run("@q_" + name, ["out" if p.startswith("out") else "arg" for p in pn], fl, [i + sret for i, x in enumerate(flat) if x == 1])
        wr = writers(M, E) if "globals" in rules else {}
        for rule in rules:
            s, why, an, st = judge(E, name, rule, wr, pn)
            out.append({"name": name, "rule": rule, "status": s, "why": why, "at": an, "stats": st})
    except Exception as e:
        for rule in rules:
            out.append({"name": name, "rule": rule, "status": "UNDECIDED", "why": "%s: %s" % (type(e).__name__, str(e)[:200]), "at": None, "stats": {}, "tb": traceback.format_exc()[-1200:]})
    finally:
        signal.alarm(0)
    for r in out:
        r["unit"] = tag
        r["parts"] = []
        r["seconds"] = round(time.time() - t0, 2)
    return out


# parameter types that hold no pointers (fixed-size coordinate aggregates of the unit, scalars, policies)
FLAT = set("P2 P3 V2 V3 S2 S3 TOL EXACT N2 N3 C2 C3 B2 B3 O2 T2 T3 M22 double float int bool unsigned U SR K2 R2 GT".split())

# containers whose elements hold no pointers
FLAT1 = set("G2 L2 W2".split())


def qtable(text):
    """name -> (anchor, parameter names), in source order"""
    out, cur = {}, None
    for l in text.split("\n"):
        m = re.match(r'^\s*//@ query (\S+) (.+?)\s*$', l)
        if m:
            cur = (m.group(1), m.group(2))
        m = re.match(r'^\s*Q\(', l)
        if m:
            depth, k = 0, l.index("(")
            for j in range(k, len(l)):
                depth += (l[j] == "(") - (l[j] == ")")
                if depth == 0:
                    break
            parts = R.split_args(l[k + 1:j])
            ps = [re.search(r'([A-Za-z_]\w*)\s*$', p).group(1) for p in parts[2:] if p.strip()]
            ty = [re.match(r'\s*(?:const\s+)?([\w:]+)\s*[&*]', p) for p in parts[2:] if p.strip()]
            out[parts[1].strip()] = (cur, ps, [(1 if m.group(1) in FLAT1 else m.group(1) in FLAT) if m else True for m in ty], parts[0].strip() in FLAT)
    return out


def run(units, rules, secs=120):
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    res, errors = [], []
    with ctx.Pool(8, maxtasksperchild=4) as pool:
        pend = []
        for u, (ir, err) in zip(units, pool.imap(build, units)):
            if err:
                errors.append(err)
                continue
            q = qtable(open(u).read())
            defs = set(re.findall(r'^define\s.*?@q_([A-Za-z0-9_]+)\(', ir, re.M))
            for n in defs - set(q):
                errors.append("%s: query %s not in the table" % (u, n))
            for n in q:
                if n in defs:
                    pend.append((q[n][0], pool.apply_async(_task, ((ir, n, q[n][1], q[n][2], q[n][3], rules, secs, os.path.relpath(u, R.ROOT)),))))
                else:
                    errors.append("%s: query %s not compiled" % (u, n))
        for an, p in pend:
            for r in p.get():
                r["anchor"] = r["at"] or an
                res.append(r)
    return res, errors


if __name__ == "__main__":
    us = [os.path.abspath(a) for a in sys.argv[1:] if a.endswith(".cpp")]
    rs, es = run(us, ["args", "globals"])
    for e in es:
        print(e)
    for r in rs:
        if r["status"] != "PROVED" or "-v" in sys.argv:
            print(r["status"], r["rule"], r["name"], r["seconds"], r["why"], r["anchor"] if r["status"] == "VIOLATED" else "", r.get("tb", ""))
    print(len(rs), "obligations", sum(r["status"] == "PROVED" for r in rs), "proved")
