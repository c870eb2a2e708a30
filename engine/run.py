"""Obligations: analyse lib_X against ref_X (under pre_X) in every witness unit of a property."""
import multiprocessing
import os
import re
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

CXX = ["clang++", "-std=c++14", "-w", "-I" + REPO, "-I" + os.path.join(ROOT, "witness"),
       "-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK", "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_PARAMETER_MAX_ARITY=20",
       "-ftemplate-depth=1024"]
GEN = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-ffp-contract=off",
       "-mllvm", "-inline-threshold=100000", "-mllvm", "-unroll-threshold=10000",
       "-emit-llvm", "-S", "-o", "-"]


class BuildError(Exception):
    pass


def build(src, flags=()):
    """witness source -> textual IR (text)"""
    extra = list(flags)
    if "-asserts" in extra:
        extra.remove("-asserts")
    else:
        extra.append("-DNDEBUG")
    p = subprocess.run(CXX + GEN + extra + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("%s does not compile against the current tree:\n%s" % (src, p.stderr.decode(errors="replace")[:4000]))
    q = subprocess.run(["opt", "-S", "-passes=function(loop-simplify,lcssa)", "-", "-o", "-"], input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        raise BuildError(q.stderr.decode(errors="replace")[:2000])
    return q.stdout.decode()


DEFRE = re.compile(r'^define\s.*?@(lib|ref|pre)_([A-Za-z0-9_]+)\(', re.M)


def names_of(ir):
    d = {}
    for k, n in DEFRE.findall(ir):
        d.setdefault(n, set()).add(k)
    return d


# ---------------------------------------------------------------- one obligation
def argnames(src_text, name):
    m = re.search(r'\b(?:LIB|REF|PRE)\(\s*(?:[^,]*,\s*)?%s\s*,([^{]*?)\)\s*(?:\{|try)' % re.escape(name), src_text, re.S)
    if not m:
        return None
    out = []
    for a in split_args(m.group(1)):
        a = a.strip()
        mm = re.search(r'([A-Za-z_]\w*)\s*(?:\[\d*\])?$', a)
        out.append(mm.group(1) if mm else "a")
    return out


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def oblige(ir, name, anames, budget_s):
    sys.path.insert(0, HERE)
    import llir, absint, dd, equiv
    M = llir.parse_module(ir)
    t0 = time.time()
    pre = dd.TRUE
    if "@pre_" + name in M._raw:
        p = absint.analyse(M, "@pre_" + name, anames)
        pre = p["ret"]
        dd.assume(pre)
        absint.PRE = pre
        absint.reset_round()
    L = absint.analyse(M, "@lib_" + name, anames)
    R = absint.analyse(M, "@ref_" + name, anames)
    t1 = time.time()
    cells = []

    def guarded(v, alive):
        return dd.ite(alive, v, dd.NBOT)
    if L["ret"] is None and R["ret"] is None:
        cells.append(("termination", guarded(dd.N0, L["alive"]), guarded(dd.N0, R["alive"])))
    else:
        def flat(v):
            return list(v) if type(v) is tuple else [v]
        lv, rv = flat(dd.NBOT if L["ret"] is None else L["ret"]), flat(dd.NBOT if R["ret"] is None else R["ret"])
        for k in range(max(len(lv), len(rv))):
            a = lv[k] if k < len(lv) else lv[0]
            b = rv[k] if k < len(rv) else rv[0]
            cells.append(("result" if len(rv) == 1 else "result.%d" % k, guarded(a, L["alive"]), guarded(b, R["alive"])))
    for ob in {o for o, _ in L["out"]} & {o for o, _ in R["out"]} - {"log"}:       # the same cell boundaries on both sides
        both = [{off: e for (o, off), e in A["out"].items() if o == ob} for A in (L, R)]
        for A, new in zip((L, R), L["I"].align_cells(both)):
            A["out"] = {k: e for k, e in A["out"].items() if k[0] != ob}
            A["out"].update({(ob, off): e for off, e in new.items()})
    keys = sorted(set(L["out"]) | set(R["out"]))
    for o, off in keys:
        vals = []
        for A in (L, R):
            if (o, off) in A["out"]:
                v = A["out"][(o, off)][1]
            elif o == "log":
                v = absint.EMPTYLOG
            else:
                sz = (L["out"].get((o, off)) or R["out"].get((o, off)))[0]
                iv = A["I"].inputs.get(o, {}).get(off)
                v = iv[1] if iv else A["I"].initial_cell(o, off, ("f", "double") if sz == 8 else ("i", 8 * sz))
            vals.append(guarded(v, A["alive"]))
        cells.append(("events" if o == "log" else "%s[%d]" % (o, off // 8) if off % 8 == 0 else "%s+%d" % (o, off), vals[0], vals[1]))
    res = {"name": name, "analysis_s": round(t1 - t0, 2), "stats": {k: L["stats"][k] + R["stats"][k] for k in L["stats"]},
           "atoms": len(dd.ATOMS), "nodes": len(dd.level), "parts": [], "status": "PROVED"}
    nontriv = False
    tc = time.time()
    for ic, (what, a, b) in enumerate(cells):
        left = budget_s - (time.time() - tc)
        if any(absint.LOST in dd.leaves(x) for x in (a, b)):
            raise dd.Unsupported("%s holds recombined bytes of a value" % what)
        r = equiv.compare(a, b, pre, seconds=max(5, left / 2 if left > budget_s / 3 else left / (len(cells) - ic)))
        part = {"what": what, "status": r.status, "cells": getattr(r, "cells", 0), "size": dd.size(a)}
        if r.status == "PROVED":
            part["how"] = r.how
        elif r.status == "VIOLATED":
            part["witness"] = equiv.describe(r.point)
            res["status"] = "VIOLATED"
        else:
            import poly as P
            part["open"] = ["; ".join("%s %s 0" % (P.pstr(dd.ATOMS[k]), "<=>"[s + 1]) for k, s in c[0].items())[:600] + " :: " + dd.lstr(c[1])[:200] + " vs " + dd.lstr(c[2])[:200] for c in r.open[:3]]
            part["stop"] = r.stop
            if res["status"] == "PROVED":
                res["status"] = "UNDECIDED"
        res["parts"].append(part)
        if res["status"] == "VIOLATED":
            break
    res["seconds"] = round(time.time() - t0, 2)
    return res


def _task(a):
    ir, name, an, secs, tag = a
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    def boom(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(secs))
    try:
        import absint
        absint.LOOP_LIMIT = max(96, 6 * int(tag.partition("@")[2] or 0))
        r = oblige(ir, name, an, secs)
    except (TimeoutError, MemoryError, RecursionError) as e:
        r = {"name": name, "status": "UNDECIDED", "why": type(e).__name__, "parts": []}
    except Exception as e:
        r = {"name": name, "status": "UNDECIDED", "why": "%s: %s" % (type(e).__name__, str(e)[:300]), "parts": [], "tb": traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
    r["unit"] = tag
    return r


def _build_task(a):
    src, flags = a
    path, _, size = src.partition("@")
    try:
        return src, build(path, list(flags) + (["-DVERIF_N=" + size] if size else [])), None
    except BuildError as e:
        return src, None, str(e)


def source_text(u):
    """the unit's own text, with the figure lists (.inc) it includes in place"""
    return re.sub(r'^#include "([^"]+\.inc)"$', lambda m: source_text(os.path.join(ROOT, "witness", m.group(1))), open(u).read(), flags=re.M)


def unit_flags(text):
    m = re.search(r'^//@ flags (.*)$', text, re.M)
    return m.group(1).split() if m else []


def grown_sizes(text):
    """`//@ grow <header...>`: the unit is written for sequences of VERIF_N members; a length the headers compare against is exceeded here"""
    out, cap = set(), 128
    for f in " ".join(re.findall(r'^//@ grow (.*)$', text, re.M)).split():
        if f.isdigit():
            cap = int(f)
            continue
        try:
            t = open(os.path.join(REPO, f), encoding="latin1").read()
        except OSError:
            continue
        t = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^[ \t]*#[^\n]*', ' ', t, flags=re.S | re.M)
        ks = [int(d, 0) for d in re.findall(r"(?<![\w.])(0x[0-9a-fA-F]+|[1-9]\d*)[uUlL]*(?![\w.'])", t)]
        ks += [1 << min(int(d), 9) for d in re.findall(r"1[uUlL]*\s*<<\s*(\d+)", t)]
        for k in ks:
            if 4 <= k <= 40:
                out |= {k, k + 1, k + 2}
            if 8 <= k <= 20:
                out |= {2 * k, 2 * k + 1}
            if 40 < k <= 128:
                out |= {k + 1}
    return sorted(k for k in out if k <= cap)[-12:]


def anchors_of(text):
    """name -> (file, function): the `//@ anchor file function` line preceding the obligation"""
    cur = None
    out = {}
    for l in text.split("\n"):
        m = re.match(r'^\s*//@ anchor (\S+) (.+?)\s*$', l)
        if m:
            cur = (m.group(1), m.group(2))
        for m in re.finditer(r'\bLIB\(\s*[^,]*,\s*(\w+)(##)?', l):
            out[m.group(1) + ("*" if m.group(2) else "")] = cur
        if cur:
            out.setdefault("", cur)
            m = re.match(r'^[A-Z]\w*\(', l)
            if m and not re.match(r'^(LIB|REF|PRE)\(', l):
                # uses of the unit's own macros: their arguments name the obligations
                for w in re.findall(r'[A-Za-z_]\w*', l):
                    out.setdefault("~" + w, cur)
    return out


def anchor_for(anch, name):
    if name in anch:
        return anch[name]
    c = [k for k in anch if k.endswith("*") and name.startswith(k[:-1])]
    if c:
        return anch[max(c, key=len)]
    c = [k for k in anch if k.startswith("~") and len(k) > 2 and name.startswith(k[1:])]
    return anch[max(c, key=len)] if c else anch.get("")


def run_units(units, secs=60, only=None, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = multiprocessing.get_context("fork")
    results, errors = [], []
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        tasks = []
        texts = {u: source_text(u) for u in units}
        for u in list(units):
            for k in grown_sizes(texts[u]):
                texts["%s@%d" % (u, k)] = texts[u]
        pend = []
        expected = {}
        for src, ir, err in pool.imap_unordered(_build_task, [(u, unit_flags(texts[u])) for u in texts]):
            if err:
                errors.append(err)
                continue
            d = names_of(ir)
            # obligations are those declared in the source text (after preprocessing by clang: those defined in the IR)
            for n, ks in sorted(d.items()):
                if only and n not in only:
                    continue
                if not {"lib", "ref"} <= ks:
                    errors.append("%s: obligation %s lacks %s" % (src, n, {"lib", "ref"} - ks))
                    continue
                pend.append(pool.apply_async(_task, ((ir, n, argnames(texts[src], n), secs, os.path.relpath(src, ROOT)),)))
        for p in pend:
            results.append(p.get())
    anch = {os.path.relpath(u, ROOT): anchors_of(texts[u]) for u in texts}
    for r in results:
        r["anchor"] = anchor_for(anch.get(r.get("unit"), {}), r["name"])
        if "@" in r["unit"]:
            r["unit"], k = r["unit"].split("@")
            r["name"] += "@" + k
    return results, errors


if __name__ == "__main__":
    us = [a for a in sys.argv[1:] if a.endswith(".cpp")]
    only = [a.split("@")[0] for a in sys.argv[1:] if not a.endswith(".cpp")]
    rs, es = run_units([os.path.abspath(u) for u in us], 60, only)
    for e in es:
        print(e)
    for r in rs:
        print(r["status"], r["name"], r.get("seconds"), "atoms", r.get("atoms"), "nodes", r.get("nodes"), r.get("why", ""))
        if r["status"] != "PROVED":
            for p in r["parts"]:
                if p["status"] != "PROVED":
                    print("   ", p)
            if "tb" in r:
                print(r["tb"][-600:])
