#!/usr/bin/env python3
"""Fast mutation sweep.  Like tools/mutate.py, but only the obligations whose compiled code the change reaches are decided.

usage: tools/mutate2.py <property> <n per file> [file ...]     (overlays in /tmp/w/mu/; log in /tmp/w/mutlog/<property>.txt)
C = noticed, UNREACHED = no obligation's code changes, SURVIVED = the code changes and no obligation notices
"""
import glob, hashlib, json, multiprocessing, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv("/opt/veriftools/pyvenv/bin/python3", ["/opt/veriftools/pyvenv/bin/python3"] + sys.argv)
sys.path.insert(0, os.path.join(V, "engine"))
src = open(os.path.join(V, "tools", "mutate.py")).read()
exec(src[src.index("SUB ="):src.index("def main()")])
os.environ.setdefault("VERIF_REPO", "/repo")
import run
NORM = re.compile(r', ![\w.]+ !\d+|#\d+')


def closures(ir):
    defs = {}
    for m in re.finditer(r'^define [^\n]*?@("[^"]*"|[\w.$-]+)\(.*?^}', ir, re.M | re.S):
        defs[m.group(1)] = NORM.sub("", m.group(0))
    for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = .*$', ir, re.M):
        defs[m.group(1)] = NORM.sub("", m.group(0))
    refs = {k: set(re.findall(r'@("[^"]*"|[\w.$-]+)', b)) & defs.keys() for k, b in defs.items()}
    out = {}
    for n, ks in run.names_of(ir).items():
        seen, todo = set(), [p + "_" + n for p in ks]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += refs.get(k, ())
        out[n] = hashlib.md5("\n".join(defs[k] for k in sorted(seen) if k in defs).encode()).hexdigest()
    return out


def one(u, size):
    t = run.source_text(u)
    return t, run.build(u, run.unit_flags(t) + (["-DVERIF_N=%d" % size] if size else []))


def base(a):
    try:
        return a, closures(one(*a)[1])
    except Exception as e:
        return a, None


def task(a):
    f, m, units, old, wid = a
    ov = "/tmp/w/mu/%d" % os.getpid()
    if not os.path.isdir(ov):
        shutil.copytree("/repo/geometrix", ov + "/geometrix")
    p = os.path.join(ov, f)
    keep = open(p, "rb").read()
    open(p, "w", encoding="latin1", newline="").write(m)
    for l in (run.CXX, run.GEN):
        for i, x in enumerate(l):
            if x.startswith("-I") and "witness" not in x and not x.startswith("-I/usr"):
                l[i] = "-I" + ov
    run.REPO = ov
    reached, und, nc = 0, 0, 0
    why = ""
    try:
        sizes = []
        for u, s in units:
            sizes.append((u, s))
        for u in {u for u, s in units}:
            for k in run.grown_sizes(run.source_text(u)):
                if (u, k) not in old:
                    sizes.append((u, k))
        for u, s in sizes:
            try:
                t, ir = one(u, s)
            except run.BuildError:
                nc += 1
                if nc > 1:
                    return "NOCOMPILE", ""
                continue
            c = closures(ir)
            for n, h in c.items():
                if old.get((u, s), {}).get(n) == h:
                    continue
                reached += 1
                x = multiprocessing.get_context("fork").Pool(1, maxtasksperchild=1)
                r = x.apply(run._task, ((ir, n, run.argnames(t, n), 60, os.path.relpath(u, V) + ("@%d" % s if s else "")),))
                x.terminate()
                if r["status"] == "VIOLATED":
                    return "C", n
                und += r["status"] == "UNDECIDED"
                if r["status"] == "UNDECIDED": why = r.get("why", "") or "cells"
    finally:
        open(p, "wb").write(keep)
    if nc:
        return "NOCOMPILE", ""
    return ("SURVIVED" if reached else "UNREACHED"), "[reached %d, undecided %d %s]" % (reached, und, why[:120])


def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
    files = sys.argv[3:] or props[pid]["anchors"]["files"]
    rnd = random.Random(int(os.environ.get("MSEED", "7")))
    us = sorted(glob.glob(os.path.join(V, "witness", pid, "*.cpp")))
    units = [(u, s) for u in us for s in [0] + run.grown_sizes(run.source_text(u))[-1:]]
    J = int(os.environ.get("MJ", "6"))
    with multiprocessing.get_context("fork").Pool(J) as pool:
        old = {a: c for a, c in pool.imap_unordered(base, units) if c}
    todo = []
    for f in files:
        t, ms = mutants(os.path.join("/repo", f))
        rnd.shuffle(ms)
        seen, k = set(), 0
        for a, b, new, line in ms:
            if k >= n or (line, new) in seen:
                continue
            seen.add((line, new))
            k += 1
            todo.append((f, t[:a] + new + t[b:], units, old, (t[:a].count("\n") + 1, t[:a].rsplit("\n", 1)[-1] + "<<" + t[a:b] + "=>" + new + ">>" + t[b:].split("\n")[0].rstrip())))
    os.makedirs("/tmp/w/mutlog", exist_ok=True)
    log = open("/tmp/w/mutlog/%s.m2" % pid, "a")
    tot = {}
    procs = []
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(J) as ex:
        fs = {ex.submit(task, a): a for a in todo}
        for r in cf.as_completed(fs):
            a = fs[r]
            try:
                k, note = r.result()
            except Exception as e:
                k, note = "ERROR", repr(e)[:100]
            tot[k] = tot.get(k, 0) + 1
            log.write("%s %s:%d %s  %s\n" % (k, a[0], a[4][0], a[4][1].strip()[:200], note))
            log.flush()
    log.write("TOTAL %s %s\n" % (pid, tot))
    shutil.rmtree("/tmp/w/mu", ignore_errors=True)


main()
