"""Type-level witnesses: programs the type checker has to accept, and programs it has to reject.

A unit is a prelude followed by cases
    //@ accept <name> <file> <function>      body must type-check (bodies carry static_asserts on result types)
    //@ reject <name> <file> <function>      body must not type-check ...
    //@ but                                  ... while this body, its well-formed twin, does
Nothing is executed; every case is one run of the clang front end on /repo's current headers.
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import tempfile

import run as R

FLAGS = ["-std=c++17", "-w", "-DBOOST_RESULT_OF_USE_TR1", "-ferror-limit=2", "-I" + R.REPO,
         "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness")]


def parse(path):
    pre, cases, cur = [], [], None
    for l in open(path):
        w = l.split()
        if w[:1] == ["//@"] and w[1] in ("accept", "reject"):
            cur = {"kind": w[1], "name": w[2], "anchor": (w[3], " ".join(w[4:])), "body": [], "twin": []}
            part = "body"
            cases.append(cur)
        elif w[:2] == ["//@", "but"]:
            part = "twin"
        elif cur is None:
            pre.append(l)
        else:
            cur[part].append(l)
    return "".join(pre), cases


def clang(args, cwd):
    return subprocess.run(["clang++"] + FLAGS + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=300)


def first_error(r):
    for l in r.stderr.splitlines():
        if "error:" in l:
            return l.split("error:", 1)[1].strip()[:240]
    return r.stderr.strip()[:240]


def run(paths):
    results, errors = [], []
    for path in paths:
        pre, cases = parse(path)
        d = tempfile.mkdtemp(prefix="vtype")
        try:
            with open(os.path.join(d, "pre.hpp"), "w") as f:
                f.write("#ifndef VTYPE_PRELUDE\n#define VTYPE_PRELUDE\n" + pre + "\n#endif\n")
            r = clang(["-x", "c++-header", "pre.hpp", "-o", "pre.pch"], d)
            if r.returncode:
                errors.append("%s: the prelude does not compile: %s" % (os.path.relpath(path), first_error(r)))
                continue

            def judge(k):
                i, c = k
                out = []
                for j, body in enumerate((c["body"], c["twin"])):
                    if not body:
                        out.append(None)
                        continue
                    src = "c%d_%d.cpp" % (i, j)
                    with open(os.path.join(d, src), "w") as f:
                        f.write('#include "pre.hpp"\nnamespace { void witness() { ENV\n' + "".join(body) + "\n} }\n")
                    out.append(clang(["-include-pch", "pre.pch", "-fsyntax-only", src], d))
                return c, out
            with cf.ThreadPoolExecutor(8) as ex:
                done = list(ex.map(judge, enumerate(cases)))
            for c, (b, t) in done:
                res = {"name": c["name"], "unit": os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "anchor": c["anchor"], "parts": []}
                code = " ".join("".join(c["body"]).split())[:160]
                if c["kind"] == "accept":
                    if b.returncode == 0:
                        res["status"] = "PROVED"
                    else:
                        res.update(status="VIOLATED", why="no longer type-checks: `%s`: %s" % (code, first_error(b)))
                elif t is not None and t.returncode:
                    res.update(status="UNDECIDED", why="the well-formed twin does not type-check either: " + first_error(t))
                elif b.returncode == 0:
                    res.update(status="VIOLATED", why="the ill-typed program `%s` is accepted" % code)
                else:
                    res["status"] = "PROVED"
                results.append(res)
        finally:
            shutil.rmtree(d)
    return results, errors
