#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

exit 0: every obligation the analysis decided holds;  exit 1 + VIOLATION line: a named
construct breaks the property;  exit 2: the analysis itself could not be carried out.
"""
import glob
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.join(ROOT, "engine"))
os.environ.setdefault("PYTHONHASHSEED", "0")
import run      # noqa: E402

REPO = run.REPO
EXPL = ("Static analysis of the current tree: every witness unit is compiled to LLVM IR from /repo's working tree (never executed); a gated-SSA "
        "abstract interpretation computes the normal form of each library entry point (decision diagram over polynomial signs, merged at every "
        "control-flow join) and of an independent specification, and compares the two value graphs on the stated domain. Structural rules are decided "
        "by the C++ type checker (compile-fail witnesses) or on the resolved AST/IR.")


def locate(anchor):
    """file:line of the first line mentioning the anchored function (report text only)"""
    if not anchor:
        return "?"
    f, fn = anchor
    key = fn.split("(")[0].split()[0].split("::")[-1].split("/")[0]
    p = os.path.join(REPO, f)
    try:
        best = None
        for i, l in enumerate(open(p, errors="replace"), 1):
            if key in l and not l.lstrip().startswith(("#", "//", "*")):
                best = best or i
                if ("inline" in l or "operator" in l or l.rstrip().endswith(")")) and "return" not in l:
                    best = i
                    break
        return "%s:%s %s" % (f, best or "?", fn)
    except OSError:
        return "%s (file gone) %s" % (f, fn)


def load_known():
    out = {"findings": [], "fixed": []}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=<id> instance=<name> <what>
                kv = l[len("finding: "):].split(None, 2)
                out["findings"].append((kv[0].split("=", 1)[1], kv[1].split("=", 1)[1], kv[2] if len(kv) > 2 else ""))
    return out


def selftest():
    """setup: the tool chain is there and the engine tells equal from different on a two-line example"""
    rs, es = run.run_units([os.path.join(ROOT, "engine", "selftest.cpp")], 60)
    got = {r["name"]: r["status"] for r in rs}
    want = {"same": "PROVED", "differs": "VIOLATED", "boundary": "VIOLATED"}
    if es or got != want:
        print("selftest failed: %s %s" % (got, es))
        return 2
    print("selftest ok")
    return 0


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = 90 if tier == "quick" else 240
    wdir = os.path.join(ROOT, "witness", pid)
    results, errors = [], []
    units = sorted(glob.glob(os.path.join(wdir, "*.cpp")))
    if tier == "thorough":
        units += sorted(glob.glob(os.path.join(wdir, "thorough", "*.cpp")))
    if units:
        rs, es = run.run_units(units, secs)
        results += rs
        errors += es
    tdir = os.path.join(wdir, "types")
    if os.path.isdir(tdir):
        import typecheck
        rs, es = typecheck.run(sorted(glob.glob(os.path.join(tdir, "*.cpp"))))
        results += rs
        errors += es
    rules = os.path.join(wdir, "rules.json")
    if os.path.exists(rules):
        import rules as R
        rs, es = R.run(json.load(open(rules)), tier)
        results += rs
        errors += es
    n = len(results)
    decided = [r for r in results if r["status"] in ("PROVED", "VIOLATED")]
    viol = [r for r in results if r["status"] == "VIOLATED"]
    und = [r for r in results if r["status"] == "UNDECIDED"]
    known = load_known()
    kf = {i: w for p, i, w in known["findings"] if p == pid}
    new = [r for r in viol if r["name"] not in kf]
    for r in viol:
        if r["name"] in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, r["name"], kf[r["name"]]))
    parts = sum(max(1, len(r.get("parts", []))) for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": EXPL,
            "obligations": n,
            "discharged": len([r for r in results if r["status"] == "PROVED"]),
            "undecided": len(und),
            "values_compared": parts,
            "witness_units": len(units),
            "ir_instructions_interpreted": sum(r.get("stats", {}).get("insts", 0) for r in results),
            "calls_resolved": sum(r.get("stats", {}).get("calls", 0) for r in results),
            "sign_atoms": sum(r.get("atoms", 0) for r in results),
            "cells_refuted": sum(p.get("cells", 0) for r in results for p in r.get("parts", [])),
            "instances": [{"obligation": r["name"], "unit": r.get("unit"), "anchor": "%s %s" % tuple(r["anchor"]) if r.get("anchor") else None,
                           "status": r["status"], **({"why": r["why"]} if r.get("why") else {})} for r in results],
            "known_findings": sorted(kf),
        },
        "assumptions": ["scalars are exact reals (no rounding, overflow, NaN); machine integers do not overflow",
                        "fixed-size sequences/dimensions as instantiated by the witness units",
                        "clang 18 front end and scalar optimiser preserve semantics"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for r in und:
        print("UNDECIDED %s %s: %s" % (pid, r["name"], r.get("why") or [p.get("what") for p in r["parts"] if p["status"] != "PROVED"]))
    for e in errors:
        print("ANALYSIS-ERROR %s: %s" % (pid, e))
    if new:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in new:
            path = os.path.join(rdir, "%s-%s.txt" % (pid, r["name"]))
            with open(path, "w") as f:
                f.write("property %s, obligation %s (%s)\nconstruct: %s\n" % (pid, r["name"], r.get("unit"), locate(r.get("anchor"))))
                if r.get("why"):
                    f.write(r["why"] + "\n")
                for p in r.get("parts", []):
                    if p["status"] == "VIOLATED":
                        w = p["witness"]
                        f.write("%s differs from the specification\n  library value:       %s\n  specification value: %s\n  e.g. in the cell containing %s\n" % (p["what"], w["library"], w["specification"], w["at"]))
                f.write("re-run: cd /verif && engine/one %s %s\n" % (r.get("unit"), r["name"]))
            print("%s: %s [%s]" % (locate(r.get("anchor")), r["name"], (r.get("why") or "value differs from the specification")[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 2
    if not decided:
        print("ANALYSIS-ERROR %s: only %d of %d obligations decided" % (pid, len(decided), n))
        return 2
    print("OK %s: %d obligations, %d discharged, %d undecided, %.1fs" % (pid, n, ev["coverage"]["discharged"], len(und), time.time() - t0))
    return 0


sys.exit(main())
