"""mkseed.py <spec.py>...: write seeded/<id>/ from a spec defining id, property, edits=[(file, old, new)], needs, breaks, demo (C++ main body source)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo ; builds the demonstration against the headers there and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -w -O0 -ftemplate-depth=1024 -DBOOST_CHRONO_HEADER_ONLY -DBOOST_PARAMETER_MAX_ARITY=20 -DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK -I"$PWD" "$here/demo.cpp" -o "$out/demo"
timeout 60 "$out/demo"
'''
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        subprocess.check_call("rm -rf /tmp/w/pt && mkdir -p /tmp/w/pt && git -C /repo archive HEAD geometrix | tar -x -C /tmp/w/pt && cd /tmp/w/pt && git init -q . && git -c user.email=a -c user.name=a add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True)
        for fn, old, new in s["edits"]:
            p = os.path.join("/tmp/w/pt", fn)
            t = open(p, encoding="latin1", newline="").read()
            nl = "\r\n" if "\r\n" in t else "\n"
            if nl not in old and "\n" in old:
                old = old.replace("\n", nl)
            new = new.replace("\r\n", "\n").replace("\n", nl)
            assert t.count(old) >= 1, (s["id"], fn, "not found")
            n = s.get("nth", 0)
            if t.count(old) > 1:
                assert "nth" in s, (s["id"], "ambiguous", t.count(old))
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", encoding="latin1", newline="").write(t)
        diff = subprocess.check_output(["git", "-C", "/tmp/w/pt", "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        subprocess.check_call("git -C /repo apply --check " + os.path.join(d, "patch.diff"), shell=True)
        print("wrote", s["id"], len(diff))
