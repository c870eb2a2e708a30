"""cover.py: which library functions are instantiated by the witness units, and which are not (a to-do list, not a check)"""
import glob, json, os, re, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
FL = ["-std=c++14", "-w", "-DNDEBUG", "-I/repo", "-I" + V + "/witness", "-ftemplate-depth=1024", "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_PARAMETER_MAX_ARITY=20", "-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK"]
def unit(u):
    r = subprocess.run(["clang++"] + FL + ["-x", "c++", "-S", "-emit-llvm", "-g", "-O0", "-o", "-", u], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, errors="replace")
    t = r.stdout
    if not t:
        print("FAILED", u, r.stderr[:200])
    files = {m.group(1): m.group(2) for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', t, re.M)}
    out = set()
    for m in re.finditer(r'^!\d+ = distinct !DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', t, re.M):
        f = files.get(m.group(2), "")
        if "/repo/geometrix/" in f:
            out.add((f.split("/repo/")[1], int(m.group(3)), m.group(1).split("<")[0]))
    return u, out
if __name__ == "__main__":
    units = [u for u in sorted(glob.glob(V + "/witness/*/*.cpp"))]
    cov = {}
    with cf.ProcessPoolExecutor(8) as ex:
        for u, o in ex.map(unit, units):
            for k in o:
                cov.setdefault("%s:%d" % k[:2], set()).add(os.path.relpath(u, V + "/witness"))
    json.dump({k: sorted(v) for k, v in cov.items()}, open("/tmp/w/cover.json", "w"))
    print(len(cov))
