#!/usr/bin/env python3
"""Mutation sweep: which single-token changes of the anchored headers does a property's check notice?

usage: tools/mutate.py <property> <n per file> [file ...]     (scratch overlay in /tmp/w/mut; log in /tmp/w/mutlog/<property>.txt)
A survivor is either an equivalent change, a change outside the property, or a gap - to be read by a person.
"""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUB = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<=>!-])<(?![<=>])(?= )', '<='), (r'(?<= )>(?![>=])(?= )', '>='), (r' \+ ', ' - '), (r' - ', ' + '), (r'(?<=[\w)]) \* ', ' + '), (r'\+=', '-='), (r'-=', '+='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'==', '!='), (r'!=', '=='), (r'get<0>', 'get<1>'), (r'get<1>', 'get<0>'), (r'get<2>', 'get<1>'), (r'get_start', 'get_end'), (r'get_end', 'get_start'),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'less_than\(', 'greater_than('), (r'greater_than\(', 'less_than('), (r'less_than\(', 'less_than_or_equal('), (r'greater_than\(', 'greater_than_or_equal('),
       (r'less_than_or_equal\(', 'less_than('), (r'greater_than_or_equal\(', 'greater_than('), (r'equals\(', 'less_than('), (r'!(?=[a-z(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'zero<', 'one<'), (r'one<', 'zero<'), (r'two<', 'one<'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'e_left_turn', 'e_right_turn'), (r'get_lower_bound', 'get_upper_bound'), (r'get_upper_bound', 'get_lower_bound'), (r'\+\+', '--'), (r'\bbreak;', ''), (r'\bs\b(?= [*<>])', 't'), (r'\ba\b(?= [*])', 'b'), (r'return -', 'return '), (r'\(-', '(')]
BAD = re.compile(r'^\s*(//|#|\*|template|typedef|using|namespace|BOOST_|GEOMETRIX_STATIC|static_assert|struct|class|enum|public:|private:|\}|/\*)|assert|operator *<<|std::is_same|std::enable_if|boost::mpl|::type\b.*;\s*$')


def mutants(path):
    t = open(path, encoding="latin1", newline="").read()
    out = []
    pos = 0
    incom = False
    for l in t.splitlines(True):
        s = l.split("//")[0]
        if "/*" in s:
            incom = True
        if not incom and not BAD.search(s):
            for a, b in SUB:
                for m in re.finditer(a, s):
                    pre = s[:m.start()]
                    if a in (r'\b0\b', r'\b1\b', r'\b2\b') and re.search(r'(dimension|<|vector<.*|, )$', pre) and "[" not in pre[-2:]:
                        continue
                    out.append((pos + m.start(), pos + m.end(), b, l))
        if "*/" in s:
            incom = False
        pos += len(l)
    return t, out


def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
    files = sys.argv[3:] or props[pid]["anchors"]["files"]
    rnd = random.Random(int(os.environ.get("MSEED", "7")))
    ov = "/tmp/w/mut." + pid
    shutil.rmtree(ov, ignore_errors=True)
    shutil.copytree("/repo/geometrix", ov + "/geometrix")
    os.makedirs("/tmp/w/mutlog", exist_ok=True)
    log = open("/tmp/w/mutlog/%s.txt" % pid, "a")
    env = dict(os.environ, VERIF_REPO=ov)
    tot = {"caught": 0, "survived": 0, "nocompile": 0}
    for f in files:
        p = os.path.join(ov, f)
        t, ms = mutants(p)
        rnd.shuffle(ms)
        done = 0
        seen = set()
        for a, b, new, line in ms:
            if done >= n:
                break
            key = (line, new)
            if key in seen:
                continue
            seen.add(key)
            m = t[:a] + new + t[b:]
            open(p, "w", encoding="latin1", newline="").write(m)
            ln = t[:a].count("\n") + 1
            try:
                r = subprocess.run(["python3", "check.py", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=600)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = -1, ""
            if rc == 2:
                tot["nocompile"] += 1
                continue
            done += 1
            nl = m[:a].rsplit("\n", 1)[-1] + "<<" + t[a:b] + "=>" + new + ">>" + t[b:].split("\n")[0].rstrip()
            if rc == 1:
                tot["caught"] += 1
                k = "C"
            else:
                tot["survived"] += 1
                k = "SURVIVED"
            und = o.count("UNDECIDED")
            log.write("%s %s:%d %s%s\n" % (k, f, ln, nl.strip()[:200], "  [und %d]" % und if und else ""))
            log.flush()
        open(p, "w", encoding="latin1", newline="").write(t)
    log.write("TOTAL %s %s\n" % (pid, tot))
    log.flush()
    shutil.rmtree(ov, ignore_errors=True)


main()
