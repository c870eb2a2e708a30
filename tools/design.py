#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design.md.in: @TABLE@ (per-property, counts from evidence/) and @SEEDS@ (seeded/)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
cur = None
for l in open(V + "/tools/design_props.txt"):
    l = l.rstrip("\n")
    if l[:1] == "P" and l[3:4] == " ":
        how[l[:3]] = l[4:]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"] for x in man["not_applicable"]} if man["not_applicable"] else set()
rows = []
for p in props:
    f = V + "/evidence/%s.json" % p["id"]
    n = ""
    if p["id"] in na:
        n = "not applicable"
    elif os.path.exists(f):
        c = json.load(open(f))["coverage"]
        n = "%d obligations" % c["obligations"]
        if c.get("undecided"): n += ", %d undecided" % c["undecided"]
    rows.append("**%s  %s** (%s).  %s\n" % (p["id"], p["title"], n, how.get(p["id"], "TODO")))
seeds = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m.get("caught_by", m["property"])))
t = open(V + "/tools/design.md.in").read()
t = t.replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", "| seed | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
print("TODO:", [p["id"] for p in props if p["id"] not in how])
