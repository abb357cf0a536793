#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the evidence of the last run and design_tail.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
o = [rd("tools/design_head.md").rstrip(), "", "## 2. The properties", ""]
for p in P:
    i = p["id"]
    o.append("### %s – %s\n" % (i, p["title"]))
    if i in na: o.append("Not applicable: %s.\n" % na[i]); continue
    e = json.load(open("%s/evidence/%s.json" % (V, i)))
    c = e["coverage"]
    o.append("*Analysed:* %s" % c.get("explanation", ""))
    o.append("*Rule:* %s." % "; ".join(c["rules"]).rstrip("."))
    o.append("*Beyond the tests:* %s" % p["why_tests_cant"])
    o.append("*Extent (quick):* %d obligations from %d entry points, %d functions of the header and bindings, about %d s on 8 cores.\n" % (c["obligations"], c["entry_points"], c["repository_functions_analysed"], max(1, round(e["wall_s"]))))
t = rd("tools/design_tail.md")
fx = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append("| %s | %s | %s |" % m.groups())
sd = ["| id | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
cat = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    sd.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], cat.get(i, "?")))
rf = rd("tools/design_refactors.md") if os.path.exists(V + "/tools/design_refactors.md") else ""
mu = rd("tools/design_mutants.md") if os.path.exists(V + "/tools/design_mutants.md") else ""
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n" + t.replace("@FIXES@", "\n".join(fx)).replace("@SEEDS@", "\n".join(sd)).replace("@REFACTORS@", rf).replace("@MUTANTS@", mu))
