#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, bounds from checks.py, findings from known_findings.txt, catches from seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
P = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
D = {}  # id -> (specified / oracle, why tests cannot)
def d(i, what, why): D[i] = (what, why)
exec(open(V + "/tools/design_parts.py").read())
out = [HEAD]
out.append("## Properties\n")
for i in sorted(P):
    c = CHECKS[i]; w, y = D[i]
    out.append("### %s %s\n" % (i, P[i]["title"]))
    out.append("*Level*: %s. *Deciding step*: %s.\n" % (c["level"], c["technique"]))
    out.append("*Specified and compared with*: %s\n" % w)
    out.append("*Bounds*: quick: %s. Thorough: %s. %s\n" % (c["bound"]["quick"], c["bound"]["thorough"], "" if i not in COST else "*Cost* (8 cores): " + COST[i] + "."))
    out.append("*Not decided*: %s\n" % c["note"])
    out.append("*Beyond the tests*: %s\n" % y)
out.append(TAIL)
out.append("## Findings in the repository\n")
for l in open(V + "/known_findings.txt"):
    l = l.strip()
    if l and not l.startswith("#"): out.append("- " + l)
out.append("")
out.append("## Planted bugs and what catches them\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
catch = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), catch.get(s, "not run")))
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))
