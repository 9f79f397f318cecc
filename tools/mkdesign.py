#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the properties, the checks' rules, known-findings.txt and the seeded bugs' record."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/DESIGN.in.md").read()
m = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
o = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; src = open(V + "/checks/%s.cpp" % i).read()
    rule = re.search(r'RULE = "(.*?)";', src).group(1); cfg = dict(re.findall(r"//@ (\w+): (.*)", src))
    o.append("### %s %s\n\n%s\n\n*Decided by*: %s. %s\n\n*Sub-checks*: %s. *Cases*: %s quick, %s thorough. *Code*: %s.\n" % (i, p["title"], p["statement"], m[i]["technique"], rule, ", ".join(re.findall(r"^PROP\((\w+)", src, re.M)), cfg["quick"], cfg["thorough"], ", ".join(p["anchors"]["files"])))
fx = [l.strip() for l in open(V + "/known-findings.txt") if l.startswith(("fixed", "open"))]
s = s.replace("@@PROPS@@", "\n".join(o)).replace("@@FIXES@@", "See known-findings.txt; %d repaired (\"fix:\" commits in /repo), %d left open.\n\n" % (sum(l.startswith("fixed") for l in fx), sum(l.startswith("open") for l in fx)) + "\n".join("* " + l for l in fx))
r = []
if os.path.exists(V + "/tools/seeded-results.json"):
    res = json.load(open(V + "/tools/seeded-results.json"))
    r.append("| bug | property | what it breaks | needs | caught by its check |\n|---|---|---|---|---|")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        k = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); r.append("| %s | %s | %s | %s | %s |" % (k, j["property"], j["what_it_breaks"], j["needs"], res.get(k, "not run")))
s = s.replace("@@SEEDED@@", "\n".join(r) or "None yet.")
open(V + "/DESIGN.md", "w").write(s)
