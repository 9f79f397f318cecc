#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, st, over, q, why, files, mech, obs, tech, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs, tech=tech, note=note))
T = "The two existing tests only run the EM program once on one fixed sample set and look at its exit; "
C = "The unit tests of this part need Rock libraries and do not build here; upstream they sample "
exec(open(os.path.join(V, "tools", "props.py")).read())
fixes = os.popen("git -C /repo log --format=%H").read()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"] if "st" in p else p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "python3 run.py SETUP", "hooks": {"guard": "ENVIRE_VERIF", "enable": "-DENVIRE_VERIF (defined by run.py; no hook in /repo needs it)", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py CHECK %s quick" % p["id"], "thorough_cmd": "python3 run.py CHECK %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": "exploration",
                 "level_note": ("Generated cases against an explicit oracle, under ASan and UBSan: held on every case tried, no proof beyond them. Trusts the oracle in checks/%s.cpp and the stand-ins for Rock headers in shim/. " % p["id"]) + p["note"]} for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
     "not_applicable": NA, "notes": "One binary per property, built from /repo's working tree on every run. Known findings and repaired defects: known-findings.txt. Design and bug-detection record: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
