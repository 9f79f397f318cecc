#!/usr/bin/env python3
"""seed.py ID...|all [nocheck]: makes seeded/<ID> from tools/bugs/<ID>.py, confirms it in /repo (builds, tests pass, demo 0 -> nonzero) and runs its property's
check against it. The tree is restored afterwards. Results go to tools/seeded-results.json."""
import sys, os, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = r'''#!/bin/bash
# Compiles demo.cpp against the sources of the current directory (the repository) and runs it: 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir $T/inc $T/o $T/scratch; ln -s "$R/src" $T/inc/envire
F="-std=c++14 -w -O0 -DBOOST_BIND_GLOBAL_PLACEHOLDERS -I$D/shim -I$D -I$T/inc -I$R/src -I$R -I/usr/include/eigen3"
ls @SRC@ $D/demo.cpp | xargs -P 8 -I@ sh -c 'g++ '"$F"' -c @ -o '"$T/o/"'$(basename @ .cpp).o' || exit 3
g++ -o $T/demo $T/o/*.o @LIBS@ || exit 3
cd $T/scratch && timeout 120 $T/demo
'''
def run(i, check=True):
    ns = {}; exec(open(V + "/tools/bugs/%s.py" % i).read(), ns)
    d = V + "/seeded/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout, "repo not clean"
    try:
        for f, a, b in ns["edits"]:
            p = "/repo/" + f; s = open(p).read(); assert s.count(a) == 1, (i, f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        src = ns.get("src", "")
        open(d + "/demo.cpp", "w").write(ns["demo"])
        libs = "-lyaml -lboost_thread -lboost_system -lboost_serialization -lboost_filesystem -lpthread" if src else ""
        open(d + "/demo.sh", "w").write(DEMO.replace("@SRC@", " ".join("$R/" + s for s in src.split())).replace("@LIBS@", libs)); os.chmod(d + "/demo.sh", 0o755)
        if ns.get("shim", bool(src)): shutil.copytree(V + "/shim", d + "/shim")
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json"); ok = b.returncode == 0 and not json.load(open("/tmp/o.json"))["failed"]
        dm = sh("bash %s/demo.sh" % d, cwd="/repo"); r = "not run"
        if check:
            c = sh("python3 run.py CHECK %s quick" % ns["prop"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            r = "yes" if c.returncode == 1 and "VIOLATION property=%s " % ns["prop"] in c.stdout else "no (rc %d)" % c.returncode
            why = "\n".join(c.stdout.splitlines()[:4])[:400]
    finally:
        sh("git -C /repo checkout -- .")
    cl = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(i, ns["prop"], "build+tests", ok, "demo clean", cl.returncode, "demo patched", dm.returncode, (dm.stdout.strip().splitlines() or [""])[-1][:150], "| CAUGHT", r); 
    if cl.returncode: print(cl.stdout[-1500:])
    if check: print("   ", why.replace("\n", "\n    "))
    if check:
        f = V + "/tools/seeded-results.json"; j = json.load(open(f)) if os.path.exists(f) else {}; j[i] = r; json.dump(j, open(f, "w"), indent=1, sort_keys=True)
    sys.stdout.flush()
ids = [a for a in sys.argv[1:] if a != "nocheck"]
if ids == ["all"]: ids = sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/tools/bugs/*.py"))
for i in ids: run(i, "nocheck" not in sys.argv)
sh("bash /opt/vp/build.sh")
