#!/usr/bin/env python3
"""Driver of the property checks.

  run.py CHECK ID        build the check from /repo's working tree, run it at VERIF_TIER (quick|thorough) with VERIF_SEED
  run.py REPLAY ID FILE  rebuild and re-run one replay file
  run.py BUILD ID        build only

A check is /verif/checks/<ID>.cpp; lines '//@ key: value' at its head configure it:
  sources: files of /repo it links (globs relative to /repo; none for header-only code)
  quick / thorough: number of generated cases;   cflags: extra flags
Exit 0: held on everything explored; 1 (and a VIOLATION line): a confirmed, shrunk, replayable failure;
2: no answer (the tree does not compile against the check).
"""
import sys, os, re, json, glob, hashlib, subprocess, time, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++"
# not buildable offline: Box2D, CGAL (see DESIGN.md)
EXCLUDE = {"src/maps/PolygonMap.cpp", "src/operators/Projection.cpp", "src/operators/SimplifyPointcloud.cpp", "src/operators/SurfaceReconstruction.cpp"}
JOBS = os.cpu_count() or 4
BASE = ["-std=c++14", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DENVIRE_VERIF"]

def inc():
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    l = os.path.join(d, "envire")
    tgt = os.path.join(REPO, "src")
    if not (os.path.islink(l) and os.readlink(l) == tgt):
        if os.path.lexists(l): os.unlink(l)
        os.symlink(tgt, l)
    li = os.path.join(d, "envire_icp")
    ti = os.path.join(REPO, "icp")
    if not (os.path.islink(li) and os.readlink(li) == ti):
        if os.path.lexists(li): os.unlink(li)
        os.symlink(ti, li)
    return ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "checks"), "-I" + d,
            "-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I/usr/include/eigen3"]

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "icp"), os.path.join(REPO, "tools"), os.path.join(VERIF, "shim"), os.path.join(VERIF, "engine")):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith((".h", ".hpp", ".cpp", ".cc", ".hh", ".ipp", ".inl", ".c", ".cxx", ".hxx", ".txx", ".tcc", ".in")):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "checks", "*.hpp"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()

def head(check):
    cfg = {}
    for l in open(check):
        m = re.match(r"//@\s*(\w+):\s*(.*)", l)
        if m: cfg.setdefault(m.group(1), []).append(m.group(2).strip())
    return {k: " ".join(v) for k, v in cfg.items()}

def compile_one(src, flags, th):
    key = hashlib.sha256((th + src + " ".join(flags)).encode() + open(src, "rb").read()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX] + flags + inc() + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, "%s:\n%s" % (src, p.stdout[-3000:])
    os.rename(tmp, obj)
    return obj, None

def as_function(obj, tool):
    """makes the program of an object a function main_<name>, and everything else strong in it local"""
    if not tool: return obj
    out = obj[:-2] + ".fn.o"
    if os.path.exists(out): return out
    loc = []
    for l in subprocess.run(["nm", "--defined-only", "-g", obj], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and f[1] in "TDBRS" and f[2] != "main": loc.append("--localize-symbol=" + f[2])
    subprocess.run(["objcopy", "--redefine-sym", "main=main_" + os.path.basename(tool[0])[:-4]] + loc + [obj, out + ".tmp"], check=True)
    os.rename(out + ".tmp", out)
    return out

SLOW = ["Grids.cpp", "Transform.cpp", "PlyFile.cpp", "Environment.cpp"]
def compile_all(srcs, flags, th, must=True):
    srcs = sorted(srcs, key=lambda s: (SLOW.index(os.path.basename(s)) if os.path.basename(s) in SLOW else 9 if "/checks/" not in s else -1))
    with ThreadPoolExecutor(JOBS) as ex:
        r = list(ex.map(lambda s: compile_one(s, flags, th), srcs))
    errs = [e for o, e in r if e]
    return [o for o, e in r if o], errs

def build(pid):
    check = os.path.join(VERIF, "checks", pid + ".cpp")
    cfg = head(check)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc()
    prune()
    flags = BASE + cfg.get("cflags", "").split()
    th = tree_hash()
    srcs = [check, os.path.join(VERIF, "engine", "pbt.cpp")]
    repo = []
    for g in cfg.get("sources", "").split():
        m = sorted(glob.glob(os.path.join(REPO, g)))
        repo += [s for s in m if os.path.relpath(s, REPO) not in EXCLUDE]
    repo = list(dict.fromkeys(repo))
    tools = [os.path.join(REPO, "tools", t + ".cpp") for t in cfg.get("tools", "").split()]
    objs, errs = compile_all(srcs + repo + tools, flags, th)
    if errs: return None, cfg, "\n".join(errs)
    objs = [as_function(o, [t for t in tools if os.path.basename(o).startswith(os.path.basename(t) + ".")]) for o in objs]
    libs = ["-lyaml-cpp", "-lboost_system", "-lboost_filesystem", "-lboost_serialization", "-lboost_thread", "-lpthread"]
    libs = cfg.get("libs", "").split() + (["-lboost_system", "-lboost_serialization", "-lboost_filesystem"] if repo else [])
    key = hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, pid + "." + key)
    if os.path.exists(exe): return exe, cfg, None
    def link(o, extra=[]):
        p = subprocess.run([CXX, "-fsanitize=address,undefined", "-o", exe + ".tmp"] + o + extra + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    rc, out = link(objs)
    if rc:
        # the code may have moved between files: link with everything else that compiles
        allsrc = [s for d in ("src/core", "src/tools", "src/maps", "src/operators", "src") for s in glob.glob(os.path.join(REPO, d, "*.cpp"))]
        allsrc = [s for s in allsrc if s not in repo and os.path.relpath(s, REPO) not in EXCLUDE]
        more, _ = compile_all(allsrc, flags, th)
        ar = exe + ".a"
        if os.path.exists(ar): os.unlink(ar)
        subprocess.run(["ar", "rcs", ar] + more, check=True)
        libs = list(dict.fromkeys(libs + ["-lboost_system", "-lboost_serialization", "-lboost_filesystem", "-lboost_thread", "-lpthread"]))
        rc, out2 = link(objs, [ar])
        os.unlink(ar)
        if rc: return None, cfg, out[-1500:] + out2[-3000:]
    os.rename(exe + ".tmp", exe)
    return exe, cfg, None

def prune():
    # keep the cache small: drop what has not been used for a while
    lim = 3 << 30
    fs = [os.path.join(dp, f) for dp, _, fn in os.walk(BUILD) for f in fn]
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs if os.path.isfile(f) and not os.path.islink(f)]
    tot = sum(s for _, s, _ in fs)
    for t, s, f in sorted(fs):
        if tot < lim: break
        if time.time() - t > 600:
            os.unlink(f); tot -= s

def findings(pid):
    r = []
    for l in open(os.path.join(VERIF, "known-findings.txt")) if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []:
        m = re.match(r"open: property=(\S+)\s+(.*)", l)
        if m and m.group(1) == pid: r.append(m.group(2).strip())
    return r

def main():
    cmd = sys.argv[1]
    if cmd == "SETUP":
        # nothing to keep between runs: each check builds from /repo; make sure the tools are there
        for t in (CXX, "ar"):
            if not shutil.which(t): print("missing", t); return 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return 0
    pid = sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3 and sys.argv[3] in ("quick", "thorough"): tier = sys.argv[3]
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed = str(int(seed))
    except ValueError: seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16))
    t0 = time.time()
    exe, cfg, err = build(pid)
    tb = time.time() - t0
    if err:
        print("BUILD-FAILED: the check %s cannot be built against this tree, no answer\n%s" % (pid, err))
        return 2
    if cmd == "BUILD": print(exe, "%.1fs" % tb); return 0
    scratch = tempfile.mkdtemp(prefix="vp_" + pid + "_")
    env = dict(os.environ, VP_SCRATCH=scratch)
    try:
        if cmd == "REPLAY":
            return subprocess.run([exe, "--replay", os.path.abspath(sys.argv[3])], env=dict(env, ASAN_OPTIONS="symbolize=1", UBSAN_OPTIONS="print_stacktrace=1"), cwd=scratch).returncode
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s.txt" % (pid, tier, seed))
        if os.path.exists(replay): os.unlink(replay)
        out = os.path.join(scratch, "out.json")
        cases = int(cfg.get(tier, "1000"))
        budget = {"quick": "240", "thorough": "3600"}[tier]
        p = subprocess.run([exe, "--seed", seed, "--cases", os.environ.get("VP_CASES", str(cases)), "--workers", str(max(2, min(8, JOBS))), "--budget", budget, "--out", out, "--replay-out", replay],
                           env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(p.stdout[-6000:])
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("ENGINE-FAILED rc=%d, no answer\n%s" % (p.returncode, p.stderr[-2000:]))
            return 2
        r = json.load(open(out))
        kf = findings(pid)
        ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
              "coverage": {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"], "samples": r["samples"],
                           "nontrivial": r["nontrivial"], "discarded": r["discarded"], "labels": r["labels"], "per_subcheck": r["per_subcheck"],
                           "stopped_by_budget": r["stopped_by_budget"], "unreproduced": r["unreproduced"], "known_findings": kf},
              "wall_s": round(time.time() - t0, 2),
              "assumptions": ["Sources of the current tree of /repo, compiled by g++ -O1 with ASan and UBSan; the Rock, GDAL and ply libraries the code includes are replaced by the stand-ins in /verif/shim (see DESIGN.md).",
                              "Held means: held on the generated cases; %d cases at tier %s, seed %s." % (r["evaluations"], tier, seed)] + ([cfg["assume"]] if "assume" in cfg else []),
              "violations": 1 if r["failed"] else 0}
        if r["failed"]: ev["coverage"]["violation"] = {"replay": replay, "message": r["failure"][:1500]}
        ef = os.path.join(VERIF, "evidence", pid + ".json")
        json.dump(ev, open(ef + ".tmp", "w"), indent=1); os.rename(ef + ".tmp", ef)
        for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s %s seed=%s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (pid, tier, seed, r["evaluations"], r["distinct_nontrivial"], tb, time.time() - t0))
        if r["failed"]:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
