#!/usr/bin/env python3
"""bugs.py [--checks own|all|C01,C02] [--notest] [ids...]: for each planted bug: apply to a scratch copy of /repo, build, stable tests, demo, checks.
Prints a table and stores it in work/matrix.json.  Development tool; no check uses it, and /repo itself is never touched."""
import json, os, subprocess, sys, time
args = sys.argv[1:]
which, notest = "own", False
while args and args[0].startswith("--"):
    if args[0] == "--checks": which = args[1]; args = args[2:]
    elif args[0] == "--notest": notest = True; args = args[1:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("WR", "/tmp/wr")
ids = args or sorted(os.listdir(V + "/seeded"))
man = json.load(open(V + "/MANIFEST.json"))
allp = [c["property"] for c in man["checks"]]
mf = os.environ.get("MATRIX", V + "/work/matrix.json")
os.makedirs(os.path.dirname(mf), exist_ok=True)
try: M = json.load(open(mf))
except Exception: M = {}
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.isdir(W):
    sh("git clone -q /repo %s" % W)
sh("cd %s && git checkout -q -- . && git pull -q" % W)
T = W + "-test"
os.makedirs(T, exist_ok=True)
for n in ("build.sh", "test.sh"):
    s = open("/opt/vp/" + n).read().replace("/repo", W).replace("/opt/vp/harness", T + "/harness").replace("/opt/vp/results.py", "/opt/vp/results.py")
    open(T + "/" + n, "w").write(s)
sh("rm -rf %s/harness; cp -r /opt/vp/harness %s/harness; sed -i 's#/repo#%s#g' %s/harness/CMakeLists.txt" % (T, T, W, T))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r = sh("bash %s/build.sh" % T)
assert r.returncode == 0, r.stdout[-500:]
clean = {}
for i in ids:
    r = sh("cd %s && bash %s/seeded/%s/demo.sh" % (W, V, i), timeout=300); clean[i] = r.returncode
    if r.returncode: print(i, "DEMO FAILS ON CLEAN TREE", r.stdout.decode("latin-1")[-300:])
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rec = {"property": meta["property"], "demo_clean": clean[i]}
    a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (W, V, i))
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout.decode()[-300:]); continue
    try:
        b = sh("bash %s/build.sh" % T); rec["build"] = b.returncode
        if b.returncode: print(b.stdout.decode()[-800:])
        if not notest:
            sh("bash %s/test.sh %s/o.json" % (T, T))
            rec["tests"] = sorted(stable - set(json.load(open(T + "/o.json"))["passed"]))
        try: r = sh("cd %s && bash %s/seeded/%s/demo.sh" % (W, V, i), timeout=300); rec["demo"] = r.returncode; rec["demo_out"] = r.stdout.decode("latin-1")[-200:]
        except subprocess.TimeoutExpired: rec["demo"] = "timeout"
        rec["checks"] = {}
        for p in ([meta["property"]] if which == "own" else allp if which == "all" else which.split(",")):
            e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VERIF_REPO=W)
            t = time.time()
            r = subprocess.run([sys.executable, "check.py", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            o = r.stdout.decode("latin-1")
            rec["checks"][p] = r.returncode if r.returncode != 1 or ("VIOLATION property=" + p) in o else "1 without line"
            if r.returncode not in (0, 1): print(o[-600:])
            if p == meta["property"]: rec["first"] = next((l for l in o.split("\n") if l.startswith("  [")), "")[:200]; rec["secs"] = round(time.time() - t)
    finally:
        sh("git -C %s checkout -q -- ." % W)
    ok = rec["demo_clean"] == 0 and rec.get("build") == 0 and not rec.get("tests") and rec.get("demo")
    own = rec["checks"].get(meta["property"])
    print("%-34s %s %s own=%s %s %s" % (i, "valid" if ok else "INVALID", meta["property"], "CAUGHT" if own == 1 else "missed(%s)" % own, " ".join(p for p, c in rec["checks"].items() if c == 1 and p != meta["property"]), "" if ok else json.dumps({k: rec.get(k) for k in ("demo_clean", "build", "tests", "demo", "demo_out")})), flush=True)
    if own == 1: print("      ", rec["first"])
    old = M.get(i, {}).get("checks", {})
    old.update(rec["checks"]); rec["checks"] = old
    M[i] = rec
    json.dump(M, open(mf, "w"), indent=1)
