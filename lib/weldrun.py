"""Runs the real welder library (harness/weld_driver) over batches of generated files, in parallel, surviving crashes."""
import json, os, random, subprocess, sys, shutil, tempfile, time, hashlib
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gen, oracle, proc

OPTKEYS = ("res", "tol", "rad", "mas", "mm", "g90", "z3d", "trav", "dyn", "xp", "ep", "var", "mgl")
TIMEOUT = 60   # per batch that takes well under a second; a case is retried alone once before it counts as a hang
TMPROOT = os.environ.get("VERIF_TMP") or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)

def scratch(prefix="vf_"):
    return tempfile.mkdtemp(prefix=prefix, dir=TMPROOT)

def run_driver(exe, jobs, d, threads=1, env=None, timeout=TIMEOUT, more=()):
    """jobs: list of dicts with id/src/dst/options.  -> {id: result dict | {'crash': ...}}"""
    res = {}
    todo = list(jobs)
    tries = {}
    rounds = 0
    while todo:
        rounds += 1
        jf = os.path.join(d, "jobs%d.txt" % rounds); rf = os.path.join(d, "res%d.txt" % rounds)
        with open(jf, "w") as f:
            for j in todo:
                f.write("\t".join("%s=%s" % (k, repr(v) if isinstance(v, float) else v) for k, v in j.items()) + "\n")
        open(rf, "w").close()
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000", "UBSAN_OPTIONS": "print_stacktrace=1", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:hard_rss_limit_mb=6000"})
        if env: e.update(env)
        timed = False
        try:
            p = proc.run([exe, jf, rf, str(threads)] + list(more), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, timeout=timeout)
            rc, err = p.returncode, p.stderr.decode("latin-1")[:3000] + p.stderr.decode("latin-1")[3000:][-3000:]
        except subprocess.TimeoutExpired as x:
            timed, rc, err = True, None, "timeout after %ds" % timeout
        begun = None
        for line in open(rf, encoding="latin-1"):
            if line.startswith("BEGIN "): begun = line[6:].strip()
            elif line.startswith("{"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                res[r["id"]] = r
                if begun == r["id"]: begun = None
        left = [j for j in todo if j["id"] not in res]
        if not left:
            if rc: 
                for j in todo: res[j["id"]].setdefault("exit", (rc, err))
            break
        if begun is None and threads == 1 and not timed:
            raise RuntimeError("driver failed (%r) without starting a job: %s" % (rc, err))
        culprit = begun if begun is not None else left[0]["id"]
        tries[culprit] = tries.get(culprit, 0) + 1
        if timed and tries[culprit] < 2:
            # could be a loaded machine: give it one more chance, alone
            todo = [j for j in left if j["id"] == culprit] + [j for j in left if j["id"] != culprit]
            continue
        res[culprit] = {"id": culprit, "crash": ("hang" if timed else "signal/exit %r" % rc), "stderr": err}
        todo = [j for j in left if j["id"] != culprit]
        if timed:
            for j in todo: res[j["id"]] = {"id": j["id"], "skipped": True}
            break
        if rounds > 12:
            for j in todo: res[j["id"]] = {"id": j["id"], "skipped": True}
            break
    return res

class Case:
    """One generated conversion."""
    __slots__ = ("id", "seed", "data", "opts", "tagged", "extra", "start", "home", "gen")

def make_case(seed, idx, profile):
    r = random.Random("%s|%s|%s" % (seed, idx, profile.__name__))
    c = profile(r)
    c.id = "c%d" % idx
    c.seed = (seed, idx, profile.__name__)
    if not hasattr(c, "start") or c.start is None:
        c.start = (r.uniform(-200, 200), r.uniform(-200, 200), r.uniform(0, 50))
    if c.home is None:
        c.home = r.choice([(0.0, 0.0, 0.0), (r.uniform(-50, 300), r.uniform(-50, 300), 0.0)])
    return c

def chunk_worker(args):
    exe, seed, lo, hi, profile, judge, keep, variant_env = args
    d = scratch()
    try:
        cases, jobs = [], []
        for i in range(lo, hi):
            c = make_case(seed, i, profile)
            src = os.path.join(d, c.id + ".gcode"); dst = os.path.join(d, c.id + ".out")
            with open(src, "wb") as f: f.write(c.data)
            j = {"id": c.id, "src": src, "dst": dst}
            j.update({k: c.opts[k] for k in OPTKEYS})
            j.update(c.extra or {})
            cases.append(c); jobs.append(j)
        res = run_driver(exe, jobs, d, env=variant_env)
        agg = {"evaluations": 0, "viol": [], "stat": {}, "samples": [], "keys": set()}
        for c, j in zip(cases, jobs):
            agg["evaluations"] += 1
            r = res[c.id]
            out = b""
            if os.path.exists(j["dst"]):
                with open(j["dst"], "rb") as f: out = f.read()
            judge(c, r, out, agg)
        # keep only a few witnesses per chunk
        seen = {}
        vs = []
        for v in agg["viol"]:
            if seen.get(v["key"], 0) < 2:
                vs.append(v); seen[v["key"]] = seen.get(v["key"], 0) + 1
        agg["nviol"] = len(agg["viol"]); agg["viol"] = vs
        agg["samples"] = agg["samples"][:1]
        return agg
    finally:
        shutil.rmtree(d, ignore_errors=True)

def violation(agg, c, key, msg, extra=None):
    agg["viol"].append({"key": key, "msg": msg, "seed": list(c.seed), "data": c.data.decode("latin-1"), "opts": c.opts, "extra": c.extra, "start": c.start, "home": c.home, "more": extra})

def bump(agg, k, n=1):
    agg["stat"][k] = agg["stat"].get(k, 0) + n

def run_profile(exe, seed, n, profile, judge, chunk=20, workers=None, env=None, cap=60):
    """Runs n cases of a profile; stops early once cap violations were seen."""
    workers = workers or min(8, os.cpu_count() or 8)
    tot = {"evaluations": 0, "viol": [], "stat": {}, "samples": [], "nviol": 0, "keys": set()}
    tasks = [(exe, seed, lo, min(n, lo + chunk), profile, judge, 3, env) for lo in range(0, n, chunk)]
    ex = ProcessPoolExecutor(workers)
    try:
        pend = set(); it = iter(tasks); stop = False
        while True:
            while not stop and len(pend) < workers * 2:
                t = next(it, None)
                if t is None: break
                pend.add(ex.submit(chunk_worker, t))
            if not pend: break
            done, pend = wait(pend, return_when=FIRST_COMPLETED)
            for f in done:
                a = f.result()
                tot["evaluations"] += a["evaluations"]; tot["nviol"] += a["nviol"]
                tot["viol"] += a["viol"]
                if len(tot["samples"]) < 4: tot["samples"] += a["samples"]
                tot["keys"] |= a["keys"]
                for k, v in a["stat"].items():
                    if k.startswith("max_"): tot["stat"][k] = max(tot["stat"].get(k, v), v)
                    else: tot["stat"][k] = tot["stat"].get(k, 0) + v
            if tot["nviol"] >= cap or sum("hang" in v["msg"] or v["key"] == "hang" for v in tot["viol"]) >= 3: stop = True
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
    return tot
