"""Drives the real PyArcWelder module.  py_driver.py <directory of the .so> <jobs> <results>; one job per line, as a Python dict:
id, args (the dictionary for ConvertFile, or anything else), cb (what the callback does), keep (identity checks off)."""
import ctypes, gc, json, os, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [sys.argv[1], os.path.join(HERE, "py")]
sys.dont_write_bytecode = True
import PyArcWelder
from octoprint_arc_welder import log as stub

unraisable = []
sys.unraisablehook = lambda u: unraisable.append("%s: %s" % (type(u.exc_value).__name__, u.exc_value))
class Odd:
    """an object of a type nobody expects"""
    def __bool__(self): raise RuntimeError("no truth")
class Index:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
class Text(str): pass
class Map(dict): pass
nan, inf = float("nan"), float("inf")

def plain(v):
    if isinstance(v, dict): return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, float) and (v != v or v in (inf, -inf)): return repr(v)
    if isinstance(v, (int, float, str)) or v is None: return v
    return repr(type(v))

def burn(s):
    t = time.process_time()
    while time.process_time() - t < s: pass

def callback(spec, events, args, job):
    """answers: a list, one per report (the last is repeated); an answer is a value, or ("raise", name), ("burn", seconds, answer), ("nested", job), ("gc",), ("clear",), ("sleep", s), ("mutate",)"""
    def act(a, p):
        if isinstance(a, tuple):
            if a[0] == "raise": raise {"V": ValueError, "K": KeyboardInterrupt, "S": SystemExit, "M": MemoryError, "I": StopIteration}[a[1]]("from the callback")
            if a[0] == "burn": burn(a[1]); return act(a[2], p)
            if a[0] == "sleep": time.sleep(a[1]); return True
            if a[0] == "nested": job["nested"].append(run(dict(a[1]))); return True
            if a[0] == "gc": gc.collect(); return True
            if a[0] == "clear": args.clear(); gc.collect(); return True
            if a[0] == "mutate": p.clear(); p["x"] = p; return True
            if a[0] == "del": args.pop("on_progress_received", None); gc.collect(); return True
        return a
    def cb(p):
        k = len(events)
        events.append(plain(p))
        return act(spec[min(k, len(spec) - 1)], p)
    return cb

def refs(args):
    return {k: sys.getrefcount(v) for k, v in args.items() if not isinstance(v, (int, float, bool, type(None)))} if isinstance(args, dict) else {}

def run(job):
    events = []
    r = {"id": job["id"], "events": events}
    job["nested"] = r["nested"] = []
    a = job["args"]
    if isinstance(a, dict) and job.get("cb") is not None: a["on_progress_received"] = callback(job["cb"], events, a, job)
    del unraisable[:]
    before = refs(a); d0 = sys.getrefcount(a)
    t = time.time()
    if job.get("log"):
        # what the conversion logs, and what it writes to standard output instead
        stub.LOG.limit = 10 ** 7; del stub.LOG.rows[:]
        said = tempfile.TemporaryFile(); keep = os.dup(1); os.dup2(said.fileno(), 1)
    try:
        q = PyArcWelder.ConvertFile(a) if not job.get("call") else PyArcWelder.ConvertFile(*job["call"])
        p = q.get("progress")
        r["refs_result"] = [sys.getrefcount(q), sys.getrefcount(p)]
        r["result"] = plain(q)
    except BaseException as e:
        r["exc"] = [type(e).__name__, str(e)[:300]]
        e = None
    q = p = None
    if job.get("log"):
        ctypes.CDLL(None).fflush(None); os.dup2(keep, 1); os.close(keep)
        said.seek(0); r["printed"] = said.read().decode("latin-1"); said.close()
        r["rows"] = list(stub.LOG.rows); stub.LOG.limit = 2000; del stub.LOG.rows[:]
    r["secs"] = time.time() - t
    r["unraisable"] = list(unraisable)
    after = refs(a)
    if after and not job["nested"] and not job.get("threaded"):
        r["refs"] = {k: [before[k], after[k]] for k in after if k in before and after[k] != before[k]}
        if sys.getrefcount(a) != d0: r["refs"]["args"] = [d0, sys.getrefcount(a)]
    if isinstance(a, dict): a.pop("on_progress_received", None)
    r["logbad"] = stub.LOG.bad
    return r

def main():
    jobs = [eval(l) for l in open(sys.argv[2], encoding="utf-8", errors="surrogateescape") if l.strip()]
    out = open(sys.argv[3], "a", encoding="utf-8", errors="backslashreplace")
    mu = threading.Lock()
    def emit(r):
        with mu: out.write(json.dumps(r) + "\n"); out.flush()
    for j in jobs:
        out.write("BEGIN %s\n" % j["id"]); out.flush()
        if "threads" in j:
            sys.setswitchinterval(1e-5)
            todo = list(j["threads"]); res = []; live = [0, 0, 0]
            def work():
                while True:
                    with mu:
                        if not todo: return
                        k = todo.pop(); live[0] += 1; live[1] = max(live[:2])
                    k["threaded"] = 1
                    x = run(k)
                    with mu: res.append(x); live[0] -= 1
            T = [threading.Thread(target=work) for _ in range(j["n"])]
            for t in T: t.start()
            for t in T: t.join()
            emit({"id": j["id"], "results": res, "overlap": live[1]})
        elif "repeat" in j:
            def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4
            def fresh(): return dict(j, args=dict(j["args"]))
            pts = []
            for part in range(3):
                for _ in range(j["repeat"] // 3): x = run(fresh())
                del stub.LOG.rows[:]; gc.collect()
                pts.append((sys.getallocatedblocks(), rss()))
            # the smaller growth: caches fill up once
            d = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(pts, pts[1:])]
            emit({"id": j["id"], "blocks": min(q[0] for q in d), "rss": min(q[1] for q in d), "n": j["repeat"] // 3, "last": x})
        else:
            emit(run(j))
    out.write("END\n"); out.flush()
main()
