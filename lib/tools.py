"""Running the shipped programs as a user would, in scratch directories."""
import os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import build, gen, proc, weldrun

def sanitize_env(e):
    e.setdefault("ASAN_OPTIONS", "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")
    return e

HANGS = [0]
def run(exe, args, cwd=None, env=None, timeout=120, stdin=None):
    """-> (exit status, output); a program that doesn't end gives status 'hang' (tried twice)"""
    e = sanitize_env(dict(os.environ))
    if env: e.update(env)
    for attempt in (0, 1):
        if HANGS[0] >= 8: return "hang", ""      # it has been shown often enough; the run has to come to its end
        try:
            p = proc.run([exe] + [str(a) for a in args], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=min(timeout, 30) if HANGS[0] >= 3 else timeout)
            return p.returncode, p.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            pass
    HANGS[0] += 1
    return "hang", ""

def pmap(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))

def shim(name="fault"):
    """compile harness/<name>.c as a preloadable library"""
    out = os.path.join(build.ROOT, name + ".so")
    os.makedirs(build.ROOT, exist_ok=True)
    src = os.path.join(build.VERIF, "harness", name + ".c")
    tmp = out + ".%d" % os.getpid()
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", src, "-ldl", "-o", tmp], check=True)
    os.replace(tmp, out)
    return out

def read(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError:
        return None

def put(p, data):
    with open(p, "wb") as f: f.write(data)

def weld_args(o):
    """command line options of a configuration"""
    a = []
    D = gen.DEFAULT_OPTS
    val = {"res": "-r", "tol": "-t", "rad": "-m", "mas": "-a", "mm": "-s", "xp": "-x", "ep": "-e", "var": "-v", "mgl": "-c"}
    flag = {"g90": "-g", "z3d": "-z", "trav": "-y", "dyn": "-d"}
    for k, v in o.items():
        if k in val: a.append("%s=%s" % (val[k], repr(v) if isinstance(v, float) else v))
        elif k in flag and v: a.append(flag[k])
    return a
