"""Builds /repo's current tree (variants) and the drivers in /verif/harness.  Nothing is written inside /repo."""
import os, subprocess, sys, hashlib, fcntl, shutil, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
if REPO != "/repo":
    ROOT = os.path.join(ROOT, hashlib.md5(REPO.encode()).hexdigest()[:8])

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # same flags as the shipped build
    "rel": dict(cc="gcc", cxx="g++", flags="-include cstdint -w"),
    # shipped optimisation level, debug info for valgrind
    "dbg": dict(cc="gcc", cxx="g++", flags="-include cstdint -w -g"),
    "asan": dict(cc="clang", cxx="clang++", flags="-include cstdint -w -g -O1 " + SAN),
    "fuzz": dict(cc="clang", cxx="clang++", flags="-include cstdint -w -g -O1 -fsanitize=fuzzer-no-link " + SAN),
    # the Python module, to be loaded into the installed Python with the runtime preloaded
    "pyasan": dict(cc="gcc", cxx="g++", flags="-include cstdint -w -g -O1 -fsanitize=address,undefined -fno-omit-frame-pointer"),
    "tsan": dict(cc="clang", cxx="clang++", flags="-include cstdint -w -g -O1 -fsanitize=thread"),
}

class BuildError(Exception):
    pass

def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))

def env():
    e = dict(os.environ)
    e["GIT_CEILING_DIRECTORIES"] = ""
    return e

def tree():
    """content hash of every file of the tree that can influence a build"""
    h = {}
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith((".git", "_build", "build")) and x != "deploy"]   # written by the configuration step
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".cpp", ".h", ".c", ".hpp", ".txt", ".cmake", ".in", ".inc")) and os.path.isfile(p):
                with open(p, "rb") as fh: h[os.path.relpath(p, REPO)] = hashlib.sha1(fh.read()).hexdigest()
    return h

def sync(d):
    """Make the incremental build depend on file contents, not on time stamps (a changed file may be older than our objects)."""
    mf = os.path.join(d, "tree.json")
    now = tree()
    try: old = json.load(open(mf))
    except (OSError, ValueError): old = None
    if old == now: return
    changed = [k for k in set(now) | set(old or {}) if (old or {}).get(k) != now.get(k)]
    if old is None or any(not c.endswith((".cpp", ".c")) or c not in now or c not in old for c in changed):
        for e in os.listdir(d):
            p = os.path.join(d, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    else:
        names = set(os.path.basename(c) + ".o" for c in changed)
        for root, dirs, files in os.walk(d):
            for f in files:
                if f in names: os.unlink(os.path.join(root, f))
    with open(mf, "w") as f: json.dump(now, f)

def build(variant, targets=("ArcWelder", "GcodeProcessorLib")):
    """Configure and build repo targets for a variant.  Returns the build directory."""
    v = VARIANTS[variant]
    d = os.path.join(ROOT, variant)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(ROOT, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        log = os.path.join(d, "build.log")
        sync(d)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            _run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-Wno-dev",
                  "-DCMAKE_C_COMPILER=" + v["cc"], "-DCMAKE_CXX_COMPILER=" + v["cxx"], "-DCMAKE_CXX_FLAGS=" + v["flags"]], log)
        _run(["ninja", "-C", d] + list(targets), log)
    finally:
        lock.close()
    return d

def exe(variant, name):
    d = os.path.join(ROOT, variant)
    return {"weld": os.path.join(d, "ArcWelderConsole", "ArcWelder"),
            "straight": os.path.join(d, "ArcWelderInverseProcessor", "ArcStraightener"),
            "py": os.path.join(d, "PyArcWelder", "PyArcWelder.so")}[name]

def driver(variant, name, extra_src=(), libs=("ArcWelder", "GcodeProcessorLib"), extra_inc=(), extra_flags=()):
    """Compile /verif/harness/<name>.cpp against the variant's libraries."""
    d = build(variant, ["ArcWelder", "GcodeProcessorLib"])
    v = VARIANTS[variant]
    out = os.path.join(d, name)
    lock = open(os.path.join(ROOT, variant + "." + name + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = ["-I" + os.path.join(REPO, x) for x in ("ArcWelder", "GcodeProcessorLib") + tuple(extra_inc)]
        inc.append("-I" + os.path.join(d, "GcodeProcessorLib", "generated"))
        la = [os.path.join(d, l, "lib" + l + ".a") for l in libs]
        opt = [] if "-O1" in v["flags"] else ["-O2"]
        _run([v["cxx"], "-std=c++11"] + opt + v["flags"].split() + list(extra_flags) + ["-DHAS_GENERATED_VERSION"] + inc +
             [os.path.join(VERIF, "harness", name + ".cpp")] + list(extra_src) + la + ["-lpthread", "-o", out + ".tmp"],
             os.path.join(d, "build.log"))
        os.replace(out + ".tmp", out)
    finally:
        lock.close()
    return out

def straight_driver(variant, name, extra_flags=()):
    """a harness compiled with the straightener's sources.  The firmwares count segments in 16 bits; what exceeds them wraps as on the controller."""
    d = os.path.join(REPO, "ArcWelderInverseProcessor")
    src = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "ArcWelderInverseProcessor.cpp"]
    return driver(variant, name, extra_src=src, libs=("GcodeProcessorLib",), extra_inc=("ArcWelderInverseProcessor", os.path.join("TCLAP", "include"), "TCLAP"),
                  extra_flags=tuple(extra_flags) + (("-fno-sanitize=float-cast-overflow",) if variant in ("asan", "fuzz") else ()))
