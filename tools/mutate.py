#!/usr/bin/env python3
"""mutate.py FILE N [seed]: N random one-token changes of a source file, each judged by the checks that cover the file until one reports it.
Development tool (finds gaps in the oracles); works on a scratch clone (WR, default /tmp/mw/a) and appends to work/mutants.jsonl."""
import json, os, random, re, subprocess, sys, time, functools
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("WR", "/tmp/mw/a")
class Any(tuple):
    def __contains__(s, o): return True
class Every(str):
    def __eq__(s, o): return True
    __hash__ = str.__hash__
if len(sys.argv) > 1 and sys.argv[1] == "--all":      # child: every oracle of a family at once
    sys.path[:0] = [os.path.join(V, "lib"), V]
    from ctx import Ctx
    if sys.argv[2] == "W":
        from checks import weld
        weld.METHODS["C01"] = tuple(sorted(set(m for ms in weld.METHODS.values() for m in ms)))
        weld.EXTRA["C01"] = Any()
        c = Ctx("C01"); weld.run(c, [("general", 5000), ("rounding", 1000), ("rising", 1500), ("stats", 400)])
    else:
        from checks import straight
        c = Ctx(Every("C23")); straight.sweep(c, 2400)
    for k, m, r in c.viol[:3]: print("  [%s] %s" % (k, m[:200]))
    sys.stdout.flush(); print("VIOLATION" if c.viol else "ok"); sys.stdout.flush(); os._exit(1 if c.viol else 0)

F, N = sys.argv[1], int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else "1"
G = "GcodeProcessorLib/"; A = "ArcWelder/"; I = "ArcWelderInverseProcessor/"
MAP = {A: ["W", "C19", "C34", "C13", "C12", "C10", "C33", "C32", "C16", "C36", "C18"], I: ["S", "C27", "C31", "C14", "C28"], "ArcWelderConsole/": ["C15", "C33", "C14"],
       G + "gcode_parser": ["C20", "W", "C18"], G + "gcode_pos": ["C21", "C35", "W", "C32"], G + "parsed": ["C20", "C21", "W"], G + "position": ["C21", "C35", "W", "C32"], G + "extruder": ["C21", "C35", "W"],
       G + "utilities": ["C11", "C14", "C15", "C33", "W", "C26"], G + "fpconv": ["C11", "C18"], G + "circular": ["C22", "C21", "W"], G + "array": ["C22", "W"],
       G + "logger": ["C36", "C16", "C17"], "PyArcWelder/": ["C29", "C30", "C36"], G + "gcode_comment": ["W", "C20", "C18"]}
checks = next(v for k, v in sorted(MAP.items(), key=lambda kv: -len(kv[0])) if F.startswith(k))
OPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("++", "--"), (" < ", " <= "), (" > ", " >= "), (" < ", " > "), (" > ", " < "),
       (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("true", "false"), ("false", "true"), ("0", "1"), ("1", "2"), ("2", "3"), ("1", "0"), (".0", ".1"), ("!", ""), ("_x", "_y"), (".x", ".y"), (".y", ".x"), ("DEL", ""), ("DEL", ""), ("DEL", ""), ("continue", "break"), ("break;", ";"), ("if (", "if (!("), ("return true", "return false"), ("return false", "return true")]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.isdir(W): sh("git clone -q /repo %s" % W)
sh("git -C %s checkout -q -- .; git -C %s pull -q" % (W, W))
p = os.path.join(W, F)
text = open(p, newline="", encoding="latin-1").read().split("\n")
cand = []
blk = False
for n, l in enumerate(text):
    s = l.strip()
    if s.startswith("/*"): blk = True
    if blk:
        if "*/" in s: blk = False
        continue
    if not s or s.startswith(("//", "#", "*", "namespace", "using", "static const", "stream", "p_logger", "log", "<<")) or "log(" in s or "log_level" in s or "<<" in s or "debug" in s.lower() or "MESSAGE" in s: continue
    code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\1" * len(m.group(0)), l.split("//")[0])
    for a, b in OPS:
        if a == "DEL":
            if re.match(r"^\s*[\w\.\->\[\]\(\)\*&:]+\s*(=|\+=|-=|\()[^=].*;\s*$", code) and not re.match(r"^\s*(const |return|double |int |bool |std::|char )", code): cand.append((n, l, re.match(r"^\s*", l).group(0) + ";" + ("\r" if l.endswith("\r") else "")))
        elif a == "if (":
            m = re.match(r"^(\s*(?:else )?if \()(.*)\)(\s*\{?\s*)$", code)
            if m and code.count("(") == code.count(")"): cand.append((n, l, l[:m.start(2)] + "!(" + l[m.start(2):m.end(2)] + "))" + l[m.end(2) + 1:]))
        else:
            for m in re.finditer(re.escape(a), code):
                i = m.start()
                if a in "012" and (re.match(r"[\w.]", code[i - 1:i] or " ") or re.match(r"[\w.]", code[i + 1:i + 2] or " ")): continue
                if a == "!" and code[i + 1:i + 2] == "=": continue
                if a in ("true", "false") and re.match(r"\w", code[i - 1:i] or " "): continue
                cand.append((n, l, l[:i] + b + l[i + len(a):]))
cand = sorted(set(c for c in cand if c[1] != c[2]))
random.Random(seed + F).shuffle(cand)
os.makedirs(V + "/work", exist_ok=True)
log = V + "/work/mutants.jsonl"
try: done = set((json.loads(x)["file"], json.loads(x)["line"], json.loads(x)["new"]) for x in open(log))
except OSError: done = set()
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=W, VERIF_BUILD=W + ".build")
stat = {}
for n, old, new in cand[:N]:
    if (F, n + 1, new.strip()) in done: continue
    t = list(text); t[n] = new
    open(p, "w", newline="", encoding="latin-1").write("\n".join(t))
    t0 = time.time(); res = "survived"; why = ""
    try:
        for c in checks:
            cmd = [sys.executable, "check.py", c] if c[0] == "C" else [sys.executable, "tools/mutate.py", "--all", c]
            try: r = subprocess.run(cmd, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            except subprocess.TimeoutExpired: res = "timeout " + c; break
            o = r.stdout.decode("latin-1")
            if "BuildError" in o: res = "does not build"; break
            if r.returncode not in (0, 1): res = "survived, no answer " + c; continue
            if r.returncode: res = ("caught " if r.returncode == 1 and "VIOLATION" in o else "no answer ") + c; why = next((x for x in o.split("\n") if x.startswith("  [")), o[-300:] if r.returncode != 1 else "")[:200]; break
    finally:
        sh("git -C %s checkout -q -- ." % W)
    stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
    with open(log, "a") as f: f.write(json.dumps({"file": F, "line": n + 1, "old": old.strip(), "new": new.strip(), "res": res, "why": why, "s": round(time.time() - t0)}) + "\n")
print(F, len(cand), "possible;", stat)
