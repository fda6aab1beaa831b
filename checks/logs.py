"""C36: what is logged, at which level, where."""
import calendar, os, random, re, shutil, time
import build, proc, tools, weldrun, gen, profiles, arcgen
from checks import pybind
LEVELS = ["NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
VALUES = [0, 5, 10, 20, 30, 40, 50]
NAME = "arc_welder.gcode_conversion"
ROW = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\.(\d{3}) - (.*?) - (%s) - " % "|".join(LEVELS), re.S)
ZONES = [("UTC", 0), ("XYZ-05:30", 19800), ("ABC+9", -32400), ("QQQ-13", 46800)]

def messages(text):
    """-> what stands before the first message, [(stamp, name, level, message)]"""
    out = []; first = []
    for l in text.split("\n"):
        m = ROW.match(l)
        if m: out.append([m.group(1), m.group(3), LEVELS.index(m.group(4)), l[m.end():]])
        elif out: out[-1][3] += "\n" + l
        else: first.append(l)
    return "\n".join(first), out

def run2(exe, args, tz):
    e = tools.sanitize_env(dict(os.environ)); e["TZ"] = tz
    import subprocess
    t = time.time()
    p = proc.run([exe] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=120)
    return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), (t, time.time())

def timely(M, zone, span, bad):
    for st, name, lv, m in M:
        t = calendar.timegm(time.strptime(st, "%Y-%m-%d %H:%M:%S")) - zone
        if not span[0] - 2 <= t <= span[1] + 2: bad("time", "a message of %.0f..%.0f has the time %s (%d s away)" % (span[0], span[1], st, t - span[0])); return
        if name != NAME: bad("name", "a message in the name of %r" % name); return

LEVEL_LINE = re.compile(r"^(\tLog Level +: )\w+$", re.M)
def plain(m):
    # text the program writes past the log ends up behind a message
    m = LEVEL_LINE.sub(r"\1?", m)
    m = re.sub(r"(?s)(^|\n)(Decompressing gcode file\.|Progress: |arc_welder::process|Completed file).*$", "", m)
    return m.rstrip("\n")

def programs(ctx, root):
    """the two programs at every level: exactly the messages of that level and above"""
    weld = build.exe("rel", "weld"); straight = build.exe("rel", "straight")
    n = ctx.scale(640, 8000)
    def one(i):
        r = random.Random("C36|%s|%d" % (ctx.seed, i))
        w = os.path.join(root, "p%d" % i); os.makedirs(w)
        src = os.path.join(w, "s.gcode"); dst = os.path.join(w, "t.gcode")
        kind = r.choice(["weld", "weld", "weld", "straight", "weld fails", "straight fails"])
        if kind.startswith("weld"):
            c = profiles.general(r, blocks=r.randint(1, 4)); data = c.data; exe = weld
            args = tools.weld_args(c.opts) + ["-p=NONE"]
        else:
            data = b"G28\nM83\nG1 X0 Y0 F1800\n" + b"".join(b"G%d X%d Y%d I%d J%d E0.5\n" % (r.choice([2, 3]), r.randint(-50, 50), r.randint(-50, 50), r.randint(1, 50), r.randint(1, 50)) for _ in range(r.randint(0, 20)))
            exe = straight; args = ["-f=" + r.choice(["MARLIN_1", "MARLIN_2", "PRUSA", "REPETIER", "SMOOTHIEWARE"])]
        tools.put(src, data)
        if kind.endswith("fails"): dst = os.path.join(w, "none", "t.gcode")
        tz, off = r.choice(ZONES)
        R = {}
        for lv in LEVELS if i % 4 == 0 else ["NOSET"] + r.sample(LEVELS[1:], 2):
            R[lv] = run2(exe, args + ["-l=" + lv, src, dst], tz)
        shutil.rmtree(w)
        return i, kind, data, args, off, R
    for k in range(0, n, 80):
        for i, kind, data, args, off, R in tools.pmap(one, range(k, min(n, k + 80))):
            rc0, o0, e0, span0 = R["NOSET"]
            rep = {"data": data, "args": args, "program": kind}
            full = [messages(o0)[1], messages(e0)[1]]
            for lv, (rc, o, e, span) in R.items():
                ctx.evaluations += 1
                def bad(kk, m): ctx.violation(kk, "case %d (%s, level %s): %s" % (i, kind, lv, m), dict(rep, level=lv, printed=o[-3000:], errors=e[-1000:]))
                if (rc == 0) == kind.endswith("fails") or rc not in (0, 1): bad("status", "exit status %s" % rc); continue
                for text, F, where in ((o, full[0], "standard output"), (e, full[1], "standard error")):
                    first, M = messages(text)
                    timely(M, off, span, bad)
                    low = [m for m in M if m[2] < LEVELS.index(lv)]
                    if low: bad("level", "%d messages below the level on %s: %s %r" % (len(low), where, LEVELS[low[0][2]], low[0][3][:80]))
                    # tracing differs with its level: VERBOSE says in other words what DEBUG says
                    cut = max(LEVELS.index(lv), 3) if lv == "DEBUG" else LEVELS.index(lv)
                    want = [(m[2], plain(m[3])) for m in F if m[2] >= cut]
                    got = [(m[2], plain(m[3])) for m in M if m[2] >= cut]
                    if lv == "DEBUG" and want and text is o and kind.startswith("weld") and len(M) <= len(got): bad("level", "no message of the level itself")
                    if got != want and not low:
                        d = next((q for q in range(max(len(got), len(want))) if got[q:q + 1] != want[q:q + 1]), 0)
                        bad("messages", "%d messages on %s, %d expected; the %dth is %s instead of %s" % (len(got), where, len(want), d + 1, got[d:d + 1], want[d:d + 1]))
                    ctx.count("messages", len(M)); ctx.count("messages_held_back", len(F) - len(M))
                ctx.count("runs_at_" + lv); ctx.count("runs_" + kind.replace(" ", "_"))
            # what the log holds
            def bad(kk, m): ctx.violation(kk, "case %d (%s): %s" % (i, kind, m), dict(rep, printed=o0[:3000], errors=e0[:1000]))
            if any(m[2] > 3 for m in full[0] + full[1]) != kind.endswith("fails"): bad("errors", "messages above INFO: %s" % [m for m in full[0] + full[1] if m[2] > 3][:2])
            if kind == "weld":
                L = data.split(b"\n")
                if L and L[-1] == b"": L.pop()
                if L and (L[0].rstrip(b"\r") == b";FLAVOR:UltiGCode" or L[0].startswith(b"; generated by PrusaSlicer")): L = L[1:]
                said = [m[3][9:] for m in full[0] if m[3].startswith("Parsing: ")]
                want = [x.decode("latin-1") for x in L]
                if said != want and not any("\n" in s for s in said): bad("lines", "%d lines are said to be parsed, the file has %d" % (len(said), len(want)))
                if any(m[2] != 1 for m in full[0] if m[3].startswith("Parsing: ")): bad("lines", "lines are not logged as VERBOSE")
                ctx.count("lines_logged", len(said)); ctx.distinct.add(("weld", len(said)))
            else: ctx.distinct.add((kind, len(data)))
            if not ctx.samples and kind == "weld": ctx.sample({"levels": {lv: len(messages(R[lv][1])[1]) for lv in R}, "first": full[0][:3]})

def model(ctx, root):
    """the logger itself against a model"""
    drv = build.driver("rel", "log_driver", libs=("GcodeProcessorLib",))
    n = ctx.scale(200, 2000)
    def one(i):
        r = random.Random("C36m|%s|%d" % (ctx.seed, i))
        ops = []; names = []; lev = []
        def some(): return r.choice([bytes(r.choice(b"abc -\xe4\t;%s\\") for _ in range(r.randint(0, 30))), b"x" * r.choice([1, 79, 80, 81, 5000]), b"two\nlines", b"%s%n%d"])
        for q in range(400):
            x = r.random()
            if not names or x < 0.03:
                names = ["l%d.%s" % (j, r.choice(["a", "gcode", "a"])) for j in range(r.choice([1, 1, 2, 5]))]; lev = [0] * len(names)
                ops.append(("new", ",".join(names), None))
                continue
            t = r.randrange(len(names)); l = r.randrange(7); v = r.choice(VALUES + [1, 15, -1, 60])
            idx = VALUES.index(v) if v in VALUES else 0
            if x < 0.1: lev = [l] * len(names); ops.append(("all %d" % l, None, None))
            elif x < 0.2: lev[t] = l; ops.append(("one %d %d" % (t, l), None, None))
            elif x < 0.25: lev = [idx] * len(names); ops.append(("allv %d" % v, None, None))
            elif x < 0.3: lev[t] = idx; ops.append(("onev %d %d" % (t, v), None, None))
            elif x < 0.35:
                nm = r.choice(names + ["other"])
                ops.append(("name " + nm, "say", LEVELS[lev[names.index(nm)]] if nm in names else "UNKNOWN"))
            elif x < 0.4: ops.append(("value %d" % l, "say", str(VALUES[l])))
            elif x < 0.45: ops.append(("index %d" % v, "say", str(idx)))
            elif x < 0.55: ops.append(("on %d %d" % (t, l), "say", "1" if l >= lev[t] else "0"))
            else:
                m = some(); h = m.hex()
                if x < 0.8: ops.append(("log %d %d %s" % (t, l, h), "out", (names[t], l, m) if l >= lev[t] else None))
                elif x < 0.9: ops.append(("logx %d %d %s" % (t, l, h), "err", (names[t], l, m) if l >= lev[t] else None))
                else: ops.append(("exc %d %s" % (t, h), "err", (names[t], 5, m) if 5 >= lev[t] else None))
        lines = [("new " + b) if a == "new" else a for a, b, c in ops]
        p = os.path.join(root, "m%d" % i); tools.put(p, ("\n".join(lines) + "\n").encode())
        tz, off = r.choice(ZONES)
        rc, o, e, span = run2(drv, [p], tz)
        os.unlink(p)
        return i, ops, lines, rc, o, e, span, off
    for i, ops, lines, rc, o, e, span, off in tools.pmap(one, range(n)):
        rep = {"operations": lines}
        def bad(kk, m): ctx.violation(kk, "logger, case %d: %s" % (i, m), rep)
        if rc != 0: bad("crash", "exit status %s" % rc); continue
        def parts(text): return [x.split("\n", 1)[1] for x in text.split("\x01")[1:]]
        O, E = parts(o), parts(e)
        if len(O) != len(ops) or len(E) != len(ops): bad("crash", "%d and %d answers to %d operations" % (len(O), len(E), len(ops))); continue
        for q, (a, kind, want) in enumerate(ops):
            ctx.evaluations += 1
            if a == "new": continue
            out, err = O[q], E[q]
            if kind == "say": exp = {"out": "\x02%s\n" % want, "err": ""}; got = {"out": out, "err": err}
            else:
                exp = {"out": None, "err": None}; got = {"out": out or None, "err": err or None}
                if want is not None:
                    exp[kind] = (want[0], want[1], want[2].decode("latin-1") + "\n")
                    m = ROW.match(got[kind] or "")
                    if m:
                        t = calendar.timegm(time.strptime(m.group(1), "%Y-%m-%d %H:%M:%S")) - off
                        if not span[0] - 2 <= t <= span[1] + 2: bad("time", "%r written between %.0f and %.0f" % (m.group(0), span[0], span[1])); break
                        got[kind] = (m.group(3), LEVELS.index(m.group(4)), got[kind][m.end():])
            if got != exp: bad("logger", "operation %d, %r: %r instead of %r" % (q, lines[q][:80], got, exp)); break
            ctx.count("logger_operations")

def python(ctx, root):
    """the messages of a conversion go to the logger Python gave"""
    build.build("rel", ["PyArcWelder"]); so = build.exe("rel", "py")
    weld = build.exe("rel", "weld")
    n = ctx.scale(400, 4000)
    def one(k):
        w = os.path.join(root, "y%d" % k); os.makedirs(w)
        js = []; D = {}
        for i in range(k, min(n, k + 15)):
            r = random.Random("C36p|%s|%d" % (ctx.seed, i))
            c = profiles.general(r, blocks=r.randint(1, 3)); data = c.data
            if r.random() < 0.3: data = b"M117 \xe4\xff\n;\x80\xc3\n" + data
            src = os.path.join(w, "s%d" % i); tools.put(src, data)
            lv = r.choice(VALUES)
            a = {"guid": "g", "source_path": src, "target_path": src + ".o", "log_level": lv}
            fails = r.random() < 0.2
            if fails: a["target_path"] = os.path.join(w, "none", "x")
            js.append({"id": "j%d" % i, "args": a, "cb": r.choice([[True], [("raise", "V")]]), "log": 1})
            D["j%d" % i] = (i, data, lv, fails)
        R, end = pybind.drive(so, js, w)
        shutil.rmtree(w)
        return D, R
    for D, R in tools.pmap(one, range(0, n, 15)):
        for id, (i, data, lv, fails) in D.items():
            ctx.evaluations += 1
            q = R.get(id) or {"crash": "no answer"}
            def bad(kk, m): ctx.violation(kk, "Python, case %d (level %d): %s" % (i, lv, m), {"data": data, "log_level": lv})
            if "crash" in q or "exc" in q: bad("crash", str(q.get("crash") or q.get("exc"))); continue
            rows = q["rows"]
            text = [m for l, m in rows]
            if q["printed"]: bad("printed", "the conversion writes %r to standard output" % q["printed"][:200])
            if text.count("Opening the source file for reading.") != (lv <= 10) and (lv <= 10): bad("messages", "%d messages that the source is opened" % text.count("Opening the source file for reading."))
            if any(l == "verbose" and m.startswith("Parsing: ") for l, m in rows) and lv > 5: bad("level", "lines are logged at level %d" % lv)
            if fails != any(l == "error" for l, m in rows): bad("errors", "error messages %s" % [m for l, m in rows if l == "error"][:2])
            if lv <= 5 and not fails:
                L = data.split(b"\n")
                if L and L[-1] == b"": L.pop()
                if L and (L[0].rstrip(b"\r") == b";FLAVOR:UltiGCode" or L[0].startswith(b"; generated by PrusaSlicer")): L = L[1:]
                got = [m[9:] for l, m in rows if l == "verbose" and m.startswith("Parsing: ")]
                if got != [x.decode("utf-8", "replace") for x in L]: bad("lines", "%d lines are said to be parsed, the file has %d" % (len(got), len(L)))
                ctx.count("python_lines_logged", len(got))
            ctx.count("python_messages", len(rows)); ctx.count("python_conversions")

def c36(ctx):
    build.build("rel", ["ArcWelderConsole", "ArcWelderInverseProcessor"])
    root = weldrun.scratch("vf_c36_")
    try:
        programs(ctx, root); model(ctx, root); python(ctx, root)
        ctx.rule = "Runs of the two programs at one level each, operations on the logger and conversions from Python; distinct by program and number of messages."
        ctx.need("too few messages", ctx.cov.get("messages", 0) > 10000)
        ctx.need("too few messages held back", ctx.cov.get("messages_held_back", 0) > 10000)
        ctx.need("too few messages from Python", ctx.cov.get("python_messages", 0) > 5000)
    finally:
        shutil.rmtree(root, ignore_errors=True)
