"""C29, C30: the Python module PyArcWelder, driven in real Python processes (harness/py_driver.py)."""
import json, math, os, random, shutil, subprocess, sys, sysconfig
import big, build, proc, tools, weldrun, gen, profiles, table
from checks import weld

PY = os.environ.get("VERIF_PYTHON", "/usr/bin/python3")
KEY = {"res": "resolution_mm", "tol": "path_tolerance_percent", "rad": "max_radius_mm", "mas": "min_arc_segments", "mm": "mm_per_arc_segment", "g90": "g90_g91_influences_extruder",
       "z3d": "allow_3d_arcs", "trav": "allow_travel_arcs", "dyn": "allow_dynamic_precision", "xp": "default_xyz_precision", "ep": "default_e_precision", "var": "extrusion_rate_variance_percent", "mgl": "max_gcode_length"}
FLAGS = ("g90", "z3d", "trav", "dyn"); INTS = ("mas", "mgl"); LEVELS = (0, 5, 10, 20, 30, 40, 50)
# values that are replaced: documented in the module's messages
FIXED = {"res": [(0, 0.05), (-1, 0.05), (-0.5, 0.05)], "tol": [(-0.1, 0.05), (-3, 0.05)], "rad": [(10000, 9999.0), (1e9, 9999.0)], "mas": [(-1, 0)], "mm": [(-0.5, 0.0), (-2, 0.0)],
         "xp": [(0, 3), (2, 3), (-1, 3), (7, 6), (300, 6), (259, 6), (1e300, 6), (4.0, 4), (5.9, 5)], "ep": [(1, 3), (2, 3), (-7, 3), (9, 6), (260, 6), (6.0, 6)], "var": [(-0.01, 0.05), (-5, 0.05)], "mgl": [(-1, 0), (-100, 0)]}

def args_of(r, o, src, dst):
    """-> (source text of the dictionary's entries, configuration that must be in force)"""
    a = {"guid": "g%d" % r.randrange(10 ** 9), "source_path": src, "target_path": dst}
    w = dict(o)
    for k, name in KEY.items():
        v = o[k]
        if r.random() < 0.12: w[k] = gen.DEFAULT_OPTS[k]; continue            # left out
        if k in FIXED and r.random() < 0.08: v, w[k] = r.choice(FIXED[k]); a[name] = v; continue
        if k in FLAGS:
            if r.random() < 0.15: a[name] = r.choice([2, 100] if v else [0, -1])
            else: a[name] = bool(v) if r.random() < 0.5 else int(v)
        elif k in INTS: a[name] = int(v)
        elif isinstance(v, float) and v == int(v) and r.random() < 0.4: a[name] = int(v)
        elif k in ("xp", "ep") and r.random() < 0.3: a[name] = float(v)
        else: a[name] = v
    if r.random() < 0.6: a["log_level"] = r.choice(LEVELS + (7, 1000, -1))
    if r.random() < 0.1: a["unknown_key"] = 1
    items = list(a.items()); r.shuffle(items)
    return dict(items), w

def drive(so, jobs, w, tag="", env=None, timeout=300, pyargs=()):
    """-> {id: result}, (status, stderr)"""
    jf, rf = os.path.join(w, "py%s.jobs" % tag), os.path.join(w, "py%s.res" % tag)
    with open(jf, "w", encoding="utf-8", errors="surrogatepass") as f:
        for j in jobs: f.write((j if isinstance(j, str) else repr(j)) + "\n")
    open(rf, "w").close()
    e = dict(os.environ, PYTHONHASHSEED="0", **(env or {}))
    for attempt in (0, 1):
        try:
            p = proc.run([PY, "-B"] + list(pyargs) + [os.path.join(build.VERIF, "harness", "py_driver.py"), os.path.dirname(so), jf, rf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=w)
            rc, err = p.returncode, p.stderr.decode("latin-1"); break
        except subprocess.TimeoutExpired: rc, err = "hang", ""
    res, begun = {}, None
    for l in open(rf, encoding="utf-8"):
        if l.startswith("BEGIN "): begun = l[6:].strip()
        elif l.startswith("{"): d = json.loads(l); res[d["id"]] = d; begun = None
        elif l.startswith("END"): begun = "END"
    if begun is not None and begun != "END": res[begun] = {"id": begun, "crash": "exit %s: %s" % (rc, err[-1500:])}
    if not res and rc != 0: raise RuntimeError("the module can't be used: exit %s %s" % (rc, err[-2000:]))
    return res, (rc, err)

def near(a, b): return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))) or ("nan" in (str(a), str(b)) and str(a) == str(b))
SAME = {"gcodes_processed": "gcodes", "lines_processed": "lines", "points_compressed": "pts", "arcs_created": "arcs", "arcs_aborted_by_flowrate": "flow", "num_firmware_compensations": "fw", "num_gcode_length_exceptions": "mglx",
        "source_file_position": "pos", "source_file_size": "ssz", "target_file_size": "tsz", "compression_ratio": "ratio", "compression_percent": "cpct"}

def pct(s): return 0.0 if not s["cs"] and not s["ct"] else (None if not s["cs"] else (1 - s["ct"] / s["cs"]) * -100.0)

def progress_is(p, d, guid, final, bad):
    if p.get("guid") != guid: bad("guid", "guid %r instead of %r" % (p.get("guid"), guid))
    for k, q in SAME.items():
        if not near(p.get(k), d[q]): bad("progress", "%s is %r, the library reports %r" % (k, p.get(k), d[q]))
    for pre, s in (("", d["seg"]), ("travel_", d["trv"])):
        for k, q in (("source_file_total_%slength" % pre, "ls"), ("target_file_total_%slength" % pre, "lt"), ("source_file_total_%scount" % pre, "cs"), ("target_file_total_%scount" % pre, "ct")):
            if not near(p.get(k), s[q]): bad("progress", "%s is %r, the library reports %r" % (k, p.get(k), s[q]))
        want = pct(s); got = p.get("total_%scount_reduction_percent" % pre)
        if want is not None and not near(got, want): bad("progress", "total_%scount_reduction_percent is %r, should be %r" % (pre, got, want))
    if not near(p.get("percent_complete"), 100.0): bad("progress", "percent_complete is %r at the end" % p.get("percent_complete"))
    for k in ("seconds_elapsed", "seconds_remaining"):
        v = p.get(k)
        if not isinstance(v, (int, float)) or not 0 <= v < 1e6: bad("progress", "%s is %r" % (k, v))

def texts(p, d, bad):
    """the two tables of the final progress"""
    for k, parts in (("segment_statistics_text", (d["seg"], d["ret"])), ("segment_travel_statistics_text", (d["trv"],))):
        t, why = table.parse(p.get(k) or "")
        if t is None: bad("table", "%s: %s" % (k, why)); continue
        table.judge(t, *[sum(x[q] for x in parts) for q in ("cs", "ct", "ls", "lt")], lambda kk, m: bad(kk, k + ": " + m))

def c29(ctx):
    build.build("rel", ["PyArcWelder"]); so = build.exe("rel", "py")
    drv = build.driver("rel", "weld_driver")
    root = weldrun.scratch("vf_c29_")
    try:
        n = ctx.scale(2400, 30000); step = 100
        def batch(k):
            w = os.path.join(root, "w%d" % k); os.makedirs(w)
            cs, j1, j2 = [], [], []
            for i in range(k, min(n, k + step)):
                r = random.Random("C29|%s|%d" % (ctx.seed, i))
                c = profiles.general(r)
                src = os.path.join(w, "s%d" % i) + r.choice(["", " .gcode", "\u00e4\u4e2d.g"])
                tools.put(src, c.data)
                if r.random() < 0.15: tools.put(src + ".py", c.data); a, o = args_of(r, c.opts, src + ".py", src + ".py")      # in place
                else: a, o = args_of(r, c.opts, src, src + ".py")
                cs.append((i, c, o, a, src))
                j1.append(dict({"id": "j%d" % i, "src": src, "dst": src + ".lib"}, **{q: o[q] for q in weldrun.OPTKEYS}))
                # answers that continue
                j2.append({"id": "j%d" % i, "args": a, "cb": r.choice([[True]] * 4 + [[None], [1], [2], [None, True], [("raise", "V")], ["x"]] ) if r.random() < 0.9 else [True]})
            R1 = weldrun.run_driver(drv, j1, w)
            R2, end = drive(so, j2, w)
            left = sorted(set(os.listdir(w)) - set(x for _, _, _, _, src in cs for x in (os.path.basename(src), os.path.basename(src) + ".lib", os.path.basename(src) + ".py")) - set(x for x in os.listdir(w) if x.startswith(("jobs", "res", "py."))))
            out = [(i, c, o, a, j["cb"], R1["j%d" % i], R2.get("j%d" % i), tools.read(src + ".lib"), tools.read(src + ".py")) for (i, c, o, a, src), j in zip(cs, j2)]
            shutil.rmtree(w)
            return out, left
        for k in range(0, n, step * 8):
            for part, left in tools.pmap(batch, range(k, min(n, k + step * 8), step)):
                if left: ctx.violation("left-over", "files left behind: %s" % left[:3], {})
                for i, c, o, a, cb, d, p, f1, f2 in part:
                    ctx.evaluations += 1
                    rep = {"data": c.data, "args": repr(a), "expected configuration": o, "callback": repr(cb)}
                    def bad(kk, m): ctx.violation(kk, "case %d: %s" % (i, m), rep)
                    if p is None:
                        ctx.count("not_run"); continue
                    if p.get("crash"): bad("crash", p["crash"]); continue
                    if d.get("crash") or not d.get("success"): continue
                    if "exc" in p: bad("exception", "ConvertFile raises %s: %s" % tuple(p["exc"])); continue
                    q = p["result"]; pr = q.get("progress")
                    ev = p["events"]
                    ctx.distinct.add((tuple(sorted((kk, o[kk]) for kk in o)), len(a)))
                    # "x" is no answer: the conversion is cancelled
                    stop = len(cb) == 1 and cb[0] == "x"
                    if stop:
                        if q.get("success") or not q.get("is_cancelled"): bad("flags", "success=%r is_cancelled=%r, callback answers %r" % (q.get("success"), q.get("is_cancelled"), cb))
                        if a["source_path"] == a["target_path"] and f2 != c.data: bad("output", "the cancelled conversion changed its source")
                        continue
                    if a["source_path"] == a["target_path"]: ctx.count("in_place")
                    if f1 != f2: bad("output", "the module writes another file than the library (%s and %s bytes) for %s" % (len(f2) if f2 is not None else None, len(f1), {KEY[k]: o[k] for k in o if o[k] != gen.DEFAULT_OPTS[k]}))
                    if bool(q.get("success")) != (not stop) or bool(q.get("is_cancelled")) != stop: bad("flags", "success=%r is_cancelled=%r, callback answers %r" % (q.get("success"), q.get("is_cancelled"), cb))
                    if q.get("message") != d["message"]: bad("message", "%r instead of %r" % (q.get("message"), d["message"]))
                    if not isinstance(pr, dict): bad("progress", "progress is %r" % (pr,)); continue
                    progress_is(pr, d, a["guid"], True, bad); texts(pr, d, bad)
                    if len(ev) < 2: bad("reports", "%d progress reports" % len(ev)); continue
                    if ev[0].get("lines_processed") != 0 or ev[0].get("guid") != a["guid"]: bad("reports", "first report %r" % ev[0])
                    progress_is(ev[-1], d, a["guid"], False, bad)
                    ctx.count("conversions_compared"); ctx.count("bytes_compared", len(f1 or b"")); ctx.count("progress_reports", len(ev)); ctx.count("arcs", d["arcs"])
                    ctx.count("entries_left_out", 13 - sum(x in a for x in KEY.values())); ctx.count("entries_corrected", sum(1 for kk, nm in KEY.items() if nm in a and kk not in FLAGS and a[nm] != c.opts[kk] and a[nm] != o[kk]))
                    if not ctx.samples and d["arcs"]: ctx.sample({"args": repr(a)[:600], "result": {kk: v for kk, v in q.items() if kk != "progress"}, "arcs": pr["arcs_created"], "reports": len(ev)})
        cancel(ctx, so, root); large(ctx, so, root)
        ctx.rule = "Conversions through the Python module beside the same conversion by the library; distinct by configuration in force and number of dictionary entries."
        ctx.need("too few conversions", ctx.cov.get("conversions_compared", 0) > 0.9 * n)
        ctx.need("no report in the middle", ctx.cov.get("reports_in_the_middle", 0) > 5)
    finally:
        shutil.rmtree(root, ignore_errors=True)

def large(ctx, so, root):
    """positions and sizes that need more than 31 and more than 32 bits"""
    for mib in (4200,) if ctx.tier != "thorough" else (2047, 2048, 2100, 4096, 8300):
        w = os.path.join(root, "big%d" % mib); os.makedirs(w)
        src, dst = os.path.join(w, "s.gcode"), os.path.join(w, "o.gcode")
        size, lines, cmds = big.sparse(src, mib)
        a = {"guid": "big", "source_path": src, "target_path": dst}
        R, end = drive(so, ["{'id': 'b', 'args': %r, 'cb': [True]}" % a], w, timeout=250)
        q = R.get("b") or {"crash": "no answer: %r" % (end,)}
        ctx.evaluations += 1; ctx.distinct.add(("large", mib))
        def bad(k, m): ctx.violation("large-" + k, "source of %d bytes: %s" % (size, m), {"make": "big.sparse(path, %d)" % mib, "events": str(q.get("events"))[-1500:]})
        if "crash" in q or "exc" in q: bad("crash", str(q.get("crash") or q.get("exc")))
        else:
            v = q["result"]; ps = q["events"][:-1] + [v["progress"]]
            if not v["success"]: bad("failed", v["message"])
            big.judge([(p["percent_complete"], p["seconds_elapsed"], p["seconds_remaining"], p["source_file_position"], p["source_file_size"], p["lines_processed"], p["gcodes_processed"]) for p in ps], size, lines, cmds, bad, 2)
            ctx.count("reports_beyond_2gib", sum(p["source_file_position"] > 2 ** 31 for p in ps))
            if v["progress"]["target_file_size"] != os.path.getsize(dst): bad("target", "states a target of %r bytes, it has %d" % (v["progress"]["target_file_size"], os.path.getsize(dst)))
        shutil.rmtree(w)

def cancel(ctx, so, root):
    """answers to every report, in conversions that report in the middle (the interval is a second of processor time)"""
    r = random.Random("C29c|%s" % ctx.seed)
    J = []
    w = os.path.join(root, "cancel"); os.makedirs(w)
    W = []
    answers = [False, 0, -1, "x", None, True, 5, ("raise", "V"), ("raise", "K"), 0.0, [], 10 ** 30]
    stops = [1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 1, 1]
    lines = ["M83", "G1 X0 Y0 Z0.2 F1800"]
    for k in range(3400): lines.append("G1 X%.3f Y%.3f E0.03" % (50 + 20 * math.cos(k / 20) , 50 + 20 * math.sin(k / 20)) if k % 40 else ";layer %d" % k)
    data = ("\n".join(lines) + "\n").encode()
    for i, (x, s) in enumerate(zip(answers, stops)):
        for at in (0, 1):
            src = os.path.join(w, "c%d_%d" % (i, at)); tools.put(src, data)
            b = ("burn", 1.03, x if at == 0 else True)
            cb = [b, x if at == 1 else True, True]
            W.append(("c%d_%d" % (i, at), src, x, at, s))
            J.append({"id": "c%d_%d" % (i, at), "args": {"guid": "g", "source_path": src, "target_path": src + ".o"}, "cb": cb})
    def one(js):
        d = os.path.join(w, "d" + js[0]["id"]); os.makedirs(d)
        return drive(so, js, d)[0]
    R = {}
    for x in tools.pmap(one, [J[k::8] for k in range(8)]): R.update(x)
    for id, src, x, at, s in W:
        ctx.evaluations += 1
        q = R.get(id) or {"crash": "no answer"}
        rep = {"answer": repr(x), "at report": at}
        def bad(kk, m): ctx.violation(kk, "callback answers %r to report %d: %s" % (x, at, m), rep)
        if "crash" in q: bad("crash", q["crash"]); continue
        if "exc" in q: bad("exception", "ConvertFile raises %s: %s" % tuple(q["exc"])); continue
        ev = q["events"]; v = q["result"]
        ctx.count("reports_in_the_middle", max(0, len(ev) - 2))
        if len(ev) == 2 and at == 1: ctx.count("cancel_without_middle"); continue
        if bool(v["is_cancelled"]) != bool(s) or bool(v["success"]) == bool(s): bad("cancel", "success=%r is_cancelled=%r" % (v["success"], v["is_cancelled"]))
        if s and len(ev) > at + 2: bad("cancel", "%d reports after the answer" % (len(ev) - at - 1))
        un = q.get("unraisable") or []
        if isinstance(x, tuple) and not any("from the callback" in u for u in un): bad("exception-lost", "the exception was not reported anywhere (%r)" % un)
        last = -1
        for e in ev:
            if e["lines_processed"] < last: bad("reports", "lines processed go from %d to %d" % (last, e["lines_processed"]))
            last = e["lines_processed"]
        ctx.count("answers_tried")

# ---------------------------------------------------------------- C30
ARC = "".join("G1 X%.3f Y%.3f E0.05 ; n%d\n" % (50 + 20 * math.cos(k / 10), 50 + 20 * math.sin(k / 10), k) for k in range(60))
def content(r):
    x = r.random()
    if x < 0.4: return ("M83\nG1 X0 Y0 Z0.2 F1800\n" + ARC).encode()
    if x < 0.6: return profiles.general(r).data
    if x < 0.8: return ("M83\nG1 X0 Y0 Z0.2 F1800 ;\xe4\xff\n" + ARC.replace("; n", ";\x80\xfe n")).encode("latin-1")
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50, 3000])))
JUNK = ["None", "'x'", "''", "'5'", "b'5'", "[]", "{}", "()", "Odd()", "Odd", "nan", "inf", "-inf", "10**40", "-10**40", "2**31", "2**63", "-2**63", "1e308", "5e-324", "1j", "True", "lambda: 1", "Index(4)", "Text('y')", "'\\udcff'", "'a\\0b'", "'\\u4e2d' * 2000", "type", "0", "-1", "1", "3.7", "...", "range(3)", "print"]
REQ = ("guid", "source_path", "target_path", "on_progress_received")

def hostile(r, w, i):
    """-> (source text of a job, facts)"""
    src = os.path.join(w, "s%d" % i); dst = src + ".o"
    tools.put(src, content(r))
    a = {"guid": repr("g%d" % i), "source_path": repr(src), "target_path": repr(dst)}
    if r.random() < 0.5: a["log_level"] = str(r.choice(LEVELS))
    cb = r.choice(["[True]"] * 3 + ["[('raise','V')]", "[('raise','K')]", "[('raise','S')]", "[('raise','M')]", "[Odd()]", "['x']", "[10**30]", "[('gc',)]", "[('clear',)]", "[('mutate',)]", "[('del',)]", "[False]", "[nan]", "[Index(1)]", "[Index('x')]"])
    must = False                                   # must raise
    f = {"dst": dst, "src": src, "size": os.path.getsize(src)}
    x = r.random()
    if x < 0.25:
        k = r.choice(REQ); must = True
        if r.random() < 0.4: a.pop(k, None); cb = cb if k != "on_progress_received" else None
        elif k == "on_progress_received": a[k] = r.choice(JUNK); cb = None; must = False
        else:
            a[k] = r.choice(["None", "5", "b'x'", "[]", "'\\udcff'", "Odd()", "nan", "Index(3)", "('a',)", "'a\\ud800'"])
        f["what"] = "%s=%s" % (k, a.get(k, "<missing>"))
    elif x < 0.8:
        ks = r.sample(sorted(KEY.values()) + ["log_level"], r.choice([1, 1, 1, 2, 5]))
        for k in ks: a[k] = r.choice(JUNK)
        f["what"] = ", ".join("%s=%s" % (k, a[k]) for k in ks)
    elif x < 0.87:
        a["source_path"] = r.choice([repr(src + ".missing"), repr(w), "''", repr("/dev/null"), repr("x" * 5000)]); f["what"] = "source_path=" + a["source_path"][:60]; f["fails"] = True
        if a["source_path"] == "'/dev/null'": f["fails"] = False
    elif x < 0.93:
        a["target_path"] = r.choice([repr(w), repr(os.path.join(w, "no", "where")), "''", repr("y" * 5000), "'/dev/full'"]); f["what"] = "target_path=" + a["target_path"][:60]; f["fails"] = True
    else: f["what"] = "callback"
    f["must"] = must
    if cb is None and "on_progress_received" not in a and not must: cb = "[True]"
    f["cb"] = cb
    d = "{" + ", ".join("%r: %s" % kv for kv in a.items()) + "}"
    if r.random() < 0.05: d = "Map(%s)" % d
    f["text"] = d
    return "{'id': 'h%d', 'args': %s, 'cb': %s}" % (i, d, cb), f

def hostile_sweep(ctx, so, root, n, tag, env=None, pyargs=(), san=False, timeout=600):
    step = 60
    def batch(k):
        w = os.path.join(root, "%s%d" % (tag, k)); os.makedirs(w)
        J = []; F = []
        for i in range(k, min(n, k + step)):
            j, f = hostile(random.Random("C30|%s|%s|%d" % (ctx.seed, tag, i)), w, i)
            J.append(j); F.append((i, f))
        # calls without a dictionary, and a good conversion at the end of each process
        bad = ["'x'", "5", "None", "[]", "(1,)", "b''"]
        J.append("{'id': 'n', 'args': %s, 'cb': None}" % random.Random(k).choice(bad))
        J.append("{'id': 'm', 'args': {}, 'cb': None, 'call': %s}" % random.Random(k).choice(["()", "({}, 1)", "(1, 2, 3)"]))
        good = os.path.join(w, "good"); tools.put(good, ("M83\nG1 X0 Y0 Z0.2 F1800\n" + ARC).encode())
        J.append("{'id': 'good', 'args': {'guid': 'g', 'source_path': %r, 'target_path': %r}, 'cb': [True]}" % (good, good + ".o"))
        before = {f["dst"]: None for _, f in F}
        srcs = {f["src"]: tools.read(f["src"]) for _, f in F}
        pending = J; R = {}; ends = []
        for _ in range(4):
            q, end = drive(so, pending, w, tag="%d" % len(ends), env=env, pyargs=pyargs, timeout=timeout); R.update(q); ends.append(end)
            ids = [eval_id(j) for j in pending]
            pending = [j for j, x in zip(pending, ids) if x not in R]
            if not pending: break
        out = [(i, f, R.get("h%d" % i), tools.read(f["dst"]), tools.read(f["src"]) == srcs[f["src"]]) for i, f in F]
        g = tools.read(good + ".o")
        shutil.rmtree(w)
        return out, R, ends, g
    for part, R, ends, g in tools.pmap(batch, range(0, n, step)):
        for i, f, q, o, same in part:
            ctx.evaluations += 1
            rep = {"dictionary": f["text"], "callback": f["cb"]}
            def bad(kk, m): ctx.violation(kk, "%s case %d (%s, callback %s): %s" % (tag, i, f["what"], f["cb"], m), rep)
            if q is None: ctx.count("not_run"); continue
            if "crash" in q: bad("crash", q["crash"]); continue
            ctx.distinct.add((f["what"][:60], f["cb"])); ctx.count("hostile_calls")
            if not same and f["dst"] != f["src"]: bad("source", "the source was changed")
            if "exc" in q:
                ctx.count("exceptions_raised")
                if q["exc"][0] == "SystemError": bad("system-error", "%s: %s" % tuple(q["exc"]))
                if f["must"]:
                    if o is not None: bad("target", "the target was written although the arguments are refused")
                    if q["events"]: bad("callback", "the callback was called although the arguments are refused")
                elif "on_progress_received=" not in f["what"]: bad("exception", "ConvertFile raises %s: %s" % tuple(q["exc"]))
            else:
                if f["must"]: bad("accepted", "the call succeeds")
                v = q["result"]
                ctx.count("conversions")
                if f.get("fails") and (v["success"] or not (v["message"] or v["is_cancelled"])) and not ("full" in f["what"] and (v["is_cancelled"] or not f["size"])): bad("silent", "success=%r message=%r" % (v["success"], v["message"]))
                if q["refs_result"][1] > 3: bad("references", "the progress of the result has %d references" % q["refs_result"][1])
            for kk, (b, a) in (q.get("refs") or {}).items():
                bad("references", "references of %s go from %d to %d" % (kk, b, a))
            if q.get("logbad"): bad("log", "log messages that are no strings")
        for x in ("n", "m"):
            q = R.get(x)
            if q is not None and "crash" in q: ctx.violation("crash", "%s: ConvertFile without a dictionary: %s" % (tag, q["crash"]), {})
            elif q is not None and ("exc" not in q or q["exc"][0] == "SystemError"): ctx.violation("accepted", "%s: ConvertFile without a dictionary: %s" % (tag, q.get("exc")), {})
        q = R.get("good")
        if q is not None and (q.get("crash") or "exc" in q or not q["result"]["success"] or not g or b"\nG3" not in g): ctx.violation("aftermath", "%s: an ordinary conversion after hostile calls fails: %s" % (tag, q.get("crash") or q.get("exc") or q["result"]), {})
        for rc, err in ends:
            for m in ("runtime error", "ERROR: AddressSanitizer", "AddressSanitizer:", "Fatal Python error"):
                if m in err: ctx.violation("sanitizer", "%s: %s" % (tag, err[max(0, err.index(m) - 200):][:1200]), {}); break

def eval_id(j): return j.split("'", 4)[3] if isinstance(j, str) else j["id"]

def gccasan():
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    q = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    c = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE).stdout.decode().strip()
    return {"LD_PRELOAD": " ".join(os.path.realpath(x) for x in (p, q, c)), "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0", "PYTHONMALLOC": "malloc"}

def c30(ctx):
    build.build("rel", ["PyArcWelder"]); so = build.exe("rel", "py")
    drv = build.driver("rel", "weld_driver")
    root = weldrun.scratch("vf_c30_")
    try:
        hostile_sweep(ctx, so, root, ctx.scale(3000, 40000), "h", pyargs=("-X", "dev", "-W", "ignore"))
        build.build("pyasan", ["PyArcWelder"]); sa = build.exe("pyasan", "py")
        hostile_sweep(ctx, sa, root, ctx.scale(720, 12000), "asan", env=gccasan(), san=True)
        together(ctx, so, drv, root)
        together(ctx, sa, drv, root, env=gccasan(), n=ctx.scale(4, 40), tag="asan")
        growth(ctx, so, root)
        ctx.rule = "Calls with hostile dictionaries and callbacks, nested and concurrent conversions, repeated conversions; distinct by hostile entry and callback."
        ctx.need("too few calls", ctx.cov.get("hostile_calls", 0) > 2000)
        ctx.need("no overlap", ctx.cov.get("conversions_at_once", 0) >= 2)
    finally:
        shutil.rmtree(root, ignore_errors=True)

def together(ctx, so, drv, root, env=None, n=None, tag=""):
    """conversions inside the callback of another one, and in several threads: each gives what it gives alone"""
    n = n or ctx.scale(24, 300)
    def one(k):
        r = random.Random("C30t|%s|%s%d" % (ctx.seed, tag, k))
        w = os.path.join(root, "t%s%d" % (tag, k)); os.makedirs(w)
        lib, J = [], []
        def job(id, cb):
            c = profiles.general(r) if r.random() < 0.7 else None
            data = c.data if c else content(r); o = c.opts if c else dict(gen.DEFAULT_OPTS)
            src = os.path.join(w, id); tools.put(src, data)
            a = {"guid": id, "source_path": src, "target_path": src + ".py", "log_level": r.choice(LEVELS)}
            a.update({KEY[q]: o[q] for q in KEY})
            lib.append(dict({"id": id, "src": src, "dst": src + ".lib"}, **{q: o[q] for q in weldrun.OPTKEYS}))
            return {"id": id, "args": a, "cb": cb}
        for q in range(4):
            inner = job("i%d" % q, [True])
            if r.random() < 0.4: inner["cb"] = [("nested", job("ii%d" % q, [True]))]
            J.append(job("o%d" % q, [("nested", inner), True, True]))
        nt = r.choice([2, 4, 8])
        J.append({"id": "threads", "n": nt, "threads": [job("t%d" % q, r.choice([[("sleep", 0.002)], [("gc",)], [True], [("burn", 0.003, True)]])) for q in range(nt * 3)]})
        L = weldrun.run_driver(drv, lib, w)
        R, end = drive(so, J, w, env=env)
        files = {j["id"]: (tools.read(j["dst"]), tools.read(os.path.join(w, j["id"]) + ".py")) for j in lib}
        shutil.rmtree(w)
        return k, L, R, end, files
    for k, L, R, end, files in tools.pmap(one, range(n), workers=8):
        ctx.evaluations += 1
        for m in ("runtime error", "ERROR: AddressSanitizer", "Fatal Python error"):
            if m in end[1]: ctx.violation("sanitizer", "%s: %s" % (tag, end[1][max(0, end[1].index(m) - 200):][:1200]), {}); break
        flat = []
        for q in R.values():
            if "crash" in q: ctx.violation("crash", "nested or concurrent conversions: " + q["crash"], {"run": k}); continue
            stack = [q] + list(q.get("results", []))
            while stack:
                x = stack.pop(); flat.append(x); stack += x.get("nested") or []
            if "overlap" in q: ctx.cov["conversions_at_once"] = max(ctx.cov.get("conversions_at_once", 0), q["overlap"])
        for x in flat:
            if x["id"] == "threads": continue
            a, b = files.get(x["id"], (None, None)); d = L[x["id"]]
            if d.get("crash") or not d.get("success"): continue
            rep = {"run": k, "job": x["id"]}
            if "exc" in x or not x["result"]["success"]: ctx.violation("together", "conversion %s fails next to others: %s" % (x["id"], x.get("exc") or x["result"]["message"]), rep); continue
            if unversioned(a) != unversioned(b): ctx.violation("together", "conversion %s (nested or in a thread) writes another file than alone" % x["id"], rep)
            def bad(kk, m): ctx.violation("together", "conversion %s: %s" % (x["id"], m), rep)
            progress_is(x["result"]["progress"], d, x["id"], True, bad)
            for e in x["events"]:
                if e.get("guid") != x["id"]: bad("guid", "a report of conversion %r" % e.get("guid"))
            ctx.count("nested_or_concurrent_conversions"); ctx.distinct.add(("t", k, x["id"]))

def unversioned(d):
    """without the build date in the header: the sanitized module is built later than the library"""
    return d and b"\n".join(l for l in d.split(b"\n") if not l.startswith(b"; Version:"))

def growth(ctx, so, root):
    """nothing piles up over many conversions"""
    w = os.path.join(root, "g"); os.makedirs(w)
    src = os.path.join(w, "s"); tools.put(src, ("M83\nG1 X0 Y0 Z0.2 F1800\n" + ARC[:600]).encode())
    n = ctx.scale(6000, 90000)
    ok = {"guid": "g" * 50, "source_path": src, "target_path": src + ".o"}
    kinds = {"success": (ok, [True]), "cancelled": (ok, [False]), "exception in the callback": (ok, [("raise", "V")]), "source missing": (dict(ok, source_path=src + ".x"), [True]),
             "refused": ({k: v for k, v in ok.items() if k != "target_path"}, [True]), "odd entries": (dict(ok, resolution_mm="x", min_arc_segments="y", allow_3d_arcs=[]), [True]), "verbose": (dict(ok, log_level=5), [True])}
    J = [{"id": k, "args": a, "cb": cb, "repeat": n if k != "verbose" else n // 4} for k, (a, cb) in kinds.items()]
    def one(j):
        d = os.path.join(w, "d%d" % J.index(j)); os.makedirs(d)
        return drive(so, [dict(j, args=dict(j["args"], target_path=os.path.join(d, "o")) if "target_path" in j["args"] else j["args"])], d)[0]
    for x in tools.pmap(one, J):
        for q in x.values():
            ctx.evaluations += 1
            if "crash" in q: ctx.violation("crash", "%s, repeated: %s" % (q["id"], q["crash"]), {}); continue
            ctx.count("repeated_conversions", q["n"])
            ctx.cov.setdefault("growth", {})[q["id"]] = {"calls": q["n"], "python_objects": q["blocks"], "kilobytes": q["rss"]}
            if q["blocks"] > q["n"] // 3: ctx.violation("leak", "%s: %d more Python objects in %d conversions" % (q["id"], q["blocks"], q["n"]), {})
            if q["rss"] > 1000 + q["n"] * 0.05: ctx.violation("leak", "%s: %d kB more in %d conversions" % (q["id"], q["rss"], q["n"]), {})
