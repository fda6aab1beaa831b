"""C15: the ArcWelder command line.  C16: the result depends on the source and the configuration alone."""
import os, random, re, shutil
import build, tools, weldrun, gen, profiles

LONG = {"-r": "--resolution-mm", "-t": "--path-tolerance-percent", "-m": "--max-radius-mm", "-a": "--min-arc-segments", "-s": "--mm-per-arc-segment", "-z": "--allow-3d-arcs",
        "-y": "--allow-travel-arcs", "-d": "--allow-dynamic-precision", "-x": "--default-xyz-precision", "-e": "--default-e-precision", "-v": "--extrusion-rate-variance-percent",
        "-c": "--max-gcode-length", "-g": "--g90-influences-extruder", "-p": "--progress-type", "-l": "--log-level"}
KEY = {"res": "-r", "tol": "-t", "rad": "-m", "mas": "-a", "mm": "-s", "xp": "-x", "ep": "-e", "var": "-v", "mgl": "-c"}
FLAG = {"g90": "-g", "z3d": "-z", "trav": "-y", "dyn": "-d"}

def number(r, v):
    """spellings of a number"""
    if isinstance(v, int): return r.choice(["%d", "%d", "%d", "+%d", "0%d"]) % v
    s = r.choice([repr(v), repr(v), "%.6f" % v, "%e" % v, "+" + repr(v), "0" + repr(v)])
    if float(s) != v: s = repr(v)
    if s.startswith("0.") and r.random() < 0.2: s = s[1:]
    return s

def options(r, o, exclude=()):
    """-> list of arguments that spell the configuration, in any order"""
    D = gen.DEFAULT_OPTS
    a = []
    flags = []
    for k, opt in KEY.items():
        if k in exclude: continue
        if o[k] != D[k] or r.random() < 0.25:
            name = LONG[opt] if r.random() < 0.4 else opt
            a.append("%s=%s" % (name, number(r, o[k])))
    for k, opt in FLAG.items():
        if o[k] and k not in exclude: flags.append(opt)
    r.shuffle(flags)
    if len(flags) > 1 and r.random() < 0.4: a.append("-" + "".join(f[1] for f in flags))
    else: a += [LONG[f] if r.random() < 0.4 else f for f in flags]
    if r.random() < 0.6: a.append((LONG["-p"] if r.random() < 0.4 else "-p") + "=" + r.choice(["NONE", "SIMPLE", "FULL"]))
    if r.random() < 0.4: a.append((LONG["-l"] if r.random() < 0.4 else "-l") + "=" + r.choice(["NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]))
    r.shuffle(a)
    return a

def wide_opts(r):
    """any value the documentation allows, not only the usual ones"""
    o = gen.gen_opts(r)
    if r.random() < 0.3: o["res"] = r.choice([1e-6, 0.001, 0.003, 1.0, 10.0, 0.1234567])
    if r.random() < 0.3: o["tol"] = r.choice([1e-9, 0.0005, 0.000999, 0.001, 0.0011, 0.25, 0.251, 0.26, 0.9, 0.999999, 0.333])
    if r.random() < 0.3: o["rad"] = r.choice([0.001, 0.5, 9999.0, 10000.0, 999999.0, 1e6, 1000001.0, 1000100.0, 1e12])
    if r.random() < 0.3: o["var"] = r.choice([0.0, 1e-9, 1.0, 100.0])
    if r.random() < 0.3: o["mgl"] = r.choice([0, 31, 32, 1000, 2147483647])
    if r.random() < 0.3: o["mm"] = r.choice([1e-6, 0.01, 1000.0]); o["mas"] = r.choice([1, 1000, 2147483647])
    return o

BAD = {
    "-r": ["0", "-0.05", "-1", "abc", "", "nan", "inf", "0.05x", "0,05", "1e999"],
    "-t": ["0", "-0.1", "1", "1.0", "1.5", "5", "abc", "nan", "inf", "-inf", "5%"],
    "-m": ["0", "-5", "x", "nan", "inf"],
    "-v": ["-0.01", "-1", "abc", "nan", "-inf"],
    "-c": ["-1", "1", "10", "29", "30", "abc", "50.5", "99999999999"],
    "-x": ["0", "1", "2", "7", "8", "255", "256", "259", "262", "65539", "4294967299", "-1", "-3", "3.5", "abc", ""],
    "-e": ["0", "1", "2", "7", "10", "256", "260", "261", "4294967301", "-1", "-5", "4.1", "abc"],
    "-p": ["BOGUS", "none", "", "0"],
    "-l": ["BOGUS", "info", "", "20"],
}
BADSETS = [["-s=-1", "-a=12"], ["-s=1", "-a=-12"], ["-s=1"], ["-a=12"], ["-s=1", "-a=0"], ["-s=0", "-a=12"], ["-s=nan", "-a=12"], ["-s=abc", "-a=12"], ["-s=1", "-a=1.5"], ["-s=1", "-a=99999999999"],
           ["-q"], ["--bogus"], ["--bogus=1"], ["-g=1"], ["--allow-3d-arcs=1"], ["-r=0.05", "-r=0.1"], ["-g", "-g"], ["-zz"], ["-z", "-z"], ["-zq"], ["--resolution-m=0.05"], ["-r"], ["--resolution-mm"]]

WARN = re.compile(r"^warning: The provided path (max radius|tolerance percent) of ([-+.0-9e]+)(?:mm)? is (greater|less) than ([.0-9]+)", re.M)

def warned(out):
    """the warnings as (setting, value, what about it, limit); a value is printed with six digits"""
    return sorted((a, b, c, float(d)) for a, b, c, d in WARN.findall(out)) + (["other"] * (len(re.findall("^warning:", out, re.M)) - len(WARN.findall(out))))

def unwise(o):
    L = []
    if o["rad"] > 1e6: L.append(("max radius", "%g" % o["rad"], "greater", 1e6))
    if o["tol"] > 0.25: L.append(("tolerance percent", "%g" % o["tol"], "greater", 0.25))
    elif o["tol"] < 0.001: L.append(("tolerance percent", "%g" % o["tol"], "less", 0.001))
    return L

def c15(ctx):
    build.build("rel", ["ArcWelderConsole"])
    drv = build.driver("rel", "weld_driver"); exe = build.exe("rel", "weld")
    r = random.Random("C15|%s" % ctx.seed)
    root = weldrun.scratch("vf_c15_")
    try:
        n = ctx.scale(1500, 15000)
        # what the library makes of each configuration
        jobs, cases = [], []
        for i in range(n):
            o = wide_opts(r)
            kw = dict(interruptions=None) if False else {}
            c = profiles.general(r, force=o, **kw)
            o = c.opts
            d = os.path.join(root, "c%d" % i); os.makedirs(d)
            name = r.choice(["a.gcode", "my file.gcode", "t\u00e9st \u2713.gcode", "a=b.gcode", "x;y.gco", "noext", "'q\".g", "a..b.gcode"])
            src = os.path.join(d, name); tools.put(src, c.data)
            exp = os.path.join(root, "e%d" % i)
            jobs.append(dict({"id": "j%d" % i, "src": src, "dst": exp, "nocb": 1}, **{k: o[k] for k in weldrun.OPTKEYS}))
            args = options(r, o)
            mode = r.choice(["target", "target", "target", "in place", "overwrite"])
            files = [name] if mode == "in place" else [name, "out.gcode"]
            if mode == "overwrite": tools.put(os.path.join(d, "out.gcode"), b"old\n" * r.choice([1, 100000]))
            # options may come before, between and after the file names
            mixed = list(args)
            pos = sorted(r.randint(0, len(mixed)) for _ in files)
            for k, f in enumerate(files): mixed.insert(pos[k] + k, f)
            if r.random() < 0.1: mixed = args + ["--"] + files
            cases.append((d, mixed, name, mode, c.data, exp, o))
        step = max(1, n // 8)
        parts = [jobs[i:i + step] for i in range(0, n, step)]
        def drive(k):
            w = os.path.join(root, "w%d" % k); os.makedirs(w)
            return weldrun.run_driver(drv, parts[k], w)
        for R in tools.pmap(drive, range(len(parts))):
            for x in R.values():
                if x.get("crash") or not x.get("success"): ctx.violation("library", "the conversion itself fails: %s" % {k: x.get(k) for k in ("crash", "message", "stderr")})
        def go(c):
            d, args, name, mode, data, exp, o = c
            rc, out = tools.run(exe, args, d)
            want = tools.read(exp)
            got = tools.read(os.path.join(d, name if mode == "in place" else "out.gcode"))
            v = None
            w = "ArcWelder %s" % " ".join(args)
            if rc != 0: v = ("rejected", "%s: exit %s: %s" % (w, rc, out[-400:]))
            elif got != want: v = ("option-lost", "%s: the output differs from the conversion with these settings (%s): %s" % (w, {k: x for k, x in o.items() if x != gen.DEFAULT_OPTS[k]}, diff(got, want)))
            elif mode != "in place" and tools.read(os.path.join(d, name)) != data: v = ("source-changed", w)
            elif warned(out) != unwise(o): v = ("warning", "%s: warns of %s, unwise are %s" % (w, warned(out), unwise(o)))
            elif sorted(os.listdir(d)) != sorted({name} if mode == "in place" else {name, "out.gcode"}): v = ("leftover", "%s leaves %s" % (w, os.listdir(d)))
            shutil.rmtree(d)
            return v, got is not None and b"\nG2 " in got or b"\nG3 " in (got or b"")
        for c, (v, arcs) in zip(cases, tools.pmap(go, cases)):
            ctx.eval(tuple(sorted(re.sub("=.*", "", a) for a in c[1])) + (c[3],))
            ctx.count("valid_command_lines"); ctx.count("options_given", len(c[1])); ctx.count("with_arcs", int(bool(arcs))); ctx.count("unwise_settings", len(unwise(c[6])))
            if v: ctx.violation(v[0], v[1], {"args": c[1], "data": c[4]})
        ctx.need("hardly any arcs", ctx.cov["with_arcs"] > n // 3)
        bad(ctx, exe, root, r)
        info(ctx, exe, root)
        ctx.rule = "One run of the program per command line; distinct by the set of options spelled and the naming of the files."
    finally:
        shutil.rmtree(root, ignore_errors=True)

def diff(a, b):
    if a is None or b is None: return "missing"
    A, B = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(A, B)):
        if x != y: return "line %d %r instead of %r" % (i + 1, x[:80], y[:80])
    return "%d lines instead of %d" % (len(A), len(B))

def bad(ctx, exe, root, r):
    """an invalid command line is refused before anything is written"""
    data = profiles.general(r).data
    sets = [(["%s=%s" % (o if k % 2 else LONG[o], v)], "%s=%s" % (o, v)) for o, vs in BAD.items() for v in vs for k in (0, 1)]
    sets += [(list(s), " ".join(s)) for s in BADSETS]
    # an invalid option among valid ones
    for _ in range(ctx.scale(120, 1500)):
        o = r.choice(sorted(BAD)); v = r.choice(BAD[o])
        k = [a for a, b in KEY.items() if b == o]
        good = [a for a in options(r, wide_opts(r), k) if not a.startswith((o + "=", LONG[o] + "="))]
        good.insert(r.randint(0, len(good)), "%s=%s" % (r.choice([o, LONG[o]]), v)); sets.append((good, o))
    def go(t):
        i, (args, key) = t
        d = os.path.join(root, "b%d" % i); os.makedirs(d)
        inplace = i % 3 == 0
        tools.put(os.path.join(d, "a.gcode"), data)
        if i % 3 == 1: tools.put(os.path.join(d, "out.gcode"), b"precious")
        rc, out = tools.run(exe, args + ["a.gcode"] + ([] if inplace else ["out.gcode"]), d)
        w = "ArcWelder %s" % " ".join(args)
        v = None
        if rc == 0: v = ("accepted", "%s: exit 0" % w)
        elif rc == "hang" or rc < 0 or rc > 2: v = ("crash", "%s: exit %s: %s" % (w, rc, out[-300:]))
        elif tools.read(os.path.join(d, "a.gcode")) != data: v = ("source-changed", w)
        elif tools.read(os.path.join(d, "out.gcode")) != (b"precious" if i % 3 == 1 else None): v = ("target-written", w)
        elif sorted(os.listdir(d)) != (["a.gcode", "out.gcode"] if i % 3 == 1 else ["a.gcode"]): v = ("leftover", w)
        elif not out.strip(): v = ("silent", "%s: refused without a message" % w)
        shutil.rmtree(d)
        return v
    for (args, key), v in zip(sets, tools.pmap(go, list(enumerate(sets)))):
        ctx.eval(("bad", key)); ctx.count("invalid_command_lines")
        if v: ctx.violation(v[0], v[1], {"args": args})
    for args in ([], ["-g"], ["a.gcode", "b.gcode", "c.gcode"], ["a.gcode", "b.gcode", "-g", "c.gcode"], ["missing.gcode"], ["missing.gcode", "b.gcode"], [""], ["", "b.gcode"]):
        d = os.path.join(root, "m"); os.makedirs(d); tools.put(os.path.join(d, "a.gcode"), data)
        rc, out = tools.run(exe, args, d)
        ctx.eval(("files", len(args))); ctx.count("invalid_command_lines")
        if rc == 0: ctx.violation("accepted", "ArcWelder %r: exit 0" % args)
        elif rc == "hang" or rc < 0 or rc > 2: ctx.violation("crash", "ArcWelder %r: exit %s: %s" % (args, rc, out[-300:]))
        if os.listdir(d) != ["a.gcode"] or tools.read(os.path.join(d, "a.gcode")) != data: ctx.violation("target-written", "ArcWelder %r leaves %s" % (args, os.listdir(d)))
        shutil.rmtree(d)

def info(ctx, exe, root):
    for a in ("-h", "--help", "--version"):
        rc, out = tools.run(exe, [a], root)
        ctx.eval(a)
        if rc != 0 or not out.strip(): ctx.violation("help", "%s: exit %s, %d bytes" % (a, rc, len(out)))

# ---------------------------------------------------------------- C16
def c16(ctx):
    build.build("rel", ["ArcWelderConsole"])
    drv = build.driver("rel", "weld_driver"); exe = build.exe("rel", "weld")
    r = random.Random("C16|%s" % ctx.seed)
    root = weldrun.scratch("vf_c16_")
    FIELDS = ("success", "cancelled", "message", "lines", "gcodes", "pts", "arcs", "flow", "fw", "mglx", "ssz", "tsz", "pos", "ratio", "cpct", "seg", "ret", "trv")
    try:
        n = ctx.scale(700, 8000)
        base = []
        for i in range(n):
            c = profiles.general(r)
            src = os.path.join(root, "s%d" % i); tools.put(src, c.data)
            base.append((c, src))
        def variant(name, fix, order=None, env=None, inplace=False):
            idx = list(range(n))
            if order: order(idx)
            step = (n + 7) // 8
            parts = [idx[k:k + step] for k in range(0, n, step)]
            def drive(k):
                w = os.path.join(root, "w_%s_%d" % (name, k)); os.makedirs(w)
                jobs = []
                for i in parts[k]:
                    c, src = base[i]
                    dst = os.path.join(w, "o%d" % i)
                    s = src
                    if inplace: tools.put(dst, c.data); s = dst
                    j = {"id": "j%d" % i, "src": s, "dst": dst}
                    j.update({q: c.opts[q] for q in weldrun.OPTKEYS}); j.update(fix(i, k) if fix else {})
                    jobs.append(j)
                R = weldrun.run_driver(drv, jobs, w, env=env, timeout=180)
                out = {}
                for j in jobs:
                    out[int(j["id"][1:])] = (tools.read(j["dst"]), R[j["id"]])
                shutil.rmtree(w)
                return out
            res = {}
            for p in tools.pmap(drive, range(len(parts))): res.update(p)
            return res
        ref = variant("ref", None)
        narcs = sum(x[1].get("arcs", 0) for x in ref.values() if not x[1].get("crash"))
        rr = random.Random(ctx.seed)
        sizes = [2, 3, 5, 10, 50, 51, 200, 1000]
        plan = [("again", None, None, None, False),
                ("reversed order", None, lambda l: l.reverse(), None, False),
                ("shuffled order", None, rr.shuffle, None, False),
                ("verbose log", lambda i, k: {"log": 5}, None, None, False),
                ("info log", lambda i, k: {"log": 20}, None, None, False),
                ("debug log", lambda i, k: {"log": 10}, None, None, False),
                ("buffer sizes", lambda i, k: {"buf": sizes[i % len(sizes)]}, None, None, False),
                ("frequent reports", lambda i, k: {"notif": 0.0}, None, None, False),
                ("no callback", lambda i, k: {"nocb": 1}, None, None, False),
                ("poisoned heap", None, None, {"MALLOC_PERTURB_": "165"}, False),
                ("other poison", None, None, {"MALLOC_PERTURB_": "90", "MALLOC_ARENA_MAX": "1"}, False),
                ("no small bins", None, None, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0", "MALLOC_PERTURB_": "7"}, False),
                ("other time zone and language", None, None, {"LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo"}, False),
                ("in place", None, None, None, True)]
        for name, fix, order, env, inplace in plan:
            got = variant(name.replace(" ", "_"), fix, order, env, inplace)
            ctx.count("repetitions", len(got))
            for i in range(n):
                a, ra = ref[i]; b, rb = got[i]
                ctx.eval((name, i % 50))
                if ra.get("crash") or rb.get("crash"):
                    ctx.violation("crash", "%s: %s" % (name, (ra.get("crash"), rb.get("crash"), (rb.get("stderr") or "")[-300:]))); continue
                if a != b: ctx.violation("output-differs", "%s: output differs from the first conversion: %s" % (name, diff(b, a)), {"data": base[i][0].data, "opts": base[i][0].opts, "variant": name})
                d = [f for f in FIELDS if str(ra.get(f)) != str(rb.get(f))]
                if d: ctx.violation("result-differs", "%s: reported %s differ: %s and %s" % (name, d, [ra.get(f) for f in d], [rb.get(f) for f in d]), {"data": base[i][0].data, "opts": base[i][0].opts, "variant": name})
                if len(rb.get("ev", [])) and name != "frequent reports" and [e[6:] for e in rb["ev"]][-1] != [e[6:] for e in ra["ev"]][-1]: ctx.violation("result-differs", "%s: last report differs" % name)
        # converting twice gives the same header but an arc is not converted again: covered by C32
        ctx.count("arcs_compared", narcs * len(plan))
        ctx.need("no arcs", narcs > n)
        ctx.rule = "Each generated conversion is repeated under %d changed circumstances (%s) and compared byte for byte, results included." % (len(plan), ", ".join(p[0] for p in plan))
    finally:
        shutil.rmtree(root, ignore_errors=True)
