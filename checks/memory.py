"""C18: the converter on arbitrary input under AddressSanitizer, UndefinedBehaviorSanitizer, valgrind and a coverage-guided fuzzer."""
import glob, hashlib, math, os, random, re, shutil, subprocess
import build, proc, tools, weldrun, gen, profiles, hostile
from checks import cli

def judge(ctx, name, x, data, opts):
    if x.get("skipped"): return
    if x.get("crash"):
        ctx.violation("crash" if x["crash"] != "hang" else "hang", "%s: %s: %s" % (name, x["crash"], tidy(x.get("stderr") or "")), {"data": data, "opts": opts, "what": name})
    elif not x.get("success"):
        ctx.violation("failed", "%s: conversion reports failure: %s" % (name, x.get("message")), {"data": data, "opts": opts})

def tidy(e):
    k = max(e.find("ERROR: AddressSanitizer"), 0)
    m = re.search(r"[^\n]*runtime error[^\n]*", e)
    return (m.group(0) + "\n" if m else "") + e[k:k + 1500]

def batch(exe, cases, root, tag, env=None, timeout=120):
    """-> results in order"""
    step = max(1, (len(cases) + 31) // 32)
    def drive(k):
        w = os.path.join(root, "%s_%d" % (tag, k)); os.makedirs(w)
        jobs = []
        for i in range(k, min(k + step, len(cases))):
            data, o, extra = cases[i]
            src = os.path.join(w, "s%d" % i); tools.put(src, data)
            j = {"id": "j%d" % i, "src": src, "dst": os.path.join(w, "o%d" % i)}
            j.update({q: o[q] for q in weldrun.OPTKEYS}); j.update(extra); jobs.append(j)
        R = weldrun.run_driver(exe, jobs, w, env=env, timeout=timeout)
        shutil.rmtree(w)
        return [R[j["id"]] for j in jobs]
    out = []
    for p in tools.pmap(drive, range(0, len(cases), step)): out += p
    return out

def fuzz(ctx, exe, root, seeds, secs, maxlen, dic, workers=8):
    """coverage-guided search from a corpus of generated inputs"""
    corpus = os.path.join(root, "corpus"); os.makedirs(corpus)
    for i, s in enumerate(seeds): tools.put(os.path.join(corpus, "s%d" % i), s[:maxlen])
    dp = os.path.join(root, "dict"); tools.put(dp, "\n".join('"%s"' % d for d in dic).encode())
    def one(k):
        d = os.path.join(root, "fz%d" % k); own = os.path.join(d, "new"); os.makedirs(own)
        e = tools.sanitize_env(dict(os.environ)); e["FUZZ_DIR"] = d
        try:
            p = subprocess.run([exe, own, corpus, "-seed=%d" % (ctx.seed * 100 + k), "-max_total_time=%d" % secs, "-max_len=%d" % maxlen, "-timeout=25", "-rss_limit_mb=3000", "-dict=" + dp, "-artifact_prefix=" + d + "/", "-print_final_stats=1"],
                               cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 120)
            return p.returncode, p.stderr.decode("latin-1"), glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*")
        except subprocess.TimeoutExpired:
            return "late", "", []
    for rc, err, arts in tools.pmap(one, range(workers), workers):
        m = re.search(r"stat::number_of_executed_units: (\d+)", err)
        ctx.count("fuzz_executions", int(m.group(1)) if m else 0)
        ctx.evaluations += int(m.group(1)) if m else 0
        c = re.findall(r" cov: (\d+) ft: (\d+)", err)
        if c: ctx.maxi("fuzz_edges", int(c[-1][0])); ctx.maxi("fuzz_features", int(c[-1][1]))
        for a in arts:
            data = tools.read(a)
            if "timeout-" in a or "oom-" in a:
                # only what also fails alone counts
                rc2, out = tools.run(exe, [a], root, {"FUZZ_DIR": root}, timeout=60)
                if rc2 == 0: continue
            ctx.violation("fuzz-" + os.path.basename(a).split("-")[0], tidy(err[max(0, err.find("==")):]), {"bytes": data.hex()})

DICT = ["G0", "G1", "G2", "G3", "G90", "G91", "G92", "G28", "G10", "G11", "G20", "G21", "M82", "M83", "M207", "M208", "M218", "T1", "T?", "M117", "@OCTOLAPSE", "X", "Y", "Z", "E", "F", ";", "\\x0a", "\\x0d\\x0a", ";FLAVOR:UltiGCode", "; generated by PrusaSlicer", " I", " J", "99999999999", ".000001"]

def deep(ctx, exe, root, sets, what):
    """a million lines, large counts and an arc of many moves: numbers of seven digits and more everywhere"""
    src = os.path.join(root, "deep.gcode"); n = ctx.scale(900000, 9000000); m = ctx.scale(110000, 1100000)
    with open(src, "w") as f:
        f.write("G90\nM83\nG1 X150 Y100 Z0.2 F3000\n"); f.write("\n" * n)
        for k in range(m): f.write("G1 X%d Y%d E%s\n" % (100 + k % 3 * 7, 100 + k % 2 * 9, "-5" if k % 10 == 9 else "1"))
        for part in range(3):
            f.write("G1 X150 Y100 E1\n")
            for k in range(1, 12001): f.write("G1 X%.3f Y%.3f E0.0%d\n" % (100 + 50 * math.cos(k / 2000.0), 100 + 50 * math.sin(k / 2000.0), 5 - part))
            f.write("G1 X150 Y100 E1\nG3 X50 Y100 I-50 J0 E1\nG2 X150 Y100 R50\n")
    def one(args):
        d = os.path.join(root, "deep%d" % sets.index(args)); os.makedirs(d)
        with open(os.path.join(d, "err"), "wb") as e:
            try: rc = proc.run([exe] + args + [src, os.path.join(d, "out")], stdout=subprocess.DEVNULL, stderr=e, env=tools.sanitize_env(dict(os.environ)), timeout=ctx.scale(300, 3000)).returncode
            except subprocess.TimeoutExpired: rc = "hang"
        err = (tools.read(os.path.join(d, "err")) or b"")[-4000:].decode("latin-1"); size = os.path.getsize(os.path.join(d, "out")) if os.path.exists(os.path.join(d, "out")) else 0
        shutil.rmtree(d)
        return args, rc, err, size
    for args, rc, err, size in tools.pmap(one, sets):
        ctx.eval(("deep", tuple(args))); ctx.count("lines_of_long_files", n + m)
        if rc != 0 or "runtime error" in err or "AddressSanitizer" in err or size < n:
            ctx.violation("hang" if rc == "hang" else "crash", "%s %s on %d lines: exit %s, %d bytes written: %s" % (what, " ".join(args), n + m + 36000, rc, size, tidy(err)), {"args": args})
    os.unlink(src)

def c18(ctx):
    asan = build.driver("asan", "weld_driver"); dbg = build.driver("dbg", "weld_driver")
    fz = build.driver("fuzz", "weld_fuzz", extra_flags=("-fsanitize=fuzzer",))
    build.build("asan", ["ArcWelderConsole"])
    r = random.Random("C18|%s" % ctx.seed)
    root = weldrun.scratch("vf_c18_")
    try:
        cases = [hostile.case(r) for _ in range(ctx.scale(4000, 60000))]
        cases += [(c.data, c.opts, c.extra) for c in (profiles.general(r) for _ in range(ctx.scale(800, 8000)))]
        for (data, o, extra), x in zip(cases, batch(asan, cases, root, "asan")):
            ctx.eval(hashlib.md5(data).hexdigest() if x.get("gcodes") else None)
            ctx.count("bytes_converted", len(data)); ctx.count("gcodes_converted", x.get("gcodes", 0)); ctx.count("arcs_created", x.get("arcs", 0))
            judge(ctx, "AddressSanitizer/UBSan", x, data, o)
        # uninitialised memory: the shipped optimisation level under valgrind
        cases = [hostile.case(r) for _ in range(ctx.scale(120, 1500))] + [(c.data, c.opts, c.extra) for c in (profiles.general(r) for _ in range(ctx.scale(120, 1500)))]
        step = (len(cases) + 7) // 8
        def vg(k):
            w = os.path.join(root, "vg%d" % k); os.makedirs(w)
            with open(os.path.join(w, "jobs"), "w") as f:
                for i in range(k, min(k + step, len(cases))):
                    data, o, extra = cases[i]; src = os.path.join(w, "s%d" % i); tools.put(src, data)
                    j = dict({"id": "j%d" % i, "src": src, "dst": os.path.join(w, "o%d" % i)}, **{q: o[q] for q in weldrun.OPTKEYS}); j.update(extra)
                    f.write("\t".join("%s=%s" % (a, repr(b) if isinstance(b, float) else b) for a, b in j.items()) + "\n")
            rc, out = tools.run("valgrind", ["-q", "--error-exitcode=9", "--track-origins=no", "--leak-check=no", "--exit-on-first-error=yes", dbg, "jobs", "res"], w, timeout=600)
            res = (tools.read(os.path.join(w, "res")) or b"").decode("latin-1")
            begun = re.findall(r"^BEGIN j(\d+)", res, re.M)
            return rc, out, len(re.findall(r'^\{"id"', res, re.M)), int(begun[-1]) if begun else None
        for rc, out, done, last in tools.pmap(vg, range(0, len(cases), step)):
            ctx.count("conversions_under_valgrind", done); ctx.eval(("valgrind", last), done)
            if rc: ctx.violation("valgrind" if rc == 9 else "crash", "valgrind: exit %s: %s" % (rc, out[:2500]), {"data": cases[last][0], "opts": cases[last][1]} if last is not None else None)
        # the program itself: any arguments, any file
        exe = build.exe("asan", "weld")
        def prog(i):
            rr = random.Random("C18p|%s|%d" % (ctx.seed, i))
            d = os.path.join(root, "p%d" % i); os.makedirs(d)
            data, o, _ = hostile.case(rr); tools.put(os.path.join(d, "a.gcode"), data)
            args = cli.options(rr, o)
            if i % 2: args += [rr.choice(sorted(cli.LONG)) + "=" + rr.choice([hostile.number(rr), "", "x" * 3000, "%s%n", "\u00e9"]) for _ in range(rr.randint(1, 3))]
            rr.shuffle(args)
            args += ["a.gcode"] + rr.choice([[], ["b.gcode"], ["a.gcode"]])
            rc, out = tools.run(exe, args, d)
            shutil.rmtree(d)
            return rc, out, args, data
        for rc, out, args, data in tools.pmap(prog, range(ctx.scale(400, 4000))):
            ctx.eval(("program", rc, len(args))); ctx.count("program_runs")
            if rc not in (0, 1) or "runtime error" in out or "AddressSanitizer" in out:
                ctx.violation("hang" if rc == "hang" else "crash", "ArcWelder %s: exit %s: %s" % (" ".join(args), rc, tidy(out)), {"args": args, "data": data})
        deep(ctx, exe, root, [["-l=DEBUG"], ["-l=VERBOSE", "-y", "-z", "-p=NONE"], ["-l=INFO", "-d"]], "ArcWelder")
        seeds = []
        for _ in range(400):
            data, o, _ = hostile.case(r); seeds.append(bytes(r.randint(0, 255) for _ in range(4)) + data[:3000])
        for _ in range(200): seeds.append(bytes(r.randint(0, 255) for _ in range(4)) + profiles.general(r).data[:4000])
        fuzz(ctx, fz, root, seeds, ctx.scale(15, 400), 4096, DICT)
        ctx.need("valgrind ran nothing", ctx.cov.get("conversions_under_valgrind", 0) > 100)
        ctx.need("the fuzzer ran nothing", ctx.cov.get("fuzz_executions", 0) > 1000)
        ctx.rule = "Conversions of mutated programs, garbage, extreme magnitudes and ordinary programs; distinct by content among those that contain at least one g-code. Plus executions of the coverage-guided fuzzer (fuzz_executions, fuzz_edges reached)."
    finally:
        shutil.rmtree(root, ignore_errors=True)
