"""Checks of the welder that judge (source, output, reported results) triples of generated conversions."""
import functools, hashlib, os, shutil
import big, build, gen, weldrun, profiles, oracle, gm

METHODS = {
    "C01": ("path",), "C02": (), "C03": ("extrusion",), "C04": ("comments", "header_block"), "C05": ("feed",), "C06": ("legality",),
    "C07": ("geometry",), "C08": ("gcode_length",), "C09": ("firmware",), "C10": ("rate",), "C11": ("numbers",), "C12": ("statistics",), "C13": ("progress",), "C34": ("height",),
}

def sig(A, c):
    """what makes a case distinct and non-trivial: its configuration and the shape of what was welded"""
    if not A.ok or not A.arcs: return None
    o = c.opts
    return tuple(sorted(o.items())) + tuple(("cw" if u.arc["cw"] else "ccw", len(u.moves), u.erel, (sum(u.des) > 0) - (sum(u.des) < 0), len(A.body[u.j])) for u in A.arcs[:6])

def judge(prop, extra, c, r, out, agg):
    if r.get("skipped"): return
    if "crash" in r:
        weldrun.violation(agg, c, "crash", "%s: %s" % (r["crash"], r.get("stderr", "")[-600:])); return
    if not r["success"]:
        weldrun.violation(agg, c, "failed", "conversion reports failure: %r" % r["message"]); return
    A = oracle.Analysis(c.data, out, c.opts, r, c.tagged, c.start, c.home)
    vs = list(A.viol)
    if A.ok:
        if prop == "C12" and c.seed[2] == "stats": A.recount_source()
        for m in METHODS[prop]: vs += getattr(A, m)()
        s = sig(A, c)
        if s: agg["keys"].add(hashlib.md5(repr(s).encode()).hexdigest()[:12])
        b = weldrun.bump
        b(agg, "source_lines", A.nsrc); b(agg, "arcs_judged", len(A.arcs)); b(agg, "moves_replaced", sum(len(u.moves) for u in A.arcs)); b(agg, "states_compared", A.synced)
        for k in ("n_points", "ncomments", "fw_checked", "rate_pairs", "nnum", "n_heights", "n_rising", "n_featured"):
            if hasattr(A, k): b(agg, k, getattr(A, k))
        for k in ("worst_dev", "max_pos", "max_e", "longest", "max_rate_change", "worst_z"):
            if hasattr(A, k): agg["stat"]["max_" + k] = max(agg["stat"].get("max_" + k, 0), getattr(A, k))
        if A.arcs and not agg["samples"]:
            u = A.arcs[0]
            agg["samples"].append({"case": list(c.seed), "options": {k: v for k, v in c.opts.items() if v != profiles.gen.DEFAULT_OPTS[k]},
                                   "source_lines": [A.src[k].raw for k in u.srcs[:4]], "replaced": len(u.moves), "output": A.body[u.j]})
    for p, k, m in vs:
        if p in (prop, "*") or p + "/" + k in extra:
            weldrun.violation(agg, c, k, m)

EXTRA = {"C34": ("C02/z",), "C06": ("C02/z", "C03/mixed-kinds"), "C03": ("C06/travel",), "C01": ("C07/no-centre", "C02/xy"), "C02": ("C06/non-move-merged",)}

def absorb(ctx, T, prefix=""):
    ctx.evaluations += T["evaluations"]
    for k in T["keys"]: ctx.distinct.add(prefix + str(k))
    for s in T["samples"]: ctx.sample(s)
    for k, v in T["stat"].items():
        if k.startswith("max_"): ctx.maxi(k, v)
        else: ctx.count(k, v)
    for v in T["viol"]:
        ctx.violation(v["key"], "%s  [case %s]" % (v["msg"], v["seed"]), v)

def run(ctx, plan, variant="rel", need=True):
    exe = build.driver(variant, "weld_driver")
    j = functools.partial(judge, ctx.prop, EXTRA.get(ctx.prop, ()))
    for prof, n in plan:
        T = weldrun.run_profile(exe, ctx.seed, n, getattr(profiles, prof), j)
        absorb(ctx, T, prof)
    ctx.rule = ("Generated programs (%s) converted by the real library; a case counts as distinct and non-trivial if at least one arc was created, "
                "by its configuration and the sequence of (direction, moves replaced, extruder mode, kind, text length) of its first arcs." % ", ".join("%s x%d" % p for p in plan))
    if need: ctx.need("no arcs were created", ctx.cov.get("arcs_judged", 0) > 1000)

def general(ctx):
    q = ctx.scale(1, 12)
    run(ctx, [("general", 9000 * q), ("rounding", 2500 * q), ("vast", 500 * q), ("rollover", 600 * q)])

def c08(ctx):
    q = ctx.scale(1, 12)
    run(ctx, [("general", 9000 * q), ("rounding", 2500 * q), ("vast", 500 * q), ("rollover", 3000 * q)])

def c34(ctx):
    q = ctx.scale(1, 12)
    run(ctx, [("rising", 9000 * q), ("general", 2500 * q), ("vast", 300 * q)])
    ctx.need("too few rising arcs", ctx.cov.get("n_rising", 0) > 2000)

def c12(ctx):
    q = ctx.scale(1, 12)
    run(ctx, [("stats", 5000 * q), ("general", 4000 * q), ("rounding", 1500 * q), ("vast", 300 * q)])

def c11(ctx):
    from checks import track
    general(ctx)
    track.numbers(ctx)

# ---------------------------------------------------------------- C13: reports in the middle, and cancelling
def long_program(r):
    c = profiles.general(r, tagged=True, hostile_start=False, blocks=r.choice([40, 90, 160]), crlf=False)
    c.extra["notif"] = 0
    if r.random() < 0.25:                       # a command at the very end, without a line break, in a round number of lines
        l = c.data.split(b"\n"); n = (len(l) - 1) // 1000 * 1000
        if n: c.data = b"\n".join(l[:n - 1] + [r.choice([b"M105", b"M84", b"G4 P1"])])
        if r.random() < 0.5: return c
    if r.random() < 0.8: c.extra["cancel"] = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    return c

ALL = sorted(set(m for ms in METHODS.values() for m in ms) - {"progress"})

def judge_cancel(c, r, out, agg):
    b = weldrun.bump
    def bad(k, m): weldrun.violation(agg, c, k, m)
    if r.get("skipped"): return
    if "crash" in r: bad("crash", "%s: %s" % (r["crash"], r.get("stderr", "")[-600:])); return
    k = c.extra.get("cancel"); ev = r["ev"]
    n = c.data.count(b"\n") + (0 if c.data.endswith(b"\n") else 1)
    lines = c.data.split(b"\n")
    b(agg, "reports", len(ev)); b(agg, "reports_in_the_middle", max(0, len(ev) - 2))
    if len(ev) < 2: bad("no-reports", "%d progress reports" % len(ev)); return
    got = [e[6] for e in ev]
    stopped = k is not None and k < len(ev) - 1          # the answer to the last report changes nothing
    at = got[k] if stopped else n
    if stopped and (len(ev) > k + 2 or got[-1] != at): bad("cancel", "cancelled by the answer to the report after line %d, more reports follow: %s" % (at, got[k:k + 6]))
    if not stopped and n > 5000 and len(ev) == 2: bad("no-reports", "no report during %d lines although the interval is 0 s" % n)
    if not stopped and got[-1] != n: bad("reports", "the last report is after line %d of %d" % (got[-1], n))
    if bool(r["cancelled"]) != stopped or bool(r["success"]) == stopped: bad("cancel", "success=%r cancelled=%r, callback cancels at report %s of %d" % (r["success"], r["cancelled"], k, len(ev)))
    A = None
    data = c.data
    if stopped:
        data = b"\n".join(lines[:at]) + b"\n" if at else b""
        if r["lines"] != at: bad("cancel", "%d lines processed, cancelled after %d" % (r["lines"], at))
        if not data:
            if out: bad("cancel", "the target has %d bytes although the conversion was cancelled at the start" % len(out))
            b(agg, "cancelled_at_once"); return
        b(agg, "cancelled_midway")
    A = oracle.Analysis(data, out, c.opts, dict(r, ssz=len(data)), c.tagged, c.start, c.home)
    vs = list(A.viol)
    if A.ok:
        for m in ALL: 
            if m != "statistics": vs += getattr(A, m)()
        if not stopped: A.src_size = len(c.data); vs += A.progress()
        else: vs += [v for v in A.progress_order(ev, len(c.data))]
        b(agg, "lines_before_the_end", A.nsrc); b(agg, "arcs_judged", len(A.arcs)); b(agg, "states_compared", A.synced)
        agg["keys"].add((c.seed[1], k))
        if stopped and not agg["samples"]: agg["samples"].append({"case": list(c.seed), "source_lines": n, "cancelled_after": at, "reports": [[round(e[0], 2)] + e[3:] for e in ev][:6]})
    for p, kk, m in vs: bad(kk, "%s%s: %s" % ("after cancelling at line %d, " % at if stopped else "", p, m))

def large(ctx, exe):
    """reports about sources whose size needs more than 31 and more than 32 bits"""
    for mib in (2100, 4200) if ctx.tier != "thorough" else (2047, 2048, 2100, 4095, 4096, 4200, 8300):
        d = weldrun.scratch("vf_big_")
        try:
            src, dst = os.path.join(d, "s.gcode"), os.path.join(d, "o.gcode")
            size, lines, cmds = big.sparse(src, mib)
            r = weldrun.run_driver(exe, [dict({"id": "big", "src": src, "dst": dst, "notif": 0}, **{k: gen.DEFAULT_OPTS[k] for k in weldrun.OPTKEYS})], d, timeout=200)["big"]
            ctx.evaluations += 1; ctx.distinct.add(("large", mib))
            def bad(k, m): ctx.violation("large-" + k, "source of %d bytes: %s" % (size, m), {"make": "big.sparse(path, %d)" % mib, "result": str(r)[:2000]})
            if "crash" in r: bad("crash", "%s: %s" % (r["crash"], r.get("stderr", "")[-400:])); continue
            if not r["success"]: bad("failed", r.get("message") or "no success")
            ev = r["ev"]; ctx.count("reports_beyond_2gib", sum(e[3] > 2 ** 31 for e in ev)); ctx.count("reports_beyond_4gib", sum(e[3] > 2 ** 32 for e in ev))
            big.judge([(e[0], e[1], e[2], e[3], e[4], e[6], e[7]) for e in ev], size, lines, cmds, bad)
            if ev and ev[-1][5] != os.path.getsize(dst): bad("target", "the last report states a target of %d bytes, it has %d" % (ev[-1][5], os.path.getsize(dst)))
            if r["arcs"] != 1: bad("arcs", "%d arcs of the quarter circle at the end" % r["arcs"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.need("no report beyond 4 GiB", ctx.cov.get("reports_beyond_4gib", 0) > 0)

def c13(ctx):
    general(ctx)
    large(ctx, build.driver("rel", "weld_driver"))
    exe = build.driver("rel", "weld_driver")
    T = weldrun.run_profile(exe, ctx.seed, ctx.scale(320, 5000), long_program, judge_cancel, chunk=5)
    absorb(ctx, T, "long")
    ctx.need("no report in the middle", ctx.cov.get("reports_in_the_middle", 0) > 200)
    ctx.need("nothing cancelled", ctx.cov.get("cancelled_midway", 0) > 50)
