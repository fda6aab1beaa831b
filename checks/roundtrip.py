"""C28: welding and straightening back gives the program that was sliced, within the tolerances of the two conversions."""
import functools, math, os, random, shutil
import build, tools, weldrun, gm, firm, align, profiles, gen
from checks import straight, weld

def arrange(r, o):
    fw = firm.ALL[r.randrange(len(firm.ALL))]
    cfg = dict(firm.USED[fw]); args = ["-f=" + fw[0], "-v=" + fw[1], "-g=" + ("TRUE" if o["g90"] else "FALSE")]
    ch = {"m": [0.2, 0.5, 1.0], "d": [0.5, 1.0], "c": [1, 5, 25]}
    for k in ch:
        if k in cfg and r.random() < 0.6: cfg[k] = r.choice(ch[k]); args.append("-%s=%s" % (k, cfg[k]))
    return fw, cfg, args

def dist(p, poly):
    return min([gm.seg_dist(p[0], p[1], a[0], a[1], b[0], b[1])[0] for a, b in zip(poly, poly[1:])] or [math.hypot(p[0] - poly[0][0], p[1] - poly[0][1])])

def judge(exe, c, res, out, agg):
    if res.get("skipped"): return
    def bad(k, m, **kw): weldrun.violation(agg, c, k, m, kw)
    if res.get("crash") or not res.get("success"): bad("weld", "welding fails: %s" % (res.get("crash") or res.get("message"))); return
    o = c.opts
    r = random.Random("C28|%s" % (c.seed,))
    sl = align.split_lines(c.data); src = align.prep(sl)
    special, head, bodyl, err = align.strip_header(sl, align.split_lines(out))
    if err: bad("unaligned", err); return
    items, err = align.align_tagged(src, bodyl, 1 if special else 0)
    if items is None: bad("unaligned", err); return
    # a comment after every line makes the straightened file attributable
    lines = []; at = {}
    for j, t in enumerate(bodyl):
        at[j] = len(lines); lines.append(t)
        if gm.read(t)[0] in ("G2", "G3"): lines.append(";>")
    fw, cfg, args = arrange(r, o)
    d = weldrun.scratch("vf_c28_")
    try:
        s, t = os.path.join(d, "s.gcode"), os.path.join(d, "t.gcode")
        R = straight.Run(); R.fw = fw; R.cfg = cfg; R.g90 = bool(o["g90"]); R.args = args; R.marked = True
        R.data = ("\n".join(lines) + "\n").encode("latin-1")
        tools.put(s, R.data)
        R.rc, R.log = tools.run(exe, args + [s, t], d)
        R.out = tools.read(t)
    finally: shutil.rmtree(d, ignore_errors=True)
    V = [v for v in straight.analyse(R) if v[1] in ("failed", "line-changed", "extra-lines", "header")]
    if V or not getattr(R, "aligned", False): bad("unaligned", "; ".join(v[2] for v in V[:2]) or "straightened file can't be attributed", args=args); return
    B = straight.M(R.g90); A = straight.M(R.g90)
    arcs = {a.i: a for a in R.arcs}
    # states of the final file after each welded line
    end = []; poly = {}
    lost = {}
    for i, l in enumerate(lines):
        a = arcs.get(i)
        if a:
            p0 = (B.x, B.y); q = []; pu = B.pushed; st = B.clone()
            if not a.segs:
                bk = firm_skips(a, fw)
                if not bk: bad("vanished", "%s %s: the arc %r has no moves" % (fw[0], fw[1], l[:90]), args=args); return
                B.run(*gm.read(l))                       # the emulated firmware ignores it: judged by C23-C25
            for g in a.segs: B.run(*gm.read(g)); q.append((B.x, B.y))
            poly[i] = [p0] + q
        else: 
            cmd, p = gm.read(l)
            if cmd: B.run(cmd, p)
        end.append((B.x, B.y, B.z, B.e, B.pushed, B.rel, B.erel, B.tool, B.inch, B.f))
    if special and src[0].cmd: A.run(src[0].cmd, src[0].p)
    tx = 0.5 * 10.0 ** -o["xp"] + 0.00051 * 1.4143 if not o["dyn"] else 0.00051 * 2.5
    te = max(0.5 * 10.0 ** -o["ep"], 5.1e-6)
    ee = te; xe = 0.0; ze = 0.0
    b = weldrun.bump
    for it in items:
        W = at[it.oj]
        if it.kind == "pass":
            if src[it.si].cmd: A.run(src[it.si].cmd, src[it.si].p)
            a = arcs.get(W)
            if a:
                b(agg, "source_arcs")
                ee += 5.1e-6 * (len(a.segs) if A.erel else 1) + 4 * straight.ulp(max(abs(A.e), abs(A.pushed))) * max(1, len(a.segs) if A.erel else 1)
                if A.rel: xe += (0.00051 * 1.4143) * len(a.segs) + 4 * straight.ulp(max(abs(A.x), abs(A.y))) * len(a.segs); ze += 0.00051 * len(a.segs)
                if fw in firm.NO_Z and "Z" in a.p: return
        else:
            P = [(A.x, A.y)]; F = None
            for k in it.srcs:
                A.run(src[k].cmd, src[k].p); P.append((A.x, A.y))
            a = arcs.get(W)
            if a is None: bad("ignored", "%s %s keeps the welded arc %r" % (fw[0], fw[1], lines[W][:90]), args=args); return
            ee += te + 5.1e-6 * (len(a.segs) if A.erel else 1) + 4 * straight.ulp(max(abs(A.e), abs(A.pushed), 1)) * (1 + (len(a.segs) if A.erel else 0))
            if fw in firm.NO_Z and "Z" in a.p: return
            if a.segs:
                Q = poly[W]
                b(agg, "welded_arcs"); b(agg, "segments_compared", len(a.segs)); b(agg, "moves_restored", len(it.srcs))
                agg["keys"].add((fw, len(it.srcs), len(a.segs), A.erel, a.cw))
                n = len(a.segs)
                theta = straight.angle_between(a, firm.segments(fw, cfg, a.r, a.sweep, a.circle, a.m1.z - a.m0.z, a.m1.f, a.slack))
                dr = firm.drift(fw, cfg, theta)
                tol = o["res"] / 2 + tx + a.slack + a.r * max(dr(k) for k in range(1, n + 1)) + 4e-7 * a.r * n
                # rounded centre and radius
                rnd = 0.0015 if not o["dyn"] and o["xp"] >= 3 else 0.003
                for v in Q[1:]:
                    e = dist(v, P)
                    agg["stat"]["max_deviation_relative_to_allowed"] = max(agg["stat"].get("max_deviation_relative_to_allowed", 0), e / (tol + rnd))
                    if e > tol + rnd: bad("path", "%s %s: (%.4f, %.4f) of the straightened arc %r is %.4f mm from the sliced path, allowed %.4f" % (fw[0], fw[1], v[0], v[1], lines[W][:90], e, tol + rnd), args=args); return
                th = min(straight.TAU, max(theta, a.sweep - (n - 1) * theta))
                sag = a.r * (1 - math.cos(th / 2))
                for v in P:
                    e = dist(v, Q)
                    if e > tol + rnd + sag: bad("path", "%s %s: the sliced point (%.4f, %.4f) is %.4f mm from the straightened arc %r, allowed %.4f" % (fw[0], fw[1], v[0], v[1], e, lines[W][:90], tol + rnd + sag), args=args); return
        S = end[W]
        b(agg, "states_compared")
        lim = tx + 1e-9 + 4 * straight.ulp(max(abs(A.x), abs(A.y)))
        where = "%s %s: after %r" % (fw[0], fw[1], lines[W][:90])
        if max(abs(A.x - S[0]), abs(A.y - S[1])) > lim + xe: bad("position", "%s: (%.5f, %.5f) instead of (%.5f, %.5f)" % (where, S[0], S[1], A.x, A.y), args=args); return
        if abs(A.z - S[2]) > lim + ze: bad("position", "%s: Z%.5f instead of Z%.5f" % (where, S[2], A.z), args=args); return
        if (A.rel, A.erel, A.tool, A.inch) != S[5:9]: bad("modes", "%s: modes %s instead of %s" % (where, S[5:9], (A.rel, A.erel, A.tool, A.inch)), args=args); return
        if abs(A.pushed - S[4]) > ee: bad("filament", "%s: %.6f mm fed instead of %.6f" % (where, S[4], A.pushed), args=args); return
        if abs(A.e - S[3]) > ee: bad("filament", "%s: E%.6f instead of E%.6f" % (where, S[3], A.e), args=args); return

def firm_skips(a, fw):
    """arcs the emulated firmware doesn't move for (documented in C25): below its resolution, full circles lost in single precision, no feed rate"""
    return a.r * a.sweep < 0.02 or (fw not in firm.CIRCLES and (a.sweep < 0.06 or a.sweep > straight.TAU - 0.06)) or (fw[0] == "SMOOTHIEWARE" and not a.m1.f)

def round_profile(r):
    return profiles.general(r, force={"mgl": 0}, tagged=True, style="plain", crlf=False, hostile_start=False)

def c28(ctx):
    build.build("rel", ["ArcStraightener"])
    exe = build.driver("rel", "weld_driver")
    T = weldrun.run_profile(exe, ctx.seed, ctx.scale(4000, 60000), round_profile, functools.partial(judge, build.exe("rel", "straight")))
    weld.absorb(ctx, T)
    ctx.rule = "Generated programs welded by the real library and straightened again by the real program under a random firmware and settings; distinct by firmware, moves replaced, segments generated, extruder mode and direction of an arc."
    ctx.need("too few arcs", ctx.cov.get("welded_arcs", 0) > 2000)
