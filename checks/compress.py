"""C19: what a slicer made of an arc becomes an arc again.  The generator knows the true arcs; the monitor counts what is left of them."""
import math, os, random, re, shutil
import build, tools, weldrun, gen, gm

TAU = 2 * math.pi

def program(r):
    """-> bytes, options, [(number of moves, sweep, description)]"""
    o = dict(gen.DEFAULT_OPTS)
    o["res"] = r.choice([0.05, 0.05, 0.1, 0.2, 0.08])
    o["tol"] = r.choice([0.05, 0.05, 0.1, 0.5])
    o["rad"] = r.choice([9999.0, 9999.0, 1000.0, 500.0])
    if r.random() < 0.2: o["mgl"] = r.choice([80, 120])
    if r.random() < 0.3: o["xp"] = r.choice([4, 5, 6])
    if r.random() < 0.2: o["dyn"] = 1
    if r.random() < 0.4: o["var"] = r.choice([0.05, 0.1, 0.5])
    if r.random() < 0.3: o["g90"] = 1
    o["z3d"] = int(r.random() < 0.4); o["trav"] = int(r.random() < 0.4)
    erel = r.random() < 0.5; crlf = r.random() < 0.15; cr = "\r" if crlf else ""
    d = r.choice([3, 3, 4, 5]); ed = 5
    out = ["G21", "G90", "M83" if erel else "M82", "G92 E0", "G28", "G1 Z0.2 F1200", "G0 X100 Y100 F9000"]
    runs = []
    x = y = 100.0; z = 0.2; e = 0.0
    tags = r.random() < 0.3
    for k in range(r.randint(1, 6)):
        R = min(10.0 ** r.uniform(0, 2.5), 0.9 * o["rad"])
        sag = o["res"] * r.choice([0.02, 0.05, 0.15, 0.3])
        fine = d >= 5 and r.random() < 0.3
        if fine: sag = o["res"] * r.choice([1e-3, 3e-3])   # ten times the last printed digit and more
        step = min(2 * math.acos(1 - sag / R) if sag < R else 0.4, 0.4)
        kind = r.choice(["extrude"] * 6 + (["travel"] * 2 if o["trav"] else []) + ["retract"])
        rate = r.uniform(0.02, 0.06)
        L = R * step * rate
        if L < 6e-4: step = 6e-4 / rate / R; L = R * step * rate
        if step > 0.5: continue
        n = r.randint(4, int(min(1500 if fine else 400, max(5, TAU / step))))
        if r.random() < 0.15: n = int(TAU / step)
        n = min(n, int(TAU / step))
        if n < 4: continue
        # a short run of a big circle is a straight line up to the printed digits
        if R * (1 - math.cos(n * step / 2)) < 0.02: continue
        a0 = r.uniform(0, TAU); s = r.choice([1, -1])
        # most often continue from where the tool is
        cx, cy = x - R * math.cos(a0), y - R * math.sin(a0)
        if r.random() < 0.3 or max(abs(cx), abs(cy)) > 400:
            cx, cy = r.uniform(-100, 300), r.uniform(-100, 300)
            x, y = cx + R * math.cos(a0), cy + R * math.sin(a0)
            out.append("G0 X%.*f Y%.*f F9000" % (d, x, d, y))
        f = r.choice([900, 1800, 2400.5, 4800])
        # most runs are on their own; some are entered from, or left by, a move of another kind without anything between
        enter = r.choice(["", "", "", "same", "same", "other"]); leave = r.random() < 0.3; extra = 0; slack = 0
        if enter:
            t = r.uniform(0, TAU); far = r.uniform(0.5, 30)
            out.append("G0 X%.*f Y%.*f F9000" % (d, x + far * math.cos(t), d, y + far * math.sin(t)))
        out.append(r.choice(["M400", "M106 S%d" % k, "M204 P500"])); out.append(";<%d" % k)
        if enter:
            t = "G0 X%.*f Y%.*f" % (d, x, d, y)
            if kind == "travel": e = round(e + far * rate, ed); t = "G1" + t[2:] + " E%.*f" % (ed, far * rate if erel else e)
            if enter == "same": t += " F%g" % f
            else: slack = 1                        # the first move at another feedrate may stay
            out.append(t); extra += 1
        helix = o["z3d"] and o["xp"] <= d and r.random() < 0.6
        dz = r.choice([0.001, 0.01, 0.05, -0.002]) if helix else 0.0
        jitter = min(0.2, o["var"]) if o["var"] >= 0.1 and r.random() < 0.3 else 0
        for i in range(1, n + 1):
            a = a0 + s * i * step
            x, y = cx + R * math.cos(a), cy + R * math.sin(a)
            t = "G1 X%.*f Y%.*f" % (d, x, d, y) if kind != "travel" else "%s X%.*f Y%.*f" % ("G0", d, x, d, y)
            if helix: z += dz; t += " Z%.4f" % z
            if kind != "travel":
                q = L * (1 if kind == "extrude" else -0.5)
                e = round(e + q, ed)
                t += " E%.*f" % (ed, q if erel else e)
            if i == 1 and (enter != "same" or r.random() < 0.3): t += " F%g" % f
            if tags: t += " ;n%d" % i
            out.append(t)
        if leave:
            q = r.uniform(2, 20) / R; x, y = x + (x - cx) * q, y + (y - cy) * q
            t = "G0 X%.*f Y%.*f" % (d, x, d, y)
            if kind == "travel": q = q * R * rate; e = round(e + q, ed); t = "G1" + t[2:] + " E%.*f" % (ed, q if erel else e)
            out.append(t); extra += 1
        out.append(";>%d" % k)
        if kind == "retract":
            # prime again: what comes next is an extrusion only then
            q = n * L * 0.5 + 0.2; e = round(e + q, ed); out.append("G1 E%.*f F1200" % (ed, q if erel else e))
        runs.append((n, n * step, "%d %s moves of a %s arc of %.4f mm and %.4f rad, chords %.4f mm (sagitta %.5f), %d digits%s" % (n, kind, "clockwise" if s < 0 else "counterclockwise", R, n * step, R * step, R * (1 - math.cos(step / 2)), d, ", helical" if helix else ""), extra, slack))
    if runs and out[-1] == ";>%d" % k and r.random() < 0.6:
        # the file ends with the arc, or with blank lines after it
        out[-1:] = [""] * r.choice([0, 1, 3])
        return ((cr + "\n").join(out) + r.choice(["", cr + "\n"])).encode(), o, runs
    out += ["M400", "M84"]
    return ((cr + "\n").join(out) + "\n").encode(), o, runs

def tight(r):
    """One coarse, well conditioned arc and a length limit that is exactly what the longest of its commands needs."""
    for _ in range(200):
        o = dict(gen.DEFAULT_OPTS); o["res"] = 1.0; o["xp"] = r.choice([3, 4, 5]); o["ep"] = r.choice([5, 4]); o["trav"] = 1; o["z3d"] = int(r.random() < 0.3)
        R = r.uniform(5, 60); step = r.uniform(0.15, 0.35); n = r.randint(5, 14)
        if R * (1 - math.cos(step / 2)) > 0.5 or n * step > 5.5: continue
        a0 = r.uniform(0, TAU); s = r.choice([1, -1])
        cx, cy = r.choice([0, 100, 50, -100]) + r.uniform(-20, 20), r.choice([0, 0, 100, 995, -95]) + r.uniform(-20, 20)
        i, j = -R * math.cos(a0), -R * math.sin(a0)
        # no rounding of the centre may change its number of digits or its sign
        if any(not 0.2 < abs(v) or any(abs(abs(v) - b) < 0.15 * b for b in (1, 10, 100)) for v in (i, j)): continue
        erel, travel, f = r.random() < 0.5, r.random() < 0.3, r.choice([900, 1800, 12000])
        neg = r.random() < 0.2; withf = r.random() < 0.6
        d = 5; e = 0.0; z = 0.2; etot = 0.0
        P = lambda k: (cx + R * math.cos(a0 + s * k * step), cy + R * math.sin(a0 + s * k * step))
        out = ["G21", "G90", "M83" if erel else "M82", "G92 E0", "G28", "G1 Z0.2 F1200", "G0 X%.5f Y%.5f F9000" % P(0)]
        if neg and not erel: e = -80.0; out.append("G92 E-80")
        out += ["M400", ";<0"]
        helix = o["z3d"] and r.random() < 0.7
        longest = 0; ok = True
        for k in range(1, n + 1):
            x, y = P(k); t = "%s X%.5f Y%.5f" % ("G0" if travel else "G1", x, y)
            if helix: z = 0.2 + 0.01 * k; t += " Z%.5f" % z
            q = R * step * 0.04
            if not travel:
                e = round(e + q, 5); etot = round(etot + q, 5); t += " E%.5f" % (round(q, 5) if erel else e)
            if k == 1 and withf: t += " F%d" % f
            out.append(t)
            w = "G2 X%.*f Y%.*f%s I%.*f J%.*f" % (o["xp"], x, o["xp"], y, " Z%.*f" % (o["xp"], z) if helix else "", o["xp"], i, o["xp"], j)
            if not travel: w += " E%.*f" % (o["ep"], etot if erel else e)
            longest = max(longest, len(w + (" F%d" % f if withf else "")))
            ok = ok and min(abs(x), abs(y)) > 0.001 and all(abs(abs(v) - b) > 0.001 for v in (x, y) for b in (1, 10, 100, 1000))
        if not ok: continue
        o["mgl"] = longest
        out += [";>0", "M400", "M84"]
        return ("\n".join(out) + "\n").encode(), o, [(n, n * step, "%d %s moves of a %s arc of %.4f mm and %.4f rad%s with a limit of exactly %d characters" % (n, "travel" if travel else "extrude", "clockwise" if s < 0 else "counterclockwise", R, n * step, ", helical" if helix else "", longest), 0, 0)]
    raise RuntimeError("no arc")

def c19(ctx):
    drv = build.driver("rel", "weld_driver")
    root = weldrun.scratch("vf_c19_")
    try:
        n = ctx.scale(10000, 120000)
        step = 250
        unlucky = []
        def drive(k):
            w = os.path.join(root, "w%d" % k); os.makedirs(w)
            P, jobs = [], []
            for i in range(k, min(n, k + step)):
                r = random.Random("C19|%s|%d" % (ctx.seed, i))
                data, o, runs = tight(r) if i % 10 == 9 else program(r)
                src = os.path.join(w, "s%d" % i); tools.put(src, data)
                P.append((i, data, o, runs)); jobs.append(dict({"id": "j%d" % i, "src": src, "dst": src + ".o"}, **{q: o[q] for q in weldrun.OPTKEYS}))
            R = weldrun.run_driver(drv, jobs, w)
            res = [(p, R["j%d" % p[0]], tools.read(j["dst"]) or b"") for p, j in zip(P, jobs)]
            shutil.rmtree(w)
            return res
        for part in tools.pmap(drive, range(0, n, step)):
            for (i, data, o, runs), R, out in part:
                rep = {"data": data, "opts": o}
                ctx.evaluations += 1
                if R.get("skipped"): continue
                if R.get("crash") or not R.get("success"): ctx.violation("failed", "conversion fails: %s" % (R.get("crash") or R.get("message")), rep); continue
                T = out.decode("latin-1").split("\n")
                pos = {t.strip(): q for q, t in enumerate(T) if re.match(r";[<>]\d+\s*$", t)}
                ks = sorted(int(t[2:]) for t in pos if t[1] == "<")
                if len(ks) != len(runs): ctx.violation("markers", "comment lines are missing", rep); continue
                for k, (m, sweep, what, extra, slack) in zip(ks, runs):
                    body = [t for t in T[pos[";<%d" % k] + 1:pos.get(";>%d" % k)] if t.strip()]
                    arcs = sum(t[:2] in ("G2", "G3") for t in body); rest = len(body) - arcs - extra
                    if slack: rest = max(0, rest - slack)
                    ctx.count("runs_next_to_others", int(extra > 0))
                    full = sweep > TAU - 0.35
                    ctx.eval((m, round(sweep, 1), what.split(" of a ")[0].split(" ", 1)[1], o["xp"], o["z3d"], o["trav"], arcs, rest), 0)
                    ctx.count("true_arcs"); ctx.count("moves_on_true_arcs", m); ctx.count("commands_left", len(body)); ctx.count("single_arcs", int(arcs == 1 and rest == 0))
                    if o["mgl"] and "exactly" in what: ctx.count("tight_limits")
                    if arcs == 1 and rest == 0: continue
                    if full and 1 <= arcs <= 2 and rest <= 2: ctx.count("closed_circles_with_a_rest"); continue
                    # digits that happen to lie unluckily, about one in ten thousand
                    if arcs and arcs + rest <= 4 and not "exactly" in what: unlucky.append((what, arcs, rest, body, rep)); continue
                    ctx.violation("not-welded" if not arcs else "fragmented", "%d arcs and %d moves are left of %s; resolution %g, tolerance %g, first lines %r" % (arcs, rest, what, o["res"], o["tol"], body[:3]), rep)
        ctx.cov["arcs_in_a_few_commands"] = len(unlucky)
        if len(unlucky) > 4 + 0.0004 * ctx.cov["true_arcs"]:
            for what, arcs, rest, body, rep in unlucky[:3]: ctx.violation("fragmented", "%d of %d true arcs are not one arc, for instance %d arcs and %d moves for %s, first lines %r" % (len(unlucky), ctx.cov["true_arcs"], arcs, rest, what, body[:3]), rep)
        ctx.rule = "Programs made of true arcs, within the limits of the configuration; distinct by number of moves, sweep, kind of move, settings and what is left."
        ctx.need("too few arcs", ctx.cov.get("true_arcs", 0) > 5000)
    finally:
        shutil.rmtree(root, ignore_errors=True)
