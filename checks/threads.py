"""C17: conversions running at the same time in threads of one process."""
import os, random, shutil
import build, tools, weldrun, gen, profiles
FIELDS = ("success", "cancelled", "message", "lines", "gcodes", "pts", "arcs", "flow", "fw", "mglx", "ssz", "tsz", "pos", "ratio", "cpct", "seg", "ret", "trv")

def c17(ctx):
    ts = build.driver("tsan", "weld_driver")
    r = random.Random("C17|%s" % ctx.seed)
    root = weldrun.scratch("vf_c17_")
    try:
        n = ctx.scale(240, 480)
        base = []
        for i in range(n):
            c = profiles.general(r)
            if i % 15 == 0:
                # long enough for reports in between
                k = [c.data] + [profiles.general(r, tagged=True).data for _ in range(12)]
                c.data = b"\n".join(k)
            src = os.path.join(root, "s%d" % i); tools.put(src, c.data); base.append((c, src))
        def jobs_of(tag, order, extra):
            d = os.path.join(root, tag); os.makedirs(d)
            out = []
            for i in order:
                c, src = base[i]
                j = {"id": "j%d" % i, "src": src, "dst": os.path.join(d, "o%d" % i)}
                j.update({q: c.opts[q] for q in weldrun.OPTKEYS}); j.update(extra(i)); out.append(j)
            return d, out
        d, J = jobs_of("ref", range(n), lambda i: {})
        R = weldrun.run_driver(ts, J, d)
        ref = {i: (tools.read(J[i]["dst"]), R["j%d" % i]) for i in range(n)}
        rounds = []
        for k in range(ctx.scale(40, 400)):
            rounds.append((r.choice([2, 3, 4, 8, 8, 16, 24]), r.choice([None, None, "50", "20", "5"]) if k else None, k))
        rounds[1] = (8, "20", 1)
        for nt, shared, k in rounds:
            order = list(range(n)); r.shuffle(order)
            if k % 3 == 2: order = [order[0]] * 4 + [order[1]] * 4   # the same source in several threads
            if shared in ("5", "20"): order = [i for i in order if i % 15][:40]   # logging is slow under the sanitizer
            dl = r.choice([[0], [-1], [0, 50, 1000], [200]])
            d, J = jobs_of("k%d" % k, order, lambda i: {"delay": dl[i % len(dl)], "notif": 0.0})
            for q, j in enumerate(J): j["id"] += "_%d" % q; j["dst"] += "_%d" % q
            # a driver run in threads is judged as a whole
            R = weldrun.run_driver(ts, J, d, threads=nt, more=[shared] if shared else [], timeout=120, env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:hard_rss_limit_mb=6000"})
            err = [x["exit"][1] for x in R.values() if x.get("exit")]
            w = "%d threads%s" % (nt, ", one logger at level %s" % shared if shared else "")
            spans = sorted((x["t0"], x["t1"]) for x in R.values() if "t0" in x)
            ov = 0
            for a in range(len(spans)):
                for b in range(a + 1, len(spans)):
                    if spans[b][0] < spans[a][1]: ov += 1
                    else: break
            ctx.count("overlapping_pairs", ov); ctx.count("conversions_in_threads", len(J)); ctx.maxi("threads", nt)
            ctx.eval((nt, shared, tuple(dl), k % 3 == 2), len(J))
            if err and "ThreadSanitizer" in err[0]:
                ctx.violation("race", "%s: %s" % (w, err[0][:2500]), {"threads": nt, "shared": shared}); ctx.count("race_reports")
            for q, (i, j) in enumerate(zip(order, J)):
                x = R[j["id"]]; out = tools.read(j["dst"])
                if x.get("crash"): ctx.violation("crash", "%s: %s %s" % (w, x["crash"], (x.get("stderr") or "")[:1500]), {"threads": nt}); break
                if x.get("skipped"): break
                if out != ref[i][0]: ctx.violation("output-differs", "%s: a conversion gives another output than alone" % w, {"data": base[i][0].data, "opts": base[i][0].opts})
                bad = [f for f in FIELDS if str(x.get(f)) != str(ref[i][1].get(f))]
                if bad: ctx.violation("result-differs", "%s: %s reported differently than alone" % (w, bad), {"data": base[i][0].data, "opts": base[i][0].opts})
            shutil.rmtree(d)
            if ctx.nviol >= 3: break
        ctx.need("conversions did not overlap", ctx.cov["overlapping_pairs"] > 50)
        ctx.rule = "Rounds of conversions on 2 to 24 threads under ThreadSanitizer (own and shared loggers, delays and yields in the callbacks, shared sources); distinct by the shape of the round."
        ctx.assumptions = ["each conversion has its own arc_welder object and target, as in the API"]
    finally:
        shutil.rmtree(root, ignore_errors=True)
