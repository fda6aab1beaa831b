"""C32: welding the output of the welder again."""
import hashlib, os, random, shutil
import build, tools, weldrun, gen, gm, profiles, oracle, align
from checks import weld

def c32(ctx):
    drv = build.driver("rel", "weld_driver")
    root = weldrun.scratch("vf_c32_")
    METH = sorted(set(m for ms in weld.METHODS.values() for m in ms) - {"progress"})
    try:
        n = ctx.scale(3200, 40000); step = 200
        def first(k):
            w = os.path.join(root, "w%d" % k); os.makedirs(w)
            cs, j1, j2 = [], [], []
            for i in range(k, min(n, k + step)):
                r = random.Random("C32|%s|%d" % (ctx.seed, i))
                c = profiles.general(r)
                src = os.path.join(w, "s%d" % i); tools.put(src, c.data)
                o2 = c.opts if r.random() < 0.4 else gen.gen_opts(r)
                o2 = dict(o2); o2["g90"] = c.opts["g90"]
                cs.append((i, c, o2))
                j1.append(dict({"id": "j%d" % i, "src": src, "dst": src + ".1"}, **{q: c.opts[q] for q in weldrun.OPTKEYS}))
                j2.append(dict({"id": "j%d" % i, "src": src + ".1", "dst": src + ".2"}, **{q: o2[q] for q in weldrun.OPTKEYS}))
            R1 = weldrun.run_driver(drv, j1, w); R2 = weldrun.run_driver(drv, j2, w)
            out = [(i, c, o2, R1["j%d" % i], R2["j%d" % i], tools.read(a["dst"]), tools.read(b["dst"])) for (i, c, o2), a, b in zip(cs, j1, j2)]
            shutil.rmtree(w)
            return out
        for k in range(0, n, step * 8):
            for part in tools.pmap(first, range(k, min(n, k + step * 8), step)):
                for i, c, o2, r1, r2, a, b in part:
                    ctx.evaluations += 1
                    rep = {"data": c.data, "opts": c.opts, "second opts": o2}
                    if r1.get("skipped") or r2.get("skipped"): continue
                    if any(x.get("crash") or not x.get("success") for x in (r1, r2)): ctx.violation("failed", "case %d: %s" % (i, [(x.get("crash"), x.get("message")) for x in (r1, r2)]), rep); continue
                    if r1.get("arcs", 0) == 0: continue
                    A = oracle.Analysis(a, b, o2, r2, False, (7.0, 11.0, 3.0), (0.0, 0.0, 0.0))
                    vs = list(A.viol)
                    if A.ok:
                        for m in METH: vs += getattr(A, m)()
                        kept = sum(1 for it in A.items if it.kind == "pass" and A.src[it.si].cmd in ("G2", "G3"))
                        had = sum(1 for s in A.src if s.cmd in ("G2", "G3") and not s.blank)
                        ctx.count("arcs_before", had); ctx.count("arcs_kept", kept); ctx.count("arcs_added", len(A.arcs)); ctx.count("moves_merged_with_arcs_around", sum(len(u.moves) for u in A.arcs))
                        if kept != had: vs.append(("C32", "arc-changed", "%d of %d arcs are left" % (kept, had)))
                        if had: ctx.distinct.add(hashlib.md5(a).hexdigest()[:12])
                        if not ctx.samples and A.arcs: ctx.sample({"merged the second time": [A.src[k].raw for k in A.arcs[0].srcs[:4]], "into": A.body[A.arcs[0].j]})
                    for p, kk, m in vs: ctx.violation(kk, "case %d: %s" % (i, m), rep)
        ctx.rule = "Outputs of conversions that contain arcs, converted again with the same or another configuration; distinct by content.  All monitors of C01 to C12 judge the second conversion."
        ctx.need("no arcs", ctx.cov.get("arcs_before", 0) > 5000)
    finally:
        shutil.rmtree(root, ignore_errors=True)
