"""C33: what ArcWelder prints about a conversion, against a recount of the two files."""
import os, random, re, shutil
import build, tools, weldrun, gen, gm, profiles, oracle, table
from checks import cli

FIELD = {"percent_complete": "pct", "gcodes_processed": "gcodes", "current_file_line": "lines", "points_compressed": "pts", "arcs_created": "arcs", "arcs_aborted_by_flowrate": "flow", "num_firmware_compensations": "fw",
         "num_gcode_length_exceptions": "mglx", "compression_ratio": "ratio", "size_reduction": "cpct"}
LV = {"NOSET": 0, "VERBOSE": 5, "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}

def arguments(text, o, src, dst, bad, level, ptype):
    """the list of arguments in force"""
    a = dict(re.findall(r"^\t([A-Za-z0-9/() ]+?) +: (.*)$", text, re.M))
    def num(name, v, tol, unit):
        m = re.match(r"(-?[\d.]+)" + unit, a.get(name, ""))
        if not m or abs(float(m.group(1)) - v) > tol + 1e-9 * abs(v): bad("arguments", "%s is given as %r, in force is %r" % (name, a.get(name), v))
    def word(name, w):
        if a.get(name) != w: bad("arguments", "%s is given as %r, in force is %r" % (name, a.get(name), w))
    word("Source File Path", src); word("Target File Path (overwrite)" if src == dst else "Target File Path", dst)
    word("Log Level", level); word("Hide Progress Updates", "True" if ptype == "NONE" else "False")
    comp = o["mas"] > 0 and o["mm"] > 0
    word("Firmware Compensation", "True" if comp else "False")
    if comp: num("Min Arc Segments", o["mas"], 0, "$"); num("MM Per Arc Segment", o["mm"], 0.00051, "$")
    elif "Min Arc Segments" in a or "MM Per Arc Segment" in a: bad("arguments", "segments are given without firmware compensation")
    if o["var"]: num("Extrusion Rate Variance", o["var"] * 100, 0.51, "%")
    else: word("Extrusion Rate Variance", "Unlimited")
    num("Resolution", o["res"], 0.0051, "mm"); num("Path Tolerance", o["tol"] * 100, 0.00051, "%"); num("Maximum Arc Radius", o["rad"], 0.051, "mm")
    for n, k in (("Allow 3D Arcs", "z3d"), ("Allow Travel Arcs", "trav"), ("Allow Dynamic Precision", "dyn"), ("G90/G91 Influences Extruder", "g90")): word(n, "True" if o[k] else "False")
    num("Default XYZ Precision", o["xp"], 0, ""); num("Default E Precision", o["ep"], 0, "")
    if o["mgl"]: num("Max Gcode Length", o["mgl"], 0, "")
    else: word("Max Gcode Length", "Unlimited")

def judge(case, r, o, c, src, dst, rc, text, out, ptype, level, bad, ctx):
    if rc != 0: bad("failed", "exit status %s: %s" % (rc, text[-200:])); return
    lv = LV[level]
    if (lv <= 20) != ("Arc Welder process completed successfully." in text): bad("messages", "success message with log level %s: %s" % (level, "Arc Welder process completed successfully." in text))
    if "File processing failed" in text: bad("messages", "a successful conversion is reported as failed")
    P = re.findall(r"^Progress: (.*)$", text, re.M)
    if (ptype == "NONE") != (not P): bad("messages", "%d progress messages with type %s" % (len(P), ptype))
    A = oracle.Analysis(c.data, out, o, r, c.tagged, c.start, c.home)
    if not A.ok: ctx.count("unattributed"); return
    A.recount_source()
    if P and ptype == "FULL":
        f = dict(re.findall(r"(\w+): ?(-?[\d.]+|-?nan|-?inf)", P[-1]))
        code = [sum(1 for i, s in enumerate(A.src) if not (i == 0 and A.special) and g(gm.split_comment(s.raw)[0].split("\0")[0])) for g in (lambda t: t.strip(" \t\r\v\f"), lambda t: t)]
        want = {"percent_complete": (100, 100), "gcodes_processed": code, "current_file_line": (A.nsrc, A.nsrc), "arcs_created": (len(A.arcs),) * 2, "points_compressed": (sum(len(u.moves) for u in A.arcs),) * 2,
                "compression_ratio": (A.src_size / max(1, A.out_size),) * 2, "size_reduction": ((1 - A.out_size / max(1, A.src_size)) * 100,) * 2}
        for k, (lo, hi) in want.items():
            t = 0.0051 + 1e-5 * abs(lo) if k in ("compression_ratio", "size_reduction") else 0
            if k not in f or not lo - t <= float(f[k]) <= hi + t: bad("progress", "the last progress message says %s: %s, counted %s" % (k, f.get(k), lo))
        for k in ("arcs_aborted_by_flowrate", "num_firmware_compensations", "num_gcode_length_exceptions"):
            if k not in f or float(f[k]) < 0: bad("progress", "the last progress message says %s: %s" % (k, f.get(k)))
        ctx.count("progress_messages", len(P))
    elif P:
        if not P[-1].lstrip().startswith("100.0% complete"): bad("progress", "the last progress message is %r" % P[-1])
        last = -1.0
        for p in P:
            m = re.match(r"\s*(\d+\.\d)% complete", p)
            if not m or float(m.group(1)) < last: bad("progress", "progress messages %r" % P[:5]); break
            last = float(m.group(1))
        ctx.count("progress_messages", len(P))
    if lv > 20: ctx.count("quiet"); return
    arguments(text, o, src, dst, bad, level, ptype)
    # the tables
    gone = {k: u for u in A.arcs for k in u.srcs if k in A.srcmoves}
    parts = re.split(r"Target File (Travel|Extrusion) Statistics", text)
    seen = {}
    for name, body in zip(parts[1::2], parts[2::2]): seen[name] = body
    for name, kinds in (("Travel", ("trv",)), ("Extrusion", ("seg", "ret"))):
        if name == "Travel" and not o["trav"]:
            if name in seen: bad("table", "a travel table without travel arcs")
            continue
        if name not in seen: bad("table", "no %s table" % name); continue
        S = [l for i, (k, l) in A.srcmoves.items() if k in kinds]
        keep = [l for i, (k, l) in A.srcmoves.items() if k in kinds and i not in gone]
        arcs = [u for u in A.arcs if A.srcmoves.get(u.srcs[0], ("seg",))[0] in kinds]
        T = keep + [u.g.len for u in arcs]
        if name == "Travel" and seen[name].startswith(": No travel arcs converted."):
            if len(S) != len(T): bad("table", "no travel arcs are reported, %d moves became %d" % (len(S), len(T)))
            ctx.count("no_travel_arcs"); continue
        body = seen[name].split("\n\n")[0]
        t, why = table.parse(body)
        if t is None: bad("table", "%s: %s" % (name, why)); continue
        def b2(k, m): bad(k, "%s table: %s" % (name, m))
        la = sum(l for l in T)
        slack = sum(12 * 10.0 ** -A.xp + 0.2 * 10 ** -A.xp * u.g.sweep for u in arcs)
        if o["z3d"]: slack = None
        table.judge(t, len(S), len(T), sum(S), la, b2, slack)
        table.buckets(t, S, 2, b2, "source")
        if not o["z3d"]: table.buckets(t, keep, 3, b2, "target", [(u.g.len, 12 * 10.0 ** -A.xp + 0.2 * 10 ** -A.xp * u.g.sweep) for u in arcs])
        ctx.count("tables"); ctx.count("table_rows", len(t["rows"])); ctx.count("moves_in_tables", len(S)); ctx.count("arcs_in_tables", len(arcs))
        if arcs: ctx.distinct.add((case, name))
        if arcs and not ctx.samples: ctx.sample({"table": [q for q in t["rows"] if q[2] or q[3]], "totals": t["totals"]})

STEPS = [(1, (1, 0)), (5, (5, 0)), (5, (3, 4)), (10, (10, 0)), (10, (6, 8)), (20, (12, 16)), (20, (20, 0)), (50, (30, 40)), (50, (48, 14)), (100, (60, 80)), (100, (100, 0)), (2, (2, 0)), (7, (7, 0)), (13, (5, 12)), (99, (99, 0)), (101, (99, 20)), (17, (8, 15))]

def edges(ctx, exe, root):
    """moves between whole numbers, whose length is exactly a limit of the table: they belong to the row that starts there"""
    def one(i):
        r = random.Random("C33e|%s|%d" % (ctx.seed, i)); x = y = 0; n = {"Extrusion": [], "Travel": []}
        out = ["G90", "M83", "G1 X0 Y0 Z0.2 F1200"]
        for _ in range(r.randint(1, 60)):
            want, (a, b) = r.choice(STEPS)
            if r.random() < 0.5: a, b = b, a
            x += a * r.choice([1, -1]); y += b * r.choice([1, -1]); e = r.random() < 0.7
            out.append("G1 X%d Y%d%s" % (x, y, " E1" if e else "")); out.append("M106 S%d" % r.randint(0, 255))
            n["Extrusion" if e else "Travel"].append(want)
        src = os.path.join(root, "e%d.gcode" % i); tools.put(src, ("\n".join(out) + "\n").encode())
        rc, text = tools.run(exe, ["-y", "-p=FULL", "-l=INFO", src, src + ".o"])
        os.unlink(src)
        if os.path.exists(src + ".o"): os.unlink(src + ".o")
        return i, out, n, rc, text
    for i, out, n, rc, text in tools.pmap(one, range(ctx.scale(200, 3000))):
        rep = {"data": "\n".join(out), "printed": text[-6000:]}
        if rc != 0: ctx.violation("failed", "whole numbers %d: exit %s" % (i, rc), rep); continue
        parts = re.split(r"Target File (Travel|Extrusion) Statistics", text)
        seen = dict(zip(parts[1::2], parts[2::2]))
        for name, L in sorted(n.items()):
            if not L or seen.get(name, "").startswith(": No"): continue
            if name not in seen: ctx.violation("table", "no %s table" % name, rep); continue
            t, why = table.parse(seen[name].split("\n\n")[0])
            if t is None: ctx.violation("table", "%s: %s" % (name, why), rep); continue
            if name == "Travel": L = L + [0] if sum(q[2] for q in t["rows"]) > len(L) else L      # the first move, from an unknown position
            for a, b, c, g, _ in t["rows"]:
                w = sum(1 for l in L if a <= l and (b is None or l < b))
                if c != w and a >= 1: ctx.violation("edge", "%s: %d moves of %g to %s mm, counted %d" % (name, c, a, b, w), rep); break
            ctx.eval(("edge", name, tuple(sorted(L)))); ctx.count("moves_at_a_limit", sum(1 for l in L if l in (1, 5, 10, 20, 50, 100)))

def c33(ctx):
    build.build("rel", ["ArcWelderConsole"]); exe = build.exe("rel", "weld")
    root = weldrun.scratch("vf_c33_")
    try:
        n = ctx.scale(2400, 40000)
        def one(i):
            r = random.Random("C33|%s|%d" % (ctx.seed, i))
            c = profiles.stats(r); c.start = (r.uniform(-200, 200), r.uniform(-200, 200), r.uniform(0, 50)); c.home = (0.0, 0.0, 0.0); c.seed = (ctx.seed, i, "stats")
            o = c.opts
            src = os.path.join(root, "s%d.gcode" % i); dst = src + ".o" if r.random() < 0.9 else src; tools.put(src, c.data)
            ptype = r.choice(["FULL", "FULL", "SIMPLE", "NONE"]); level = r.choice(["INFO"] * 5 + sorted(LV))
            args = tools.weld_args(o) + ["-p=" + ptype, "-l=" + level]
            rc, text = tools.run(exe, args + ([src, dst] if src != dst or r.random() < 0.5 else [src]))
            out = tools.read(dst) or b""
            for p in (src, dst):
                if os.path.exists(p): os.unlink(p)
            V = []
            # results the program does not print are not needed by the recount
            return i, c, o, src, dst, rc, text, out, ptype, level, args
        for k in range(0, n, 400):
            for i, c, o, src, dst, rc, text, out, ptype, level, args in tools.pmap(one, range(k, min(n, k + 400))):
                ctx.evaluations += 1
                rep = {"data": c.data, "args": args, "printed": text[-6000:]}
                judge(i, {"ev": []}, o, c, src, dst, rc, text, out, ptype, level, lambda kk, m: ctx.violation(kk, "case %d: %s" % (i, m), rep), ctx)
        edges(ctx, exe, root)
        ctx.rule = "Conversions by the real program whose messages and tables are compared with a recount of the two files; distinct by program and table with arcs."
        ctx.need("too few tables", ctx.cov.get("tables", 0) > 1000)
    finally:
        shutil.rmtree(root, ignore_errors=True)
