"""C23-C28: the ArcStraightener.  Source and output are executed side by side on the reference machine; what each arc became is
compared with the arc itself, not with the program's arithmetic."""
import hashlib, math, os, random, re, shutil
from concurrent.futures import ProcessPoolExecutor
import build, tools, weldrun, gm, firm, arcgen, hostile, gen, profiles

TAU = 2 * math.pi
SEG = re.compile(r"^G1((?: [XYZEF]-?\d+(?:\.\d+)?)*) ?$")
WORD = re.compile(r"([XYZEF])(-?\d+)(?:\.(\d+))?")

def ulp(v):
    """spacing of single precision numbers around v"""
    v = abs(v)
    return 2.0 ** (math.floor(math.log2(v)) - 23) if v > 1e-30 else 1e-37

class M(gm.Machine):
    __slots__ = ("kz",)
    def __init__(self, g90e):
        gm.Machine.__init__(self, (0.0, 0.0, 0.0), (0.0, 0.0, 0.0), g90e)
        self.kz = False
    def clone(self):
        m = self.copy(); n = M.__new__(M)
        for k in ("x", "y", "z", "e", "f", "rel", "erel", "g90e", "tool", "pushed", "home", "inch", "ox", "oy", "oz", "kx", "ky"): setattr(n, k, getattr(m, k))
        n.kz = self.kz
        return n
    def run(self, cmd, p):
        unit = self.inch
        f0 = self.f
        inch = self.inch
        if cmd in ("G0", "G1", "G2", "G3") and not self.rel and p.get("Z") is not None: self.kz = True
        self.step(cmd, p)
        if cmd == "G92" and (p.get("Z") is not None or not any(k in p for k in "XYZEO")): self.kz = True
        if cmd == "G28":
            if not any(k in p for k in "XYZ") or "Z" in p: self.kz = False
            if not any(k in p for k in "XYZ") or "X" in p: self.kx = False
            if not any(k in p for k in "XYZ") or "Y" in p: self.ky = False
        if self.inch != unit: self.kx = self.ky = self.kz = False

class Run:
    """one conversion: everything the judgements need"""

def convert(exe, seed, idx, d, gentle=False, fw=None):
    r = random.Random("straight|%s|%d" % (seed, idx))
    R = Run()
    R.fw = fw or firm.ALL[idx % len(firm.ALL)]
    fine = idx < 0              # more segments than 16 bits can count
    R.cfg, R.g90, R.args = arcgen.cfg_for(r, R.fw, fine)
    p = arcgen.Prog(r, R.fw, R.g90, marked=fine or r.random() < 0.75, gentle=gentle, fine=fine)
    R.data = p.program(2 if fine else r.randint(3, 30)); R.marked = p.marked
    src = os.path.join(d, "s%d.gcode" % idx); dst = os.path.join(d, "o%d.gcode" % idx)
    tools.put(src, R.data)
    a = list(R.args)
    R.inplace = r.random() < 0.1
    pos = [src] if R.inplace else [src, dst]
    a = a + pos if r.random() < 0.7 else pos + a
    R.rc, R.log = tools.run(exe, a, d)
    R.out = tools.read(src if R.inplace else dst)
    for f in (src, dst):
        if os.path.exists(f): os.unlink(f)
    R.cmdline = a
    return R

class Arc:
    __slots__ = ("i", "m0", "m1", "p", "cw", "cx", "cy", "r", "sweep", "circle", "a0", "segs", "raw", "states", "relative", "slack")

def analyse(R):
    """-> list of (property, kind, message); fills R.arcs"""
    V = []
    R.arcs = []
    R.verbatim = 0
    R.ambiguous = False
    if R.rc != 0 or R.out is None:
        return [("*", "failed", "exit %s: %s" % (R.rc, R.log[-300:]))]
    src = R.data.decode("latin-1").split("\n")
    if src[-1] == "": src.pop()
    out = R.out.decode("latin-1").split("\n")
    if out and out[-1] == "": out.pop()
    else: V.append(("C26", "last-line", "the last line isn't ended"))
    # header
    h = 0
    while h < len(out) and out[h].startswith("; ") : h += 1
    if h >= len(out) or out[h] != "": return V + [("C26", "header", "no header block: %r" % out[:3])]
    R.header = out[:h]
    j = h + 1
    m = M(R.g90)
    nseg = 0
    n = len(src)
    for i, line in enumerate(src):
        cmd, p = gm.read(line)
        if cmd in ("G2", "G3") and m.kx and m.ky and (m.kz or "Z" not in p):
            a = Arc()
            a.i = i; a.raw = line; a.m0 = m.clone(); m.run(cmd, p); a.m1 = m.clone(); a.p = p; a.cw = cmd == "G2"
            u = 25.4 if m.inch else 1.0
            if p.get("R"): ci, cj = firm.centre(a.m0.x, a.m0.y, a.m1.x, a.m1.y, p["R"] * u, a.cw)
            else: ci, cj = (p.get("I") or 0.0) * u, (p.get("J") or 0.0) * u
            a.cx, a.cy = a.m0.x + ci, a.m0.y + cj
            a.r = math.hypot(ci, cj)
            a.circle = abs(a.m0.x - a.m1.x) < 1e-9 and abs(a.m0.y - a.m1.y) < 1e-9
            a.a0 = math.atan2(-cj, -ci)
            s = math.atan2(a.m1.y - a.cy, a.m1.x - a.cx) - a.a0
            a.sweep = TAU if a.circle else (-s if a.cw else s) % TAU
            a.relative = m.rel
            big = max(abs(a.m0.x), abs(a.m0.y), abs(a.m1.x), abs(a.m1.y), abs(a.cx), abs(a.cy), a.r)
            a.slack = 10 * ulp(big) + 1e-6 * a.r
            R.arcs.append(a)
            # the lines standing for it
            nxt = src[i + 1] if i + 1 < n else None
            o = m.clone(); st = a.m0
            for k in ("x", "y", "z", "e", "f", "pushed"): setattr(o, k, getattr(st, k))
            a.segs = []; a.states = []
            nn = None
            if not R.marked:
                c = firm.segments(R.fw, R.cfg, a.r, a.sweep, a.circle, a.m1.z - a.m0.z, a.m1.f, a.slack)
                nn = sorted(set(x[0] for x in c)) or [1]
                if len(nn) > 1 and nxt is not None and (SEG.match(nxt) or gm.read(nxt)[0] in ("G2", "G3")): R.ambiguous = True; return V
            while j < len(out):
                t = out[j]
                k = len(a.segs)
                if nn is None:
                    if nxt is not None and t == nxt: break
                elif nxt is not None:
                    # nothing marks the end: the next line may look like a segment, or be an arc as well
                    if SEG.match(nxt) or gm.read(nxt)[0] in ("G2", "G3"):
                        if k >= nn[0]: break
                    elif t == nxt: break
                q = SEG.match(t)
                if not q: break
                c2, p2 = gm.read(t)
                o.run(c2, p2)
                a.segs.append(t); a.states.append((o.x, o.y, o.z, o.pushed - st.pushed, o.f)); j += 1
            nseg += len(a.segs)
        else:
            if cmd in ("G2", "G3"): R.verbatim += 1
            m.run(cmd, p) if cmd else None
            if j >= len(out) or out[j] != line:
                V.append(("C26", "line-changed", "source line %d %r, output line %d %r" % (i + 1, line[:80], j + 1, out[j][:80] if j < len(out) else "<end>")))
                R.aligned = False
                return V
            j += 1
    R.aligned = True
    if j != len(out): V.append(("C26", "extra-lines", "output has %d lines too many from %r" % (len(out) - j, out[j][:80]))); return V
    for a in R.arcs: judge_arc(R, a, V)
    # summary
    want = {"Lines Processed": n, "Arc Commands Processed": len(R.arcs), "Arc Segments Generated": nseg}
    for k, v in want.items():
        g = re.search(re.escape(k) + r"\s*: (\d+)", R.log)
        if not g or int(g.group(1)) != v: V.append(("C26", "summary", "%s: reported %s, counted %d" % (k, g and g.group(1), v)))
    header(R, V)
    return V

def header(R, V):
    t = R.header
    d = {}
    for l in t:
        if "=" in l: k, v = l[2:].split("=", 1); d[k] = v
    def bad(k, w): V.append(("C26", "header", "header says %s=%r, in force is %r" % (k, d.get(k), w)))
    if d.get("firmware_type") != R.fw[0]: bad("firmware_type", R.fw[0])
    if (d.get("firmware_version") or "").split(" ")[0] != R.fw[1]: bad("firmware_version", R.fw[1])
    if d.get("g90_g91_influences_extruder") != str(bool(R.g90)): bad("g90_g91_influences_extruder", R.g90)
    names = {}
    for k, v in R.cfg.items():
        nm, ty = firm.OPT[k]; names[nm] = 1
        try: ok = abs(float(d[nm]) - v) <= (0.00501 if ty is float else 0)
        except (KeyError, ValueError): ok = False
        if not ok: bad(nm, v)
    for k in d:
        if k not in names and k not in ("firmware_type", "firmware_version", "g90_g91_influences_extruder") : V.append(("C26", "header", "header has %s=%s, a setting this firmware doesn't have" % (k, d[k])))

def judge_arc(R, a, V):
    fw = R.fw
    n = len(a.segs)
    where = "%s %s: line %d %r from (%.5f, %.5f, %.3f)" % (fw[0], fw[1], a.i + 1, a.raw[:90], a.m0.x, a.m0.y, a.m0.z)
    if R.args: where += " with " + " ".join(R.args)
    def bad(p, k, msg): V.append((p, k, msg + ": " + where))
    inch = a.m0.inch
    dz = a.m1.z - a.m0.z; de = a.m1.pushed - a.m0.pushed
    f = a.m1.f
    cand = firm.segments(fw, R.cfg, a.r, a.sweep, a.circle, dz, f, a.slack)
    nn = sorted(set(c[0] for c in cand))
    if n not in nn:
        bad("C25", "segments", "%d segments, expected %s (radius %.4f, %.4f rad, %.4f mm, F%g)" % (n, nn[:4], a.r, a.sweep, a.r * a.sweep, f))
        if n == 0:
            bad("C23", "vanished", "no moves"); bad("C24", "vanished", "no moves")
            return
        theta = a.sweep / n
    else: theta = angle_between(a, cand)
    # C26: shape of the lines
    last = {}
    for t in a.segs:
        ws = WORD.findall(t[2:])
        names = [w[0] for w in ws]
        want = {"X": 3, "Y": 3, "Z": 3, "E": 5, "F": 0}
        if names != [c for c in "XYZEF" if c in names]: bad("C26", "words", "%r" % t); break
        for L, ip, fp in ws:
            w = want[L] + (2 if inch else 0)
            if len(fp or "") > w or (len(ip.lstrip("-")) > 1 and ip.lstrip("-")[0] == "0"): bad("C26", "number", "%s%s.%s in %r" % (L, ip, fp, t)); break
    # C23
    dr = firm.drift(fw, R.cfg, theta)
    sgn = -1 if a.cw else 1
    unit = 0.0005 if not inch else 0.00013
    worst = 0.0
    for k, (x, y, z, e, ff) in enumerate(a.states, 1):
        if k == n: ix, iy = a.m1.x, a.m1.y; tol = 0.0
        else:
            an = a.a0 + sgn * k * theta
            ix, iy = a.cx + a.r * math.cos(an), a.cy + a.r * math.sin(an)
            tol = a.r * dr(k) + a.slack + 3e-7 * a.r * k
        tol += unit * 1.4143 * (k if a.relative else 1) + 2 * ulp(max(abs(x), abs(y))) * (k if a.relative else 1)
        dd = math.hypot(x - ix, y - iy)
        worst = max(worst, dd / tol)
        if dd > tol:
            bad("C23", "end-point" if k == n else "vertex", "vertex %d of %d at (%.4f, %.4f), %.4f mm from its place (%.4f, %.4f), allowed %.4f" % (k, n, x, y, dd, ix, iy, tol)); break
    R.worst = max(getattr(R, "worst", 0), worst)
    # C24
    frac = (lambda k: 1.0 if k == n else k * theta / a.sweep if a.sweep else 1.0)
    zu, eu = unit, (5e-6 if not inch else 2e-6)
    bige = max(abs(a.m0.e), abs(a.m1.e), abs(de)); bigz = max(abs(a.m0.z), abs(a.m1.z))
    fd = 0.51 if not inch else 0.0052 * 25.4
    rough = 3 * a.slack / max(a.r * a.sweep, 1e-9)
    for k, (x, y, z, e, ff) in enumerate(a.states, 1):
        q = frac(k)
        tz = zu * (k if a.relative else 1) + ulp(bigz) * (k + 2) + (1e-5 + rough) * abs(dz)
        if abs(z - a.m0.z - dz * q) > tz:
            bad("C24", "z", "Z %.5f after move %d of %d, expected %.5f" % (z, k, n, a.m0.z + dz * q)); break
        te = eu * (k if a.m0.erel else 1) + ulp(bige) * (k + 2) + (1e-5 + rough) * abs(de) * (0 if k == n else 1)
        if fw in firm.E_LAST and k < n: want = None
        else: want = de * q
        if want is not None and abs(e - want) > te:
            bad("C24", "e", "%.6f mm filament after move %d of %d, expected %.6f (+-%.6f)" % (e, k, n, want, te)); break
        if want is None and not -te <= (e if de >= 0 else -e) <= abs(de) + te:
            bad("C24", "e", "%.6f mm filament after move %d of %d" % (e, k, n)); break
        if f and abs(ff - f) > fd:
            bad("C24", "f", "feed rate %g during move %d of %d, expected %g" % (ff, k, n, f)); break

def angle_between(a, cand):
    """the angle between vertices that explains the last one best"""
    n = len(a.segs)
    return min([c for c in cand if c[0] == n] or [(n, a.sweep / n)], key=lambda c: abs((angle_of(a, n - 2) - (n - 1) * c[1] + math.pi) % TAU - math.pi) if n > 1 else 0)[1]

def angle_of(a, k):
    x, y = a.states[k][0], a.states[k][1]
    s = math.atan2(y - a.cy, x - a.cx) - a.a0
    return (-s if a.cw else s) % TAU

# ---------------------------------------------------------------- workers
def chunk(args):
    exe, seed, lo, hi, prop, gentle = args
    d = weldrun.scratch("vf_st_")
    agg = dict(n=0, viol=[], stat={}, keys=set(), samples=[])
    def b(k, v=1): agg["stat"][k] = agg["stat"].get(k, 0) + v
    try:
        for i in range(lo, hi):
            R = convert(exe, seed, i, d, gentle)
            V = analyse(R)
            agg["n"] += 1
            if R.ambiguous: b("programs_not_attributable"); continue      # adjacent moves without anything between them, rounding decides where the first ends
            b("arcs_judged", len(R.arcs)); b("arcs_kept_verbatim", R.verbatim); b("segments_judged", sum(len(a.segs) for a in R.arcs if hasattr(a, "segs"))); b("source_lines", R.data.count(b"\n"))
            agg["stat"]["max_vertex_error_relative_to_allowed"] = max(agg["stat"].get("max_vertex_error_relative_to_allowed", 0), getattr(R, "worst", 0))
            for a in R.arcs:
                if getattr(a, "segs", None):
                    b("arcs_" + "_".join(R.fw)); b("relative_arcs", a.relative); b("inch_arcs", a.m0.inch); b("full_circles", a.circle); b("r_form_arcs", bool(a.p.get("R"))); b("helical_arcs", a.m1.z != a.m0.z); b("single_segment_arcs", len(a.segs) == 1); b("arcs_of_over_65534_segments", len(a.segs) > 65534)
                    agg["keys"].add((R.fw, tuple(sorted(R.cfg.items())), round(math.log(a.r + 1e-9) * 4), round(a.sweep * 8), a.cw, a.relative, a.m0.erel, a.m0.inch, len(a.segs)))
            for p, k, msg in V:
                if p in (prop, "*"):
                    agg["viol"].append((k, msg, {"data": R.data.decode("latin-1"), "args": R.args, "command": R.cmdline}))
            if not agg["samples"] and R.arcs and getattr(R.arcs[0], "segs", None):
                agg["samples"].append({"firmware": R.fw, "args": R.args, "arc": R.arcs[0].raw, "first segments": R.arcs[0].segs[:3], "segments": len(R.arcs[0].segs)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    agg["viol"] = agg["viol"][:6]
    return agg

def sweep(ctx, n, gentle=False, step=25):
    build.build("rel", ["ArcStraightener"])
    exe = build.exe("rel", "straight")
    tasks = [(exe, ctx.seed, lo, min(lo + step, n), ctx.prop, gentle) for lo in range(0, n, step)]
    if not gentle: tasks = [(exe, ctx.seed, lo, lo + 1, ctx.prop, gentle) for lo in range(-8 * ctx.scale(1, 6), 0)] + tasks
    with ProcessPoolExecutor(8) as ex:
        for agg in ex.map(chunk, tasks):
            ctx.evaluations += agg["n"]
            for k in agg["keys"]: ctx.distinct.add(hashlib.md5(repr(k).encode()).hexdigest()[:12])
            for k, v in agg["stat"].items():
                if k.startswith("max_"): ctx.maxi(k, round(v, 4))
                else: ctx.count(k, v)
            for s in agg["samples"]: ctx.sample(s)
            for k, msg, rep in agg["viol"]: ctx.violation(k, msg, rep)
    ctx.rule = "Generated programs with arcs converted by ArcStraightener under every firmware emulation and random settings; an arc is a distinct case by firmware, settings, radius class, sweep class, direction, modes and number of segments."
    ctx.need("too few arcs", ctx.cov.get("arcs_judged", 0) > 5000)
    for f in firm.ALL: ctx.need("no arcs under %s %s" % f, ctx.cov.get("arcs_" + "_".join(f), 0) > 200)

def arcs(ctx):
    sweep(ctx, ctx.scale(2400, 30000))

# ---------------------------------------------------------------- C27: command line
def c27(ctx):
    build.build("rel", ["ArcStraightener"])
    exe = build.exe("rel", "straight")
    r = random.Random("C27|%s" % ctx.seed)
    root = weldrun.scratch("vf_c27_")
    try:
        defaults(ctx, exe, root)
        spellings(ctx, exe, root, r)
        refused(ctx, exe, root, r)
        ctx.rule = "One run of the program per command line; distinct by firmware, set of options spelled and naming of the files."
    finally:
        shutil.rmtree(root, ignore_errors=True)

def num(r, v):
    if isinstance(v, int): return r.choice(["%d", "%d", "0%d", "+%d"]) % v
    s = r.choice([repr(v), "%g" % v, "%.6f" % v, "%e" % v, "+" + repr(v)])
    if float(s) != v: s = repr(v)
    return s[1:] if s.startswith("0.") and r.random() < 0.2 else s

PROBE = b"G21\nG90\nM82\nG92 E0\nG0 X10 Y10 Z0.2 F1800\n;<\nG2 X30 Y10 I10 J0 E5\n;>\nG91\n;<\nG3 X-7 Y3 R5 E2 F3000\n;>\nG90\n;<\nG3 X20 Y20 I1.5 J2 E9\n;>\nM83\n;<\nG2 X60 Y60 R300 E9 Z1\n;>\n"

def defaults(ctx, exe, root):
    """-p states the settings and defaults that conversions use"""
    for fw in firm.ALL:
        f, v = fw
        for args in (["-f=" + f, "-v=" + v], ["--firmware-type=" + f, "--firmware-version=" + v], (["-f=" + f] if firm.LATEST[f] == v else None), (["-f=" + f, "-v=LATEST_RELEASE"] if firm.LATEST[f] == v else None)):
            if args is None: continue
            for p in ("-p", "--print-firmware-defaults"):
                a = args + [p] if len(args) % 2 else [p] + args
                rc, out = tools.run(exe, a, root)
                ctx.eval(("defaults", fw, len(args))); ctx.count("printed_defaults")
                d = dict(re.findall(r"^\t([a-z0-9-]+) *: *(\S+)", out, re.M))
                if rc != 0: ctx.violation("help", "%s: exit %s: %s" % (" ".join(a), rc, out[-300:])); continue
                for k, val in firm.USED[fw].items():
                    nm = firm.OPT[k][0].replace("_", "-")
                    try: ok = abs(float(d[nm]) - val) < 0.00051
                    except (KeyError, ValueError): ok = False
                    if not ok: ctx.violation("defaults", "%s: %s=%s, the default is %s: %r" % (" ".join(a), nm, d.get(nm), val, out[:600]))
                for k in d:
                    if k in [x[0].replace("_", "-") for x in firm.OPT.values()] and k not in [firm.OPT[x][0].replace("_", "-") for x in firm.USED[fw]]: ctx.violation("defaults", "%s: lists --%s, which %s doesn't have" % (" ".join(a), k, fw))
                if os.listdir(root): ctx.violation("leftover", "%s leaves %s" % (a, os.listdir(root)))
    for a in ("-h", "--help", "--version"):
        rc, out = tools.run(exe, [a], root)
        if a == "-h":
            # what the versions of each firmware are
            flat = re.sub(r"\s+", "", out)
            for f, vs in firm.VERSIONS.items():
                ctx.count("version_lists")
                want = f.replace("_", "") + "versions:" + ",".join(vs)
                if want not in flat: ctx.violation("help", "-h doesn't list the versions of %s" % f, {"want": want, "out": flat[-3000:]})
        ctx.eval(a)
        if rc != 0 or not out.strip(): ctx.violation("help", "%s: exit %s" % (a, rc))
        if a == "-h":
            for k, (nm, ty) in firm.OPT.items():
                if "--%s" % nm.replace("_", "-") not in out: ctx.violation("help", "-h doesn't mention %s" % nm)

def spellings(ctx, exe, root, r):
    """two spellings of one configuration give one result; the result is the one of the settings (C23-C26 judge the canonical spelling)"""
    n = ctx.scale(2500, 20000)
    jobs = []
    for i in range(n):
        fw = firm.ALL[i % len(firm.ALL)]
        sub = random.Random(r.random())
        cfg, g90, args = arcgen.cfg_for(sub, fw)
        base = ["-f=" + fw[0], "-v=" + fw[1], "-g=" + ("TRUE" if g90 else "FALSE")] + ["-%s=%r" % (k, v) for k, v in sorted(cfg.items())]
        var = []
        for k, v in cfg.items():
            if v != firm.USED[fw][k] or r.random() < 0.3: var.append("%s=%s" % (r.choice(["-" + k, "--" + firm.OPT[k][0].replace("_", "-")]), num(r, v)))
        if g90 != firm.G90[fw[0]] or r.random() < 0.3: var.append(r.choice(["-g=", "--g90-g91-influences-extruder="]) + ("TRUE" if g90 else "FALSE"))
        elif r.random() < 0.3: var.append("-g=DEFAULT")
        if fw[0] != "MARLIN_2" or r.random() < 0.5: var.append(r.choice(["-f=", "--firmware-type="]) + fw[0])
        if fw[1] != firm.LATEST[fw[0]]: var.append(r.choice(["-v=", "--firmware-version="]) + fw[1])
        elif r.random() < 0.5: var.append(r.choice(["-v=", "--firmware-version="]) + r.choice(["LATEST_RELEASE", fw[1]]))
        if r.random() < 0.5: var.append(r.choice(["-l=", "--log-level="]) + r.choice(["NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]))
        r.shuffle(var)
        name = r.choice(["a.gcode", "my file.gcode", "t\u00e9st.gcode", "a=b.gcode", "noext", "'q\".g"])
        mode = r.choice(["target", "target", "in place", "overwrite"])
        files = [name] if mode == "in place" else [name, "out.gcode"]
        pos = sorted(r.randint(0, len(var)) for _ in files)
        mixed = list(var)
        for k, f in enumerate(files): mixed.insert(pos[k] + k, f)
        p = arcgen.Prog(random.Random(r.random()), fw, g90)
        jobs.append((i, fw, base, mixed, name, mode, PROBE + p.program(6), cfg, g90))
    def go(j):
        i, fw, base, mixed, name, mode, data, cfg, g90 = j
        d = os.path.join(root, "s%d" % i); os.makedirs(d)
        tools.put(os.path.join(d, "ref.gcode"), data)
        rc0, o0 = tools.run(exe, base + ["ref.gcode", "exp.gcode"], d)
        want = tools.read(os.path.join(d, "exp.gcode"))
        os.unlink(os.path.join(d, "ref.gcode"))
        if os.path.exists(os.path.join(d, "exp.gcode")): os.unlink(os.path.join(d, "exp.gcode"))
        tools.put(os.path.join(d, name), data)
        if mode == "overwrite": tools.put(os.path.join(d, "out.gcode"), b"old\n" * 20000)
        rc, out = tools.run(exe, mixed, d)
        got = tools.read(os.path.join(d, name if mode == "in place" else "out.gcode"))
        w = "ArcStraightener %s" % " ".join(mixed)
        v = None
        if rc0 != 0 or want is None: v = ("rejected", "%s: exit %s: %s" % (" ".join(base), rc0, o0[-300:]))
        elif rc != 0: v = ("rejected", "%s: exit %s: %s" % (w, rc, out[-300:]))
        elif in_force(o0, cfg, g90): v = ("in-force", "%s: %s" % (" ".join(base), in_force(o0, cfg, g90)))
        elif body(got) != body(want): v = ("option-lost", "%s differs from %s" % (w, " ".join(base)))
        elif mode != "in place" and tools.read(os.path.join(d, name)) != data: v = ("source-changed", w)
        elif sorted(os.listdir(d)) != sorted({name} if mode == "in place" else {name, "out.gcode"}): v = ("leftover", "%s leaves %s" % (w, os.listdir(d)))
        shutil.rmtree(d)
        return v
    for j, v in zip(jobs, tools.pmap(go, jobs)):
        ctx.eval((j[1], tuple(sorted(re.sub("=.*", "", a) for a in j[3] if a.startswith("-"))), j[5])); ctx.count("valid_command_lines"); ctx.count("options_given", len(j[3]))
        if v: ctx.violation(v[0], v[1], {"args": j[3], "data": j[6]})

def in_force(text, cfg, g90):
    """the settings it says are in force against those given"""
    d = dict(re.findall(r"^\t([a-z0-9-]+) *: *(\S+)", text, re.M))
    if d.get("g90-g91-influences-extruder", "").upper() != str(g90).upper(): return "g90-g91-influences-extruder is given as %s" % d.get("g90-g91-influences-extruder")
    for k, v in cfg.items():
        nm = firm.OPT[k][0].replace("_", "-")
        try: ok = abs(float(d[nm]) - v) <= (0 if isinstance(v, int) else 0.00501)
        except (KeyError, ValueError): ok = False
        if not ok: return "%s=%r is given as %s" % (nm, v, d.get(nm))

def body(b):
    """without the (LATEST_RELEASE) mark of the header"""
    return None if b is None else b.replace(b" (LATEST_RELEASE)", b"", 1)

def refused(ctx, exe, root, r):
    data = PROBE
    sets = []
    for fw in firm.ALL:
        f = ["-f=" + fw[0], "-v=" + fw[1]]
        for k, (nm, ty) in firm.OPT.items():
            if k not in firm.USED[fw]:
                for a in ("-%s=%s" % (k, 2 if ty is int else 0.5), "--%s=%s" % (nm.replace("_", "-"), 2 if ty is int else 0.5)): sets.append((f + [a] if r.random() < 0.5 else [a] + f, ("foreign", fw, k)))
            else:
                for a in ("abc", "1x", "1,5", "") + (("1.5",) if ty is int else ()): sets.append((f + ["-%s=%s" % (k, a)], ("number", fw, k)))
        if "m" in firm.USED[fw] and fw[0] != "SMOOTHIEWARE":
            for a in ("0", "-1", "-0.5", "nan"): sets.append((f + ["-m=" + a], ("mm", fw, a)))
        if "d" in firm.USED[fw]:
            for a in ("0", "-1"): sets.append((f + ["-d=" + a], ("d", fw, a)))
        for o, v in firm.ALL:
            if o != fw[0]: sets.append((["-f=" + fw[0], "-v=" + v], ("version", fw, v))) if v not in firm.VERSIONS[fw[0]] else None
    for a in (["-f=BOGUS"], ["-f="], ["-f=marlin_2"], ["-v=9.9"], ["-v="], ["-g=yes"], ["-g=true"], ["-g="], ["-l=LOUD"], ["-q"], ["--bogus=1"], ["-f=PRUSA", "-f=PRUSA"], ["-m=1", "-m=2"], ["-m"]): sets.append((a, ("option", tuple(a))))
    def go(t):
        i, (args, key) = t
        d = os.path.join(root, "b%d" % i); os.makedirs(d)
        inplace = i % 3 == 0
        tools.put(os.path.join(d, "a.gcode"), data)
        if i % 3 == 1: tools.put(os.path.join(d, "out.gcode"), b"precious")
        files = ["a.gcode"] + ([] if inplace else ["out.gcode"])
        rc, out = tools.run(exe, args + files if args[-1] != "-m" else files + args, d)
        w = "ArcStraightener %s" % " ".join(args)
        v = None
        if rc == 0: v = ("accepted", "%s: exit 0" % w)
        elif rc == "hang" or rc < 0 or rc in (134, 139): v = ("crash", "%s: exit %s: %s" % (w, rc, out[-300:]))
        elif tools.read(os.path.join(d, "a.gcode")) != data: v = ("source-changed", w)
        elif tools.read(os.path.join(d, "out.gcode")) != (b"precious" if i % 3 == 1 else None): v = ("target-written", w)
        elif sorted(os.listdir(d)) != (["a.gcode", "out.gcode"] if i % 3 == 1 else ["a.gcode"]): v = ("leftover", w)
        elif not out.strip(): v = ("silent", "%s: refused without a message" % w)
        shutil.rmtree(d)
        return v
    for (args, key), v in zip(sets, tools.pmap(go, list(enumerate(sets)))):
        ctx.eval(key); ctx.count("invalid_command_lines")
        if v: ctx.violation(v[0], v[1], {"args": args})
    for args in ([], ["-m=1"], ["a.gcode", "b.gcode", "c.gcode"], ["missing.gcode"], ["missing.gcode", "b.gcode"], [""], ["a.gcode", "nodir/b.gcode"], ["nodir/a.gcode"]):
        d = os.path.join(root, "m"); os.makedirs(d); tools.put(os.path.join(d, "a.gcode"), data)
        rc, out = tools.run(exe, args, d)
        ctx.eval(("files", tuple(args))); ctx.count("invalid_command_lines")
        if rc == 0: ctx.violation("accepted", "ArcStraightener %r: exit 0" % args)
        elif rc == "hang" or rc < 0: ctx.violation("crash", "ArcStraightener %r: exit %s: %s" % (args, rc, out[-300:]))
        if os.listdir(d) != ["a.gcode"] or tools.read(os.path.join(d, "a.gcode")) != data: ctx.violation("target-written", "ArcStraightener %r leaves %s" % (args, os.listdir(d)))
        shutil.rmtree(d)

# ---------------------------------------------------------------- C31: arbitrary input
ARCCMD = ["G2", "G3", "G2", "G3", "G02", "g3", "G2.1"]
def hostile_arcs(r):
    """bytes with arcs nobody writes"""
    k = r.random()
    if k < 0.3:
        p = arcgen.Prog(r, firm.ALL[r.randrange(len(firm.ALL))], False); d = p.program(r.randint(1, 12))
        return hostile.mutate(r, d)
    if k < 0.4: return hostile.case(r)[0]
    out = ["G90", "G1 X%s Y%s Z%s F%s" % tuple(hostile.number(r) if r.random() < 0.15 else r.choice(["0", "10", "1800", "0.2"]) for _ in "XYZF")]
    for _ in range(r.randint(1, 12)):
        if r.random() < 0.2: out.append(hostile.word_line(r)); continue
        s = r.choice(ARCCMD)
        for l in r.sample("XYZIJREFPQ", r.randint(0, 7)): s += " " + l + (hostile.number(r) if r.random() < 0.3 else "%.3f" % r.uniform(-20, 20) if r.random() < 0.9 else "0")
        out.append(s)
    return r.choice(["\n", "\n", "\r\n"]).join(out).encode("latin-1", "replace")

def hostile_args(r):
    fw = firm.ALL[r.randrange(len(firm.ALL))]
    a = ["-f=" + fw[0], "-v=" + fw[1]]
    for k in firm.USED[fw]:
        if r.random() < 0.5: continue
        if firm.OPT[k][1] is int: v = r.choice(["0", "-1", "1", "2", "127", "128", "255", "256", "65535", "65536", "-2147483648", "2147483647"])
        else: v = r.choice(["0", "-1", "1", "0.05", "1e-3", "1e30", "-1e30", "1e-300", "inf", "nan", "100"])
        a.append("-%s=%s" % (k, v))
    if r.random() < 0.1: a.append("-%s=%s" % (r.choice("mdinbracse"), hostile.number(r)))
    return a

DICT = ["G2", "G3", "G1", "G0", "G90", "G91", "G92", "G28", "G20", "G21", "M82", "M83", " X", " Y", " Z", " I", " J", " R", " E", " F", "\\x0a", "\\x0d\\x0a", ";", "G2 X10 Y0 I5 J0", "G3 I5", "G2 X1 R-5"]

def c31(ctx):
    from checks import memory
    asan, dbg, fz = tools.pmap(lambda a: build.straight_driver(*a), [("asan", "straight_main"), ("dbg", "straight_main"), ("fuzz", "straight_fuzz", ("-fsanitize=fuzzer",))])
    root = weldrun.scratch("vf_c31_")
    try:
        found = []                              # nothing is added by more of them, and a hang takes long
        def one(t):
            i, exe, pre, kind = t
            if len(found) >= 6: return None
            r = random.Random("C31|%s|%s|%d" % (ctx.seed, kind, i))
            d = os.path.join(root, "%s%d" % (kind, i)); os.makedirs(d)
            if r.random() < 0.35:
                fw = firm.ALL[i % len(firm.ALL)]; cfg, g90, args = arcgen.cfg_for(r, fw); data = arcgen.Prog(r, fw, g90).program(r.randint(2, 20))
            else: data = hostile_arcs(r); args = hostile_args(r)
            tools.put(os.path.join(d, "a.gcode"), data)
            a = args + ["a.gcode"] + r.choice([["b.gcode"], ["b.gcode"], []])
            rc, out = tools.run(pre[0] if pre else exe, (pre[1:] + [exe] if pre else []) + a, d, timeout=60)
            left = sorted(os.listdir(d)); o = tools.read(os.path.join(d, "b.gcode" if "b.gcode" in a else "a.gcode"))
            shutil.rmtree(d)
            g = re.search(r"Arc Segments Generated\s*: (\d+)", out)
            bad = None
            if rc == "hang": bad = "hang"
            elif rc not in (0, 1) or "runtime error" in out or "AddressSanitizer" in out: bad = "valgrind" if rc == 9 else "crash"
            elif rc == 0 and o is None: bad = "no-output"
            elif rc == 1 and "b.gcode" in a and o is not None: bad = "refused-but-written"
            elif left != sorted({"a.gcode", "b.gcode"} if "b.gcode" in a and rc == 0 else {"a.gcode"}): bad = "leftover"
            if bad: found.append(bad)
            return kind, rc, bad, a, data, memory.tidy(out) if bad else "", int(g.group(1)) if g else 0
        vg = ["valgrind", "-q", "--error-exitcode=9", "--leak-check=no", "--exit-on-first-error=yes"]
        tasks = [(i, asan, None, "asan") for i in range(ctx.scale(3000, 40000))] + [(i, dbg, vg, "valgrind") for i in range(ctx.scale(60, 1200))]
        for res in tools.pmap(one, tasks):
            if res is None: continue
            kind, rc, bad, a, data, msg, segs = res
            ctx.eval((kind, hashlib.md5(data).hexdigest()) if segs else None); ctx.count("programs_under_" + kind); ctx.count("segments_generated", segs); ctx.count("refused", int(rc == 1))
            if bad: ctx.violation(bad, "%s: ArcStraightener %s: exit %s: %s" % (kind, " ".join(a), rc, msg), {"args": a, "data": data})
        if found: return
        memory.deep(ctx, asan, root, [["-f=MARLIN_2", "-l=DEBUG"], ["-f=PRUSA", "-l=INFO"], ["-f=REPETIER", "-l=VERBOSE"]], "ArcStraightener")
        r = random.Random("C31f|%s" % ctx.seed)
        seeds = []
        for _ in range(300): seeds.append(bytes(r.randint(0, 255) for _ in range(4)) + hostile_arcs(r)[:400])
        for i in range(200): seeds.append(bytes(r.randint(0, 255) for _ in range(4)) + arcgen.Prog(r, firm.ALL[i % 8], False).program(3)[:400])
        memory.fuzz(ctx, fz, root, seeds, ctx.scale(15, 400), 400, DICT)
        ctx.need("no segments", ctx.cov.get("segments_generated", 0) > 100000)
        ctx.need("the fuzzer ran nothing", ctx.cov.get("fuzz_executions", 0) > 1000)
        ctx.rule = "Runs of the straightener on mutated programs, garbage, arcs of any magnitude, ordinary programs and any option value; distinct by content among those that generate segments. Plus executions of the coverage-guided fuzzer."
    finally:
        shutil.rmtree(root, ignore_errors=True)
