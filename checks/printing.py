"""C35: the printing state that the tracker derives from the moves (extruding, retracted, layers, heights, bounds, travel), against a reference."""
import json, math, random
import build, gm
from checks import track

EPS = 5e-6                       # what the tracker takes for no difference
def gt(a, b): return a - b >= EPS
def ge(a, b): return a - b > -EPS
def near(a, b): return 2e-6 < abs(a - b) < 9e-6       # too close to the border to tell

class Conf:
    def __init__(self, r):
        self.buf = r.choice([2, 5, 50]); self.n, self.shared = r.choice([(1, 1), (1, 0), (1, 0), (2, 0), (3, 0), (4, 0)]); self.zero = int(r.random() < 0.8); self.g90e = int(r.random() < 0.5)
        self.default = r.choice([0, 0, self.n - 1, 7, -1])
        self.xyz = r.choice(["absolute"] * 4 + ["force-absolute", "relative", "require-explicit"]); self.e = r.choice(["absolute", "absolute", "relative", "force-relative", "require-explicit"]); self.units = r.choice(["millimeters"] * 5 + ["require-explicit"])
        self.home = [(int(r.random() < 0.6), r.choice([0.0, 0.0, 10.5, -3.0])) for _ in "XYZ"]
        self.priming = r.choice([0, 0, 0, 0.75, 1.5]); self.minlayer = r.choice([0, 0, 0.05, 0.15]); self.inc = r.choice([0, 0, 0.5, 1.0, 0.3])
        self.bound = int(r.random() < 0.6); self.round = int(r.random() < 0.4)
        self.box = [r.choice([-50, 0.0, 20]), r.choice([60, 100, 150]), r.choice([-50, 0.0, 20]), r.choice([80, 100, 150]), r.choice([0.0, -1.0]), r.choice([0.9, 2, 200])]
        self.tools = [(r.choice([0.8, 2.0, 1.0, 0.5, 0]), r.choice([0.2, 0.4, 0.3, 0])) for _ in range(self.n)]
        self.tool = min(max(self.default, 0), self.n - 1)
    def line(self):
        return " ".join(str(v) for v in [self.buf, self.n, self.shared, self.zero, self.g90e, self.default, self.xyz, self.e, self.units] + [w for h in self.home for w in h] + [self.priming, self.minlayer, self.inc, self.bound, self.round] + self.box + [w for t in self.tools for w in t])

def program(r, c):
    """a print as a slicer would make it, with everything that can happen between the layers"""
    out = []; z = 0.2; e = 0.0; rel = False; erel = r.random() < 0.5; x = y = 50.0; lifted = 0.0
    out.append("M83" if erel else "M82")
    if r.random() < 0.7: out.append("G28")
    if r.random() < 0.8: out.append("G90"); out.append("M83" if erel else "M82")
    if r.random() < 0.7: out.append("G21")
    if r.random() < 0.8: out.append("G1 Z%.2f F1200" % z)
    def E(q):
        nonlocal e
        e = round(e + q, 5)
        return " E%.5f" % (q if erel else e)
    def xy():
        nonlocal x, y
        if r.random() < 0.1: x, y = r.uniform(-60, 160), r.uniform(-60, 160)
        else: x, y = min(max(x + r.uniform(-8, 8), -60), 160), min(max(y + r.uniform(-8, 8), -60), 160)
        x, y = round(x, 3), round(y, 3)
        c = r.random()
        return " X%.3f Y%.3f" % (x, y) if c < 0.8 else " X%.3f" % x if c < 0.9 else " Y%.3f" % y
    for _ in range(r.randint(10, 60)):
        k = r.random()
        if k < 0.35:
            for _ in range(r.randint(1, 6)): out.append("%s%s%s" % (r.choice(["G1", "G1", "G0"]), xy(), E(round(r.uniform(0.001, 0.9), 5))))
        elif k < 0.5: out.append("G0" + xy() + (" Z%.3f" % (z + lifted) if r.random() < 0.3 else "") + (" F9000" if r.random() < 0.4 else ""))
        elif k < 0.68:
            # retract in one or several steps, move, give it back in one or several, or only in part
            q = r.choice([0.8, 2.0, 1.0, 0.5, 0.3]); m = r.choice([1, 1, 2, 3])
            for _ in range(m): out.append("G1" + (xy() if r.random() < 0.2 else "") + E(round(-q / m, 5)))
            if r.random() < 0.5: lifted = r.choice([0.2, 0.4, 0.3, 0.1]); out.append("G1 Z%.3f" % (z + lifted))
            for _ in range(r.randint(0, 3)): out.append(r.choice(["G0" + xy(), "M105", "G1 F3000", "; comment", "G4 P1"]))
            if lifted and r.random() < 0.8: lifted = 0.0; out.append("G1 Z%.3f" % z)
            m = r.choice([1, 1, 2, 4]); back = r.choice([q, q, q, q / 2, q + 0.1, 0])
            for _ in range(m):
                if back: out.append("G1" + (xy() if r.random() < 0.2 else "") + E(round(back / m, 5)))
        elif k < 0.82:
            z = round(max(0.05, z + r.choice([0.2, 0.2, 0.2, 0.1, 0.04, 0.3, -0.2, 1.0])), 3); lifted = 0.0; out.append("G1 Z%.3f" % z + (xy() if r.random() < 0.3 else "") + (E(0.3) if r.random() < 0.1 else ""))
        elif k < 0.87: out.append("T%d" % r.randrange(c.n + 1)); e = e
        elif k < 0.9: out.append("G92 E0"); e = 0.0
        elif k < 0.93: out.append(r.choice(["G28 X", "G28", "G28 Z", "G28 Y0"]))
        elif k < 0.95:
            out += ["G91", "G1 Z0.3", "G0 X1.5 Y-2", "G1 Z-0.3"] + ["G90"] + (["M83" if erel else "M82"] if c.g90e else []); x, y = x + 1.5, y - 2
        elif k < 0.97: out.append(r.choice(["G10 P%d", "M218 T%d", "G10 L1 P%d"]) % r.randrange(c.n + 1) + "".join(" %s%.2f" % (w, r.uniform(-20, 20)) for w in "XYZ" if r.random() < 0.6))
        else: out.append(r.choice(["G10", "G11", "G10 S1", "M400", "", "  ", ";LAYER:3", "G1", "G0 F1200", "M117 G1 Z99", "G2 X%.3f Y%.3f I1.5 J0.5 E%.5f" % (x, y, 0.1 if erel else e), "M82" if not erel else "M83", "G21", "G90" if not c.g90e else "M400"]))
    return out

class Ref:
    def __init__(self, c):
        self.c = c; self.t = [dict(retr=0.0, ext=0.0, dere=0.0, total=0.0, ing0=False, ing=False, primed=True, ret0=False, ret=False, retd=False, part=False, de0=False, de=False, ded=False, rel=0.0, X=0.0, Y=0.0, Z=0.0) for _ in range(c.n)]
        self.layer = 0; self.height = 0.0; self.leh = None; self.hinc = 0; self.hincs = 0; self.primed = False; self.definite = False; self.zhop = False; self.inside = True
        self.homed = [False] * 3; self.null = [c.xyz not in ("absolute", "relative", "force-absolute", "force-relative"), c.e not in ("absolute", "relative", "force-absolute", "force-relative"), c.units not in ("millimeters", "inches")]
        self.fresh = [True] * c.n       # no line has yet moved this tool's filament or the machine with it
    def copy(self):
        q = Ref.__new__(Ref); q.__dict__.update(self.__dict__); q.t = [dict(t) for t in self.t]; q.homed = list(self.homed); q.null = list(self.null); q.fresh = list(self.fresh); return q

FUNCS = {"G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "M207", "M208", "M218", "M563"}

def step(R, cmd, p, a, prev):
    """-> None, or why nothing can be told from here on"""
    c = R.c; k = a["tool"]; k0 = prev["tool"]; T = R.t[k]
    R.lchange = R.hichange = R.xytravel = R.xyztravel = False; R.dz = 0.0
    R.t[k0]["rel"] = 0.0
    known = cmd is not None and (cmd in FUNCS or cmd[0] == "T")
    R.ignored = not known
    if not known: return
    if cmd in ("G90", "G91"):
        R.null[0] = False
        if c.g90e: R.null[1] = False
    elif cmd in ("M82", "M83"): R.null[1] = False
    elif cmd in ("G20", "G21"): R.null[2] = False
    elif cmd == "G28":
        ax = [w for w in "XYZ" if w in p] or "XYZ"
        for i, w in enumerate("XYZ"): R.homed[i] = R.homed[i] or w in ax
    if (cmd == "G10" and p.get("P") is not None) or (cmd == "M218" and p.get("T") is not None):
        # offsets of a nozzle; the last one if there are not so many
        i = min(max(int(p["P" if cmd == "G10" else "T"]) - (0 if c.zero else 1), 0), c.n - 1)
        for w in "XYZ":
            if p.get(w) is not None: R.t[i][w] = p[w]
    if cmd in ("G0", "G1") and "E" not in p and ("X" in p or "Y" in p): R.xyztravel = "Z" in p; R.xytravel = "Z" not in p
    z, z0 = a["raw"][2], prev["raw"][2]
    R.dz = z - z0
    if not R.definite and a["metric"] and not any(R.null) and all(a[w] is not None for w in "xyz"): R.definite = True
    de = a["de"]; T["rel"] = de
    if not a["changed"]: return
    T["total"] += de
    r0 = T["retr"]; before = dict(T)
    if near(r0 - de, 0): return "border"
    T["retr"] = r0 - de if gt(r0 - de, 0) else 0.0
    T["ext"] = de - r0 if T["retr"] == 0 and gt(de, r0) else 0.0
    T["dere"] = r0 - T["retr"] if gt(r0, T["retr"]) else 0.0
    L = c.tools[k][0]
    if near(T["retr"], L): return "border"
    ing, ret, dee = gt(T["ext"], 0), gt(T["retr"], r0), T["dere"] > 0
    if k == k0:
        T["ing0"] = ing and not before["ing"]; T["ing"] = ing; T["ret0"] = ret and not before["ret"]; T["ret"] = ret; T["de0"] = dee and not before["de"]; T["de"] = dee
    else:
        for w in ("ing0", "ing", "ret0", "ret", "de0", "de"): T[w] = False
    T["primed"] = not ing and T["retr"] == 0; T["part"] = T["retr"] > 0 and T["retr"] < L - EPS; T["retd"] = ge(T["retr"], L); T["ded"] = r0 > 0 and T["retr"] == 0
    R.fresh[k] = False
    inside = True
    if c.bound:
        x, y = a["raw"][0], a["raw"][1]
        if c.round:
            d = math.hypot(x, y)
            if near(d, c.box[1]): return "border"
            inside = ge(c.box[1], d)
        else:
            for v, lo, hi in ((x, c.box[0], c.box[1]), (y, c.box[2], c.box[3]), (z, c.box[4], c.box[5])):
                if near(v, lo) or near(v, hi): return "border"
                if gt(lo, v) or gt(v, hi): inside = False
        R.inside = inside
    leh = R.leh or 0.0
    if near(z, leh): return "border"
    if gt(z, leh) and a["z"] is not None and (T["ing"] or (R.layer > 0 and T["ded"])):
        if not R.primed and (c.priming <= 0 or gt(c.priming, z)): R.primed = True
        if R.primed and inside:
            R.leh = z; h = R.height + c.minlayer
            if near(z, h): return "border"
            if ge(z, h):
                R.height = z; R.lchange = True; R.layer += 1
                if c.inc:
                    q = z / c.inc; i = int(math.floor(q + EPS))
                    if near(q, round(q)): return "border"
                    if i > R.hinc and i > 1: R.hinc = i; R.hichange = True; R.hincs += 1
    if T["ing"] or a["z"] is None or R.leh is None: R.zhop = False
    else:
        lift = c.tools[k][1]
        if near(z - R.leh, lift) or near(z, R.leh): return "border"
        R.zhop = gt(z, R.leh) and ge(z - R.leh, lift)

NAMES = [("retr", "retracted length"), ("ext", "extruded length"), ("dere", "length given back"), ("total", "filament fed"), ("ing0", "start of extruding"), ("ing", "extruding"), ("primed", "primed"), ("ret0", "start of retracting"), ("ret", "retracting"), ("retd", "retracted"), ("part", "partially retracted"), ("de0", "start of giving back"), ("de", "giving back"), ("ded", "given back"), ("rel", "filament of the line"), ("X", "X offset"), ("Y", "Y offset"), ("Z", "Z offset")]

def judge(ctx, ops, it):
    log = []; stack = []
    for op, arg in ops:
        a = json.loads(next(it)); log.append(op + str(arg.line() if op == "B" else arg))
        stop = [False]
        def bad(key, m): ctx.violation(key, "%s: %s" % (log[-1], m), {"ops": list(log)}); stop[0] = True
        if op == "B":
            stack = [(a, Ref(arg))]; n = 0; arg_home = arg.home; ctx.count("configurations")
            if a["tool"] != arg.tool: bad("tool", "starts with tool %d, configured %d of %d" % (a["tool"], arg.default, arg.n))
            if (a["st"]["modes"], a["rel"], a["erel"]) != ([int(v) for v in stack[0][1].null], int("relative" in arg.xyz), int("relative" in arg.e)) and not any(stack[0][1].null): bad("modes", "starts in the modes %r" % ([a["st"]["modes"], a["rel"], a["erel"]],))
        elif op == "L":
            n += 1; prev, R = stack[-1]; R = R.copy(); cmd, p = gm.read(arg)
            why = step(R, cmd, p, a, prev); s = a["st"]
            if why: ctx.count("stopped_at_a_border"); return skip(ops, it, len(log))
            ctx.count("lines")
            for k, v, w in (("layer", s["layer"], R.layer), ("height_increment", s["hinc"], R.hinc), ("height_increments", s["hincs"], R.hincs), ("primed", bool(s["primed"]), R.primed), ("definite", bool(s["definite"]), R.definite), ("layer_change", bool(s["lchange"]), R.lchange), ("increment_change", bool(s["hichange"]), R.hichange),
                            ("xy_travel", bool(s["xytravel"]), R.xytravel), ("xyz_travel", bool(s["xyztravel"]), R.xyztravel), ("travel", bool(a["trav"]), R.xytravel or R.xyztravel), ("lifted", bool(s["zhop"]), R.zhop), ("inside", bool(s["inside"]), R.inside), ("ignored", bool(s["ignored"]), R.ignored), ("line", s["line"], n), ("gcode", s["gcode"], 2 * n), ("homed", [bool(v) for v in s["homed"]], R.homed), ("modes", [bool(v) for v in s["modes"]], R.null),
                            ("snapshot", bool(s["snap"]), R.definite and R.primed and not any(R.null))):
                if v != w: bad(k, "%s is %r, the moves so far amount to %r" % (k, v, w))
            for k, v, w in (("height", s["height"], R.height), ("last_height", s["leh"] if s["leh"] is not None else -1e9, R.leh if R.leh is not None else -1e9), ("z_step", s["dz"], R.dz)):
                if abs(v - w) > 1e-6: bad(k, "%s is %r, the moves so far amount to %r" % (k, v, w))
            if cmd == "G28":
                for w, (fixed, at) in zip("xyz", arg_home):
                    if w.upper() in p or not any(v in p for v in "XYZ"):
                        ctx.count("axes_homed")
                        if (a[w] is None) == bool(fixed) or (fixed and abs(a["raw"]["xyz".index(w)] - at) > 1e-9): bad("home", "%s is %r after homing, %s" % (w, a[w], "the home position is %g" % at if fixed else "no home position is configured"))
            for i, (q, T) in enumerate(zip(s["ex"], R.t)):
                for j, (w, text) in enumerate(NAMES):
                    if R.fresh[i] and w in ("primed", "retd", "part"): continue       # nothing has moved yet
                    if (abs(q[j] - T[w]) > 2e-5 if j < 4 or j >= 14 else bool(q[j]) != T[w]): bad("tool-" + w, "tool %d, %s: %r, the moves so far amount to %r" % (i, text, q[j], T[w]))
            t = R.t[a["tool"]]
            if a["changed"]:
                ctx.eval((cmd, R.layer > 0, R.lchange, R.zhop, R.inside, R.primed, tuple(t[w] for w in ("ing0", "ing", "primed", "ret0", "ret", "retd", "part", "de0", "de", "ded"))))
                for w in ("ing0", "ret0", "ret", "retd", "part", "de0", "de", "ded"): ctx.count("lines_" + w, int(t[w]))
                ctx.count("layers", int(R.lchange)); ctx.count("lines_lifted", int(R.zhop)); ctx.count("lines_outside", int(not R.inside)); ctx.count("height_increments", int(R.hichange))
                zz = prev["z"] is not None and a["z"] is not None
                same = zz and all(prev[w] is not None and a[w] is not None for w in "xy") and all(abs(a["raw"][i] - prev["raw"][i]) < 1e-6 for i in range(3)) and abs(a["de"]) < 1e-6
                if same: bad("changed", "reports a change of position without one")
            elif any((prev[w] is None) != (a[w] is None) for w in "xyz"): bad("changed", "an axis becomes known or unknown without reporting it")
            elif prev["z"] is not None and a["z"] is not None and abs(a["raw"][2] - prev["raw"][2]) > 2e-5: bad("changed", "a change of height is not reported")
            if stop[0]: return skip(ops, it, len(log))
            stack.append((a, R)); stack = stack[-60:]
        elif op == "U":
            k = max(1, int(arg)); del stack[-k:]; ctx.count("updates_undone", k)
            if a != stack[-1][0]: bad("undo", "state after the undo differs from the state before the update: %s" % track.diff(a, stack[-1][0])); return skip(ops, it, len(log))
        elif op == "C":
            ctx.count("copies", 4)
            for q, w in zip(a, ("copy", "assignment", "assignment", "copy of an assigned")):
                if q != stack[-1][0]: bad("copy", "%s differs: %s" % (w, track.diff(q["st"], stack[-1][0]["st"]))); break

def skip(ops, it, done):
    for _ in ops[done:]: next(it)

def c35(ctx):
    exe = build.driver("asan", "track_driver")
    n = ctx.scale(1200, 20000); jobs = []
    for i in range(n):
        r = random.Random("C35|%s|%d" % (ctx.seed, i)); c = Conf(r)
        ops = [("B", c)]; depth = 1
        for l in program(r, c):
            ops.append(("L", l)); depth = min(depth + 1, c.buf); q = r.random()
            if q < 0.03 and depth > 2:
                k = r.randint(0, min(depth - 2, 3)); ops.append(("U", k)); depth -= max(1, k)
            elif q < 0.05: ops.append(("C", ""))
        jobs.append(ops)
    parts = [jobs[k:k + 20] for k in range(0, n, 20)]
    enc = [[("B" + b.line() if a == "B" else a + str(b)).encode("latin-1") for ops in p for a, b in ops] for p in parts]
    for part, ans in zip(parts, track.drive(ctx, exe, enc)):
        if ans is None: continue
        it = iter(ans)
        for ops in part: judge(ctx, ops, it)
    v = ctx.cov
    ctx.need("lines", v.get("lines", 0) > 10000)
    for w in ("layers", "lines_lifted", "lines_outside", "height_increments", "updates_undone", "lines_ing0", "lines_ret0", "lines_retd", "lines_part", "lines_de", "lines_ded"): ctx.need(w, v.get(w, 0) > 50)
    ctx.rule = "Programs with layers, retractions, lifts and tool changes under generated tracker configurations, compared after every line; distinct by (command, layer begun, lifted, inside, primed, the ten states of the extruder)."
