"""Programs with arcs, as the welder, CAM programs and people write them, for the straightener."""
import math, random
import firm
TAU = 2 * math.pi
PLAIN = ["M106 S255 ;fan", "M104 S210", ";TYPE:FILL", "; a comment", "", "  ", "M117 hello; there", "M900 K0.2", "SET_VELOCITY_LIMIT ACCEL=500", "G4 P100", "M204 S500", "G10", "G11", "; G2 X1 Y2 I3 J4", "M73 P5", "T0", "g4 p1", "@pause", "M105", "N5 M105*12", "M117 G3 X1", "\t;tab", "G17"]

def cfg_for(r, fw, fine=False):
    """explicit settings -> (settings in force, command line)"""
    cfg = dict(firm.USED[fw]); args = []
    pick = {"m": lambda: r.choice([0.1, 0.3, 0.5, 1.0, 1.5, 2.0, 5.0, round(r.uniform(0.05, 4), 3)]), "d": lambda: r.choice([0.3, 0.5, 1.0, 2.0, 5.0]), "i": lambda: r.choice([0.0, 1.0, 2.0, 5.0, 10.0]),
            "n": lambda: r.choice([0.0, 0.01, 0.05, 0.1, 0.4]), "b": lambda: r.choice([0.01, 0.05, 0.1, 0.25]), "r": lambda: r.choice([0, 1, 2, 8, 12, 24, 60, 200]), "a": lambda: r.choice([1, 3, 12, 24, 72, 144]),
            "c": lambda: r.choice([0, 1, 2, 3, 5, 10, 25, 50, 100]), "s": lambda: r.choice([0.0, 10.0, 50.0, 200.0]), "e": lambda: r.choice([0.0, 0.001, 0.005, 0.01, 0.05, 0.2])}
    few = {"m": 0.01, "d": 0.01, "b": 0.002, "r": 0, "n": 0.0, "e": 0.0, "i": 0.0, "s": 0.0}
    for k in cfg:
        if fine and k in few or r.random() < 0.4:
            cfg[k] = few[k] if fine and k in few else pick[k]()
            args.append(r.choice(["-%s=%s" % (k, cfg[k]), "--%s=%s" % (firm.OPT[k][0].replace("_", "-"), cfg[k])]))
    if "i" in cfg and cfg["i"] > 0 and cfg["i"] < cfg["m"]: cfg["i"] = 0.0; args = [a for a in args if not a.startswith(("-i", "--arc-segments-per-r"))]
    g = firm.G90[fw[0]]
    k = r.choice(["", "", "TRUE", "FALSE", "DEFAULT"])
    if k: args.append(r.choice(["-g=", "--g90-g91-influences-extruder="]) + k)
    if k in ("TRUE", "FALSE"): g = k == "TRUE"
    v = fw[1]
    if fw == ("MARLIN_2", "2.0.9.1") and r.random() < 0.3: pass
    else:
        args.append(r.choice(["-f=", "--firmware-type="]) + fw[0])
        if not (firm.LATEST[fw[0]] == v and r.random() < 0.5): args.append(r.choice(["-v=", "--firmware-version="]) + v)
        elif r.random() < 0.3: args.append("-v=LATEST_RELEASE")
    r.shuffle(args)
    return cfg, g, args

class Prog:
    def __init__(self, r, fw, g90, marked=True, gentle=False, fine=False):
        self.fine = fine; self.r = r; self.fw = fw; self.g90 = g90; self.marked = marked; self.gentle = gentle
        self.out = []
        self.x = self.y = 0.0; self.z = 0.2; self.e = 0.0; self.f = 1800.0
        self.rel = self.erel = False; self.inch = False
        self.n = 0
        self.d = r.choice([3, 3, 3, 4, 5]); self.de = r.choice([5, 5, 4, 3])

    def num(self, v, d):
        r = self.r
        s = "%.*f" % (d, v)
        if r.random() < 0.1 and "." in s: s = s.rstrip("0").rstrip(".") or "0"
        if s in ("-0", "-"): s = "0"
        return s

    def q(self, v, d): return float("%.*f" % (d, v))

    def emit(self, s, move=True):
        r = self.r
        if move:
            c = r.random()
            if c < 0.05: s = s.lower()
            elif c < 0.08: s = s.replace(" ", "")
            elif c < 0.1: s = s.replace(" ", "  ")
            elif c < 0.15: s += " ;note %d" % self.n
            elif c < 0.18: s += ";x"
            elif c < 0.2: s += " "
        self.out.append(s)

    def word(self, L, cur, v, d, rel):
        """-> (text, new value)"""
        if rel:
            t = self.num(v - cur, d); return " %s%s" % (L, t), cur + float(t)
        t = self.num(v, d); return " %s%s" % (L, t), float(t)

    def line(self, x, y, z=None, e=None, f=None, cmd="G1"):
        d = self.d + (2 if self.inch else 0)
        s = cmd
        w, self.x = self.word("X", self.x, x, d, self.rel); s += w
        w, self.y = self.word("Y", self.y, y, d, self.rel); s += w
        if z is not None: w, self.z = self.word("Z", self.z, z, d, self.rel); s += w
        if e is not None: w, self.e = self.word("E", self.e, e, self.de, self.erel); s += w
        if f is not None: s += " F%s" % self.num(f, 0 if f == int(f) else 1); self.f = f
        self.emit(s)

    def arc(self):
        r = self.r
        fw = self.fw
        self.n += 1
        u = 1 / 25.4 if self.inch else 1.0
        rad = r.choice([0.2, 0.5, 1, 2, 5, 10, 20, 40, 100, 300] if not self.gentle else [1, 2, 5, 10, 20, 40]) * r.uniform(0.7, 1.4) * u
        if self.fine: rad = r.uniform(150, 300) * u
        a0 = r.uniform(0, TAU)
        if r.random() < 0.1: a0 = r.choice([0, 0.25, 0.5, 0.75]) * TAU
        cw = r.random() < 0.5
        sgn = -1 if cw else 1
        margin = max(0.08, 0.02 / (rad / u)) if fw not in firm.CIRCLES else max(0.02, 0.01 / (rad / u))
        sweep = r.choice([r.uniform(margin, 0.5), r.uniform(0.3, 2), r.uniform(1, TAU - margin), math.pi, math.pi / 2, math.pi * 1.5])
        sweep = firm.clamp(sweep, margin, TAU - margin)
        if self.fine: sweep = r.uniform(2.5, TAU - margin)
        full = fw in firm.CIRCLES and r.random() < 0.15
        exact = fw not in firm.CIRCLES and not self.rel and not self.inch and not self.gentle and r.random() < 0.06
        if exact:
            # numbers that single precision holds exactly: every firmware makes a full circle of these
            full = True; d0 = max(2, self.d); self.x, self.y = r.randint(-800, 800) / 4, r.randint(-800, 800) / 4
            self.emit("G1 X%.*f Y%.*f" % (d0, self.x, d0, self.y))
        rform = not full and r.random() < 0.2
        if rform and abs(sweep - math.pi) < 0.02: sweep = 2.0
        half = rform and r.random() < 0.25
        if half: sweep = math.pi
        d = self.d + (2 if self.inch else 0)
        i, j = -rad * math.cos(a0), -rad * math.sin(a0)
        if exact:
            while True:
                i, j = r.choice([(0, 1), (1, 0), (1, 1)]); i *= r.randint(-160, 160) / 4; j *= r.randint(-160, 160) / 4
                if i or j: break
            d = max(d, 2)
        elif not rform: i, j = float("%.*f" % (d, i)), float("%.*f" % (d, j))
        cx, cy = self.x + i, self.y + j
        R = math.hypot(i, j)
        a0 = math.atan2(-j, -i)
        if full: ex, ey = self.x, self.y
        else: ex, ey = cx + R * math.cos(a0 + sgn * sweep), cy + R * math.sin(a0 + sgn * sweep)
        x0, y0 = self.x, self.y
        omit = full and r.random() < 0.5
        s = "G2" if cw else "G3"
        if r.random() < 0.1: s = s[0] + "0" + s[1]
        ws = []
        if not omit:
            w, self.x = self.word("X", self.x, ex, d, self.rel); ws.append(w)
            w, self.y = self.word("Y", self.y, ey, d, self.rel); ws.append(w)
            if full: self.x, self.y = x0, y0
        if fw not in firm.NO_Z and r.random() < 0.2:
            dz = r.choice([0.2, -0.1, 1.0, 5.0, 0.01]) * u
            w, self.z = self.word("Z", self.z, self.z + dz, d, self.rel); ws.append(w)
        if rform:
            rv = R if sweep < math.pi else -R
            # the end point was rounded: keep the chord within reach
            h = math.hypot(self.x - x0, self.y - y0) / 2
            rv = math.copysign(max(R, h + (10.0 ** -d)), rv)
            if half and h > 0.05 * u: rv = math.floor(h * 10.0 ** d) / 10.0 ** d      # half a circle, and the radius, rounded, is a little short of half the chord
            ws.append(" R%.*f" % (d, rv))
        else:
            wi = [" I%s" % self.num(i, d), " J%s" % self.num(j, d)]
            if i == 0 and r.random() < 0.5: wi = wi[1:]
            elif j == 0 and r.random() < 0.5: wi = wi[:1]
            ws += wi
        c = r.random()
        if c < 0.7:
            L = R * sweep * (0.03 + 0.01 * r.random()) * (-1 if r.random() < 0.1 else 1)
            w, self.e = self.word("E", self.e, self.e + L, self.de, self.erel); ws.append(w)
        if r.random() < 0.3:
            f = r.choice([60.0, 45.0, 900.0, 1500.0, 1800.0, 3000.0, 7800.0, 1234.0, 2000.5]) if not self.inch else r.choice([10.0, 60.0, 120.5])
            if r.random() < 0.3: f = self.f + r.choice([1, -1, 2, 0.5])
            self.f = f; ws.append(" F%s" % self.num(f, 0 if f == int(f) else 1))
        if r.random() < 0.1: r.shuffle(ws)
        if self.marked: self.out.append(";<%d" % self.n)
        self.emit(s + "".join(ws))
        if self.marked: self.out.append(";>%d" % self.n)

    def mode(self):
        r = self.r
        k = r.choice(["plain"] * 4 + ["e", "xy", "g92e", "g92xy", "units", "home", "fonly", "zmove", "eonly", "bige"])
        if k == "plain": self.out.append(r.choice(PLAIN))
        elif k == "e": self.erel = not self.erel; self.emit("M83" if self.erel else "M82")
        elif k == "xy":
            self.rel = not self.rel; self.emit("G91" if self.rel else "G90")
            if self.g90: self.erel = self.rel
        elif k == "g92e": v = r.choice([0.0, 0.0, 5.5, -2.25]); self.emit("G92 E%s" % self.num(v, 2)); self.e = v
        elif k == "bige": v = r.choice([1000.0, 5000.5, 20000.0]); self.emit("G92 E%s" % self.num(v, 1)); self.e = v
        elif k == "g92xy":
            d = self.d + (2 if self.inch else 0)
            x, y = self.q(r.uniform(-20, 120), d), self.q(r.uniform(-20, 120), d)
            if r.random() < 0.7: self.emit("G92 X%s Y%s" % ("%.*f" % (d, x), "%.*f" % (d, y))); self.x, self.y = x, y
            else: self.emit("G92 Z%.2f" % 1.5); self.z = 1.5
        elif k == "units":
            self.inch = not self.inch
            self.emit("G20" if self.inch else "G21"); self.emit("G92 E0"); self.e = 0.0
            self.restart()
        elif k == "home":
            self.emit(r.choice(["G28", "G28 X Y", "G28 X0 Y0 Z0", "G28 X", "G28 Y"]))
            if r.random() < 0.5 and not self.rel:
                # an arc whose start isn't known is left alone
                if self.marked: self.out.append(";<0")
                self.out.append("G3 X%.3f Y%.3f I1.5 J0.25 E%.3f" % (r.uniform(0, 9), r.uniform(0, 9), self.e))
                if self.marked: self.out.append(";>0")
            elif r.random() < 0.4 and not self.rel:
                # only the height is unknown: an arc that states one has no known start, one that doesn't is converted
                self.restart(); self.emit("G28 Z")
                d = self.d + (2 if self.inch else 0)
                if self.marked: self.out.append(";<0")
                up = r.random() < 0.7
                self.out.append("G3 X%.*f Y%.*f I%.*f J%.*f%s E%.*f" % (d, self.x, d, self.y, d, r.uniform(1, 3), d, 0.25, " Z%.1f" % r.choice([0, 0, r.uniform(1, 9)]) if up else "", self.de, self.e) if up else "G92 E%.*f" % (self.de, self.e))
                if self.marked: self.out.append(";>0")
            self.restart()
        elif k == "fonly": self.f = r.choice([600.0, 1200.0, 3600.0]) if not self.inch else 60.0; self.emit("G1 F%d" % self.f)
        elif k == "zmove":
            w, self.z = self.word("Z", self.z, self.z + 0.2, 3, self.rel); self.emit("G0" + w)
        elif k == "eonly":
            w, self.e = self.word("E", self.e, self.e + r.choice([1.5, -0.8]), self.de, self.erel); self.emit("G1" + w)

    def restart(self):
        """state every coordinate in absolute mode"""
        r = self.r
        u = 1 / 25.4 if self.inch else 1.0
        if self.rel:
            self.emit("G90"); self.rel = False
            if self.g90: self.erel = False
        bx, by = r.choice([(0, 0), (100, 100), (-30, 20), (250, 210), (900, -400)])
        self.z = r.choice([0.2, 0.3, 10.0]) * u
        f = r.choice([1200.0, 3000.0, 2400.0]) if not self.inch else 90.0
        d = self.d + (2 if self.inch else 0)
        x, y = self.q((bx + r.uniform(-20, 20)) * u, d), self.q((by + r.uniform(-20, 20)) * u, d)
        self.z = self.q(self.z, d)
        self.out.append("%s X%.*f Y%.*f Z%.*f F%d" % (r.choice(["G0", "G1"]), d, x, d, y, d, self.z, f))
        self.x, self.y, self.f = x, y, f

    def program(self, n):
        r = self.r
        if r.random() < 0.3: self.out.append(r.choice([";FLAVOR:UltiGCode", "; generated by PrusaSlicer 2.3", ";FLAVOR:Marlin"]))
        if r.random() < 0.5: self.out.append("G90"); self.erel = False
        if r.random() < 0.5: self.erel = r.random() < 0.5; self.out.append("M83" if self.erel else "M82")
        if r.random() < 0.3 and not self.erel:
            if self.marked: self.out.append(";<0")
            self.out.append("G2 X10 Y10 I5 J0 E1")
            if self.marked: self.out.append(";>0")
            self.e = 1.0
        self.restart()
        if r.random() < 0.5: self.out.append("G92 E0"); self.e = 0.0
        while self.n < n:
            c = r.random()
            if c < 0.55: self.arc()
            elif c < 0.8:
                for _ in range(r.randint(1, 4)):
                    x, y = self.x + r.uniform(-5, 5), self.y + r.uniform(-5, 5)
                    if abs(x) > 1200: x = x / 4
                    if abs(y) > 1200: y = y / 4
                    self.line(x, y, None, r.choice([None, self.e + 0.3]), r.choice([None, None, 1500.0 if not self.inch else 50.0]), r.choice(["G0", "G1"]))
            else: self.mode()
        if r.random() < 0.4: self.out.append("M84")
        eol = "\r\n" if r.random() < 0.1 else "\n"
        s = eol.join(self.out)
        if r.random() < 0.85: s += eol
        return s.encode("latin-1")
