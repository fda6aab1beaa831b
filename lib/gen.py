"""Generates G-code programs the way slicers and people write them, plus hostile variations.
Everything is driven by one random.Random, so a (seed, index, profile) triple replays a case exactly."""
import math, random

TAU = 2 * math.pi

DEFAULT_OPTS = dict(res=0.05, tol=0.05, rad=9999.0, mas=0, mm=0.0, g90=0, z3d=0, trav=0, dyn=0, xp=3, ep=5, var=0.05, mgl=0)

def gen_opts(r, **force):
    """A valid configuration, biased to the defaults."""
    o = dict(DEFAULT_OPTS)
    def maybe(k, v, p=0.3):
        if r.random() < p: o[k] = v
    maybe("res", r.choice([0.01, 0.02, 0.05, 0.1, 0.2, 0.5, round(r.uniform(0.01, 0.3), 3)]), 0.4)
    maybe("tol", r.choice([0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 0.003, 0.0333]), 0.25)
    maybe("rad", r.choice([1.0, 5.0, 20.0, 100.0, 1000.0, 5000.0, 2.625, 123.456]), 0.3)
    maybe("g90", 1, 0.4)
    maybe("trav", 1, 0.35)
    maybe("z3d", 1, 0.15)
    maybe("dyn", 1, 0.2)
    maybe("xp", r.choice([3, 4, 5, 6]), 0.3)
    maybe("ep", r.choice([3, 4, 5, 6]), 0.3)
    maybe("var", r.choice([0.0, 0.0, 0.01, 0.05, 0.1, 0.2, 0.5, 0.025, 0.004]), 0.4)
    maybe("mgl", r.choice([0, 31, 35, 40, 45, 50, 55, 60, 80]), 0.25)
    if r.random() < 0.2:
        o["mm"] = r.choice([0.1, 0.5, 1.0, 2.0, 3.0, 0.25, 0.777]); o["mas"] = r.choice([2, 6, 12, 14, 24])
    o.update(force)
    return o

# commands that move nothing, known to the parser or not, with and without words
FEATURES = ["perimeter", "perimeter", "infill", "infill(bridge)", "skirt", "move to first perimeter point", "move to first infill point", "move to first infill(bridge) point", "move to first skirt point"]
INERT = ["@OCTOLAPSE", "@OCTOLAPSE ", "@octolapse TAKE-SNAPSHOT x y", "@OCTOLAPSE START", "@", "M105", "M114", "M400", "M240", "M116", "M141 S40", "M191 S40", "M207 S1 F1800", "M208 S1 F600", "M563 P0 D0 H1", "G80", "G29", "G29 P1", "M109 S200", "M190 S60",
         "M104", "M140 S", "T?", "Tc", "TX", "T", "M", "G", "G 4 P1", "M23 file.g", "M118 hi there", "G4S1", "M106S255", "M106 S255.5 P1", "(x)", "* G1 X5", "M204 P500 T500", "G17", "M 107", "m107", "M0107", "M220 S100", "M221 S95", "M142 S1e3", "0 G1 X1", "X5 Y5", "M2.5", "G0.5 X9", "G1.1 X5 Y5 E5"]

class Gen:
    def __init__(self, r, opts, tagged=True, z3d=False, **kw):
        self.r = r
        self.o = opts
        self.tagged = tagged
        self.feat = None
        self.lines = []
        self.n = 0
        self.x = self.y = None           # logical position, None = unknown
        self.z = 0.2
        self.e = 0.0                     # logical E
        self.erel = False
        self.rel = False
        self.f = None
        self.zx = kw.get("zx", r.choice([0, 0, 0, 1, 2, -1]))      # decimals of Z more than of X and Y
        self.xd = kw.get("xd", r.choice([3, 3, 3, 3, 2, 4, 5]))
        self.ed = kw.get("ed", r.choice([5, 5, 5, 4, 6]))
        self.style = kw.get("style", "plain")
        self.rate = r.choice([0.02, 0.033, 0.05, 0.1])
        self.eol = "\r\n" if kw.get("crlf") else "\n"
        self.kw = kw

    # -- output -------------------------------------------------------
    def raw(self, s):
        self.lines.append(s)

    def tag(self, extra=""):
        self.n += 1
        t = self.tagged
        if t == "some": t = self.r.random() < 0.4
        if t == "feat":                      # what Slic3r says about a move, names of features
            if self.feat is None or self.r.random() < 0.07: self.feat = self.r.choice(FEATURES)
            return (";" if self.r.random() < 0.9 else " ;") + self.feat if self.r.random() < 0.7 else ";" if self.r.random() < 0.05 else ""
        if t == "dup": return ";" + self.r.choice(["a", "b", "wall", "x - y", "a", "b", "wall", "c\0d"])
        if t: return (" ;n%d%s" if self.r.random() < 0.5 else ";n%d%s") % (self.n, extra)
        return ";" if self.r.random() < 0.03 else ""

    def num(self, v, d):
        if self.style == "odd":
            c = self.r.random()
            s = "%.*f" % (d, v)
            if c < 0.15 and "." in s: s = s.rstrip("0").rstrip(".")
            elif c < 0.25 and s.startswith("0."): s = s[1:]
            elif c < 0.3 and s.startswith("-0."): s = "-" + s[2:]
            elif c < 0.36 and not s.startswith("-"): s = "+" + s
            elif c < 0.4 and not s.startswith("-"): s = "0" + s
            if s in ("", "-", "+", "."): s = "0"
            return s
        s = "%.*f" % (d, v)
        if self.style == "trim" and "." in s:
            s = s.rstrip("0").rstrip(".")
            if s in ("", "-", "-0"): s = "0"
        return s

    def q(self, v, d):
        return float("%.*f" % (d, v))

    def emit(self, words, cmd="G1"):
        """words: list of (letter, text)"""
        r = self.r
        if self.style == "odd":
            c = r.random()
            if c < 0.15: cmd = cmd.lower()
            if r.random() < 0.1: cmd = cmd[0] + " " + cmd[1:]
            sep = r.choice(["", "", "", "\t", " \t "]) if r.random() < 0.25 else " "
            if r.random() < 0.15: r.shuffle(words)
            ws = [(w.lower() if r.random() < 0.1 else w) + (" " if r.random() < 0.06 else "") + t for w, t in words]
            s = cmd + sep + sep.join(ws)
            if r.random() < 0.1: s = r.choice([" ", "  ", "\t"]) + s
            if r.random() < 0.08: s += r.choice([" ", "\t"])
        else:
            s = cmd + " " + " ".join(w + t for w, t in words)
        self.lines.append(s + self.tag())

    def move(self, x=None, y=None, z=None, de=None, f=None, cmd=None, omit=True):
        """Move to logical x,y (absolute coordinates); de = filament delta or None."""
        r = self.r
        w = []
        cmd = cmd or ("G1" if de is not None or r.random() < 0.5 else "G0")
        if self.style == "zeros" and r.random() < 0.3:
            cmd = cmd[0] + "0" + cmd[1:]
        def axis(L, cur, v):
            if v is None: return cur
            xd = max(1, self.xd + self.zx) if L == "Z" else self.xd
            if self.rel:
                base = cur if cur is not None else 0.0
                d = self.q(v - base, xd)
                if d != 0 or not omit: w.append((L, self.num(d, xd)))
                return None if cur is None else cur + d
            t = self.q(v, xd)
            if cur is not None and omit and t == cur and r.random() < 0.7:
                return cur
            w.append((L, self.num(t, xd)))
            return t
        self.x = axis("X", self.x, x)
        self.y = axis("Y", self.y, y)
        if z is not None:
            self.z = axis("Z", self.z, z)
        if de is not None:
            if self.erel:
                q = self.q(de, self.ed)
                w.append(("E", self.num(q, self.ed)))
                self.e += q
            else:
                t = self.q(self.e + de, self.ed)
                w.append(("E", self.num(t, self.ed)))
                self.e = t
        if f is not None:
            if r.random() < 0.1: w.insert(0, ("F", self.num(f, 0 if f == int(f) else 2)))
            else: w.append(("F", self.num(f, 0 if f == int(f) else 2)))
            self.f = f
        if not w:
            w.append(("X", self.num(self.x if not self.rel else 0.0, self.xd)) if self.x is not None else ("F", "1200"))
            if w[0][0] == "F": self.f = 1200.0
        self.emit(w, cmd)

    # -- paths ------------------------------------------------------------
    def arc_points(self, kind):
        r = self.r
        x0, y0 = self.x, self.y
        res = self.o["res"]
        rad = r.choice([0.05, 0.2, 0.5, 1, 2, 5, 10, 20, 40, 80, 200, 1000]) * r.uniform(0.7, 1.4)
        a0 = r.uniform(0, TAU)
        cw = r.random() < 0.5
        if kind == "near_axis":
            a0 = r.choice([0, math.pi / 2, math.pi, 1.5 * math.pi]) + r.uniform(-0.02, 0.02)
        # segment length: chord error around a fraction or multiple of the resolution
        err = res * r.choice([0.05, 0.2, 0.4, 0.8, 1.2, 2.0])
        c = 1 - err / rad
        step = 2 * math.acos(c) if c > 0 else r.uniform(0.2, 1.5)
        step = min(max(step, 1e-3), 2.2)
        sweep = r.choice([0.3, 0.8, math.pi / 2, math.pi, 1.5 * math.pi, TAU * 0.97, TAU, TAU * 1.5]) * r.uniform(0.8, 1.1)
        if kind == "full": sweep = TAU * r.choice([1, 1, 0.999, 0.99, 1.01])
        n = max(3, min(int(sweep / step) + 1, self.kw.get("maxseg", 90)))
        if rad > 150: n = min(n, 30)
        noise = r.choice([0, 0, 0.1, 0.3, 0.6, 1.1]) * res
        jitter = r.choice([0, 0, 0.3, 0.8])
        cx, cy = x0 - rad * math.cos(a0), y0 - rad * math.sin(a0)
        pts = []
        if self.kw.get("smooth") and r.random() < self.kw["smooth"]:
            noise = 0; err = res * r.choice([0.05, 0.2, 0.35]); c = 1 - err / rad
            step = min(max(2 * math.acos(c) if c > 0 else 0.3, 1e-3), 2.2); n = max(3, min(int(sweep / step) + 1, 90))
        spiral = r.choice([0, 0, 0, 0.2, 1, 3]) * res if kind != "full" else 0
        if kind == "spiral": spiral = r.uniform(-1, 2) * rad * 0.3
        st = sweep / n if n * step < sweep * 1.5 else step
        for k in range(1, n + 1):
            t = k + (r.uniform(-0.5, 0.5) * jitter if k < n else 0)
            a = a0 + (-1 if cw else 1) * t * st
            rr = rad + spiral * k / n + (r.uniform(-1, 1) * noise if noise else 0)
            pts.append((cx + rr * math.cos(a), cy + rr * math.sin(a)))
        return pts

    def path(self, kind=None):
        r = self.r
        kind = kind or r.choice(self.kw.get("kinds") or ["arc"] * 6 + ["full", "near_axis", "spiral", "line", "zigzag", "backtrack", "tiny", "dups", "random", "scurve", "corner", "repeat", "polygon"])
        x, y = self.x, self.y
        if kind in ("arc", "full", "near_axis", "spiral"):
            return kind, self.arc_points(kind)
        if kind == "long":
            # one curve in hundreds or thousands of tiny moves
            R = r.choice([2, 10, 40, 150]) * r.uniform(0.8, 1.2); n = r.choice([120, 260, 400, 530, 900, 1400, 2100]); a0 = r.uniform(0, TAU)
            d = r.choice([-1, 1]); cx, cy = x - R * math.cos(a0), y - R * math.sin(a0)
            tot = r.choice([1.0, 3.0, 6.0, 6.25, 12.0, 40.0]) * r.uniform(0.7, 1.05)
            grow = r.choice([0, 0, 0, 1e-5, 1e-4]) * R
            return kind, [(cx + (R + grow * k) * math.cos(a0 + d * tot * k / n), cy + (R + grow * k) * math.sin(a0 + d * tot * k / n)) for k in range(1, n + 1)]
        if kind == "scurve":
            p = self.arc_points("arc")
            lx, ly = p[-1]
            q = [(2 * lx - a, 2 * ly - b) for a, b in reversed([(x, y)] + p[:-1])]
            return kind, p + q
        if kind == "nearclosed":
            # circles that end almost where they started, in steps finer than the output precision
            R = r.choice([0.5, 2, 5, 20]) * r.uniform(0.8, 1.2); n = r.randint(8, 40); a0 = r.uniform(0, TAU)
            cx, cy = x - R * math.cos(a0), y - R * math.sin(a0)
            gap = r.choice([0.0001, 0.0003, 0.0006, 0.001, 0.0015, 0.003]) * r.choice([-1, 1]) / R
            d = r.choice([-1, 1]); tot = TAU + gap
            p = [(cx + R * math.cos(a0 + d * tot * k / n), cy + R * math.sin(a0 + d * tot * k / n)) for k in range(1, n + 1)]
            return kind, p
        if kind == "tinychain":
            n = r.randint(6, 40); s = r.choice([0.0003, 0.0005, 0.0008, 0.0012, 0.002])
            a = r.uniform(0, TAU); turn = r.choice([0.02, 0.1, 0.3, 0.8]) * r.choice([-1, 1])
            p = []
            for _ in range(n):
                x += s * math.cos(a); y += s * math.sin(a); a += turn * r.uniform(0.5, 1.5)
                p.append((x, y))
            return kind, p
        if kind == "line":
            a = r.uniform(0, TAU); n = r.randint(1, 12); L = r.uniform(0.01, 5)
            return kind, [(x + L * k * math.cos(a), y + L * k * math.sin(a)) for k in range(1, n + 1)]
        if kind == "zigzag":
            n = r.randint(2, 12); s = r.uniform(0.1, 20)
            return kind, [(x + (s if k % 2 else 0), y + 0.4 * k) for k in range(1, n + 1)]
        if kind == "backtrack":
            p = self.arc_points("arc")
            k = r.randint(1, len(p))
            back = list(reversed(p[:k]))[1:] + [(x, y)]
            return kind, p[:k] + back
        if kind == "repeat":
            p = self.arc_points("full")
            return kind, p + p[:r.randint(1, len(p))]
        if kind == "tiny":
            n = r.randint(3, 25); s = r.choice([0.0005, 0.001, 0.002, 0.005, 0.01])
            a = r.uniform(0, TAU); turn = r.uniform(-0.6, 0.6)
            p = []
            for _ in range(n):
                x += s * math.cos(a); y += s * math.sin(a); a += turn
                p.append((x, y))
            return kind, p
        if kind == "dups":
            p = self.arc_points("arc")
            out = []
            for q in p:
                out.append(q)
                if r.random() < 0.3: out.append(q)
            return kind, out
        if kind == "polygon":
            n = r.choice([3, 4, 5, 6, 8]); R = r.uniform(0.5, 30); a0 = r.uniform(0, TAU)
            cx, cy = x - R * math.cos(a0), y - R * math.sin(a0)
            return kind, [(cx + R * math.cos(a0 + TAU * k / n), cy + R * math.sin(a0 + TAU * k / n)) for k in range(1, n + 1)]
        if kind == "corner":
            # two arcs meeting at a kink
            p = self.arc_points("arc")
            sx, sy = self.x, self.y
            self.x, self.y = p[-1]
            p2 = self.arc_points("arc")
            self.x, self.y = sx, sy
            return kind, p + p2
        n = r.randint(2, 15); s = r.uniform(0.05, 10)
        p = []
        for _ in range(n):
            x += r.uniform(-s, s); y += r.uniform(-s, s)
            p.append((x, y))
        return "random", p

    def follow(self, pts, mode=None):
        """Emit moves along pts with one extrusion behaviour."""
        r = self.r
        mode = mode or r.choice(self.kw.get("modes") or ["ext"] * 8 + ["wipe", "travel", "travel", "mixed", "varying", "e0"])
        rate = self.rate * r.choice([1, 1, 1, 0.5, 2])
        px, py = (self.x if self.x is not None else pts[0][0]), (self.y if self.y is not None else pts[0][1])
        interrupt = r.random() < self.kw.get("interrupt", 0.35)
        z = None
        zs = 0.0
        if self.o["z3d"] and self.z is not None and r.random() < 0.5: zs = r.choice([0.001, 0.01, 0.05, -0.01])
        zpat = r.choice(self.kw["zpats"]) if self.kw.get("zpats") and self.z is not None else None
        if zpat: heights = self.heights(zpat, [(px, py)] + list(pts))
        fkind = r.random()
        if r.random() < 0.5:
            f0 = r.choice(self.kw.get("feeds") or [600, 1200, 1800, 3000, 4800, 9000, 1234.5, 7800, r.choice([1, 2.5, 5, 9, 60, 100000])])
        else: f0 = None
        ephase = 0
        sofar = 0.0
        for k, (x, y) in enumerate(pts):
            L = math.hypot(x - px, y - py)
            if zpat: L = math.hypot(L, heights[k] - (heights[k - 1] if k else self.z or 0.0))
            de = None
            if mode == "ext": de = L * rate
            elif mode == "wipe": de = -L * rate
            elif mode == "varying": de = L * rate * (1 + r.uniform(-1, 1) * r.choice([0.0, 0.02, 0.04, 0.2]))
            elif mode == "mixed":
                ephase = r.choice([0, 1, 2]) if k % 4 == 0 else ephase
                de = [L * rate, -L * rate, None][ephase]
            elif mode == "e0": de = 0.0
            f = None
            if k == 0 and f0 is not None: f = f0
            elif fkind < 0.06: f = f0 or self.f or 1500
            elif fkind < 0.1 and r.random() < 0.3: f = r.choice([900, 1000, 2400])
            elif fkind < 0.14 and r.random() < 0.15: f = round((self.f or 1500) + r.choice([0.25, -0.25, 0.5, 1, -0.01]), 2)   # hardly another rate
            if zpat and self.z is not None: z = heights[k]
            elif zs: z = self.z + zs if self.z is not None else None
            self.move(x, y, z, de, f)
            px, py = (self.x, self.y) if self.x is not None and self.y is not None else (x, y)
            if interrupt and r.random() < 0.12:
                self.interruption()
                if self.x is None or self.y is None: self.locate()
                if self.rel is None: break

    def heights(self, pat, P):
        """the height of every point of a path"""
        r = self.r
        n = len(P) - 1
        d = [math.dist(a, b) for a, b in zip(P, P[1:])]
        T = sum(d) or 1.0
        rise = r.choice([0.0004, 0.002, 0.02, 0.2, 1.0, 5.0]) * r.choice([1, 1, 1, -1]) * r.uniform(0.5, 1.2)
        if pat == "steps": w = [1.0 / n] * n                                    # the same for every move
        elif pat == "last": w = [0.0] * (n - 1) + [1.0]
        elif pat == "first": w = [1.0] + [0.0] * (n - 1)
        elif pat == "bump": w = [0.0] * n; w[r.randrange(n)] = 1.0
        elif pat == "tail": k = r.randint(1, n); w = [0.0] * (n - k) + [1.0 / k] * k
        elif pat == "noise": w = [x / T * r.uniform(0.6, 1.4) for x in d]
        else: w = [x / T for x in d]                                            # even along the path
        z = self.z; out = []
        for x in w:
            z += rise * x; out.append(z)
        return out

    # -- everything that is not a move along a path ------------------------------
    def interruption(self, kind=None):
        r = self.r
        kinds = self.kw.get("interruptions") or ["comment", "comment", "blank", "blank", "fan", "g92e", "emode", "g91", "tool", "m117", "type", "unknown", "eonly", "fonly", "zhop", "retract", "home1", "g92xy", "arc", "inch", "xd", "bige", "g4", "star", "g10", "dupline", "spaces"]
        k = kind or r.choice(kinds)
        c = self.n = self.n + 1
        if k == "comment" and r.random() < 0.25: self.raw(r.choice([";", ";", ";;", "; ", ";\t", ";a\0b", "\0", "\0;c", "M117 a\0b", "M117 a\0;b", ";", " ;\0", "G4 P1;", "G4 P1 ;", "M105;\0\0"]))
        elif k == "comment": self.raw(";c%d some text; with %s" % (c, r.choice(["semicolons;;", "words", "- dashes - here", "\tTab"])))
        elif k == "blank": self.raw("")
        elif k == "spaces": self.raw(r.choice([" ", "   ", "\t", " ;"]) )
        elif k == "fan": self.raw("M106 S%d" % r.randint(0, 255) + self.tag())
        elif k == "g4": self.raw("G4 P%d" % r.randint(0, 500) + self.tag())
        elif k == "star": self.raw("M204 S%d" % r.randint(100, 2000))
        elif k == "g10": self.raw(r.choice(["G10", "G11"]) + self.tag())
        elif k == "dupline" and self.lines: self.raw(";dup")
        elif k == "g92e":
            v = r.choice([0.0, 0.0, 0.0, 12.5, -3.25, 100.00001])
            self.raw("G92 E%s" % self.num(v, self.ed if v else 0) + self.tag()); self.e = self.q(v, self.ed)
        elif k == "emode":
            self.erel = not self.erel
            self.raw(("M83" if self.erel else "M82") + self.tag())
        elif k == "g91":
            self.raw("G91" + self.tag()); self.rel = True
            if self.o["g90"]: self.erel = True
            for _ in range(r.randint(0, 3)):
                self.move((self.x or 0) + r.uniform(-3, 3), (self.y or 0) + r.uniform(-3, 3), None, r.choice([None, 0.1]))
            self.raw("G90" + self.tag()); self.rel = False
            if self.o["g90"]: self.erel = False
        elif k == "tool":
            t = r.randint(0, 3)
            if r.random() < 0.5:                 # its nozzle is somewhere else; coordinates mean the nozzle in use
                u = r.choice([t, t, r.randint(0, 3)]); ox, oy = r.choice([0.0, 0.02, 0.06, 0.1, 0.3, -0.15, 18.0]), r.choice([0.0, 0.05, -0.2, 1.0])
                self.raw(r.choice(["M218 T%d X%g Y%g", "G10 P%d X%g Y%g"]) % (u, ox, oy) + self.tag())
            self.raw("T%d" % t + self.tag())
        elif k == "inch":
            # a stretch in inches, paths included
            self.raw("G20" + self.tag()); self.raw("G92 E0" + self.tag()); self.e = 0.0
            self.x = self.y = None
            x, y = r.uniform(0, 4), r.uniform(0, 4)
            self.move(x, y, None, None, None, omit=False)
            R = r.choice([0.1, 0.5, 2]); a = r.uniform(0, TAU)
            for _ in range(r.randint(0, 12)):
                a += 0.15; self.move(x + R * math.cos(a), y + R * math.sin(a), None, 0.002)
            self.raw("G21" + self.tag()); self.raw("G92 E0" + self.tag()); self.e = 0.0
            self.x = self.y = None; self.z = None
        elif k == "xd":
            self.xd = r.choice([2, 3, 4, 5, 6]); self.ed = r.choice([3, 4, 5, 6])
        elif k == "bige":
            v = r.choice([21474.5, 9999.99, 99999.5, 1234567.0, 30000.0])
            self.raw("G92 E%.1f" % v + self.tag()); self.e = self.q(v, 1)
        elif k == "m117": self.raw("M117 Layer %d of; many" % c)
        elif k == "type": self.raw(r.choice([";TYPE:WALL-INNER", ";TYPE:FILL", "; feature infill", ";TYPE:WALL-OUTER"]))
        elif k == "unknown": self.raw(r.choice(["M900 K0.2", "SET_VELOCITY_LIMIT ACCEL=500", "M73 P5 R10", "EXCLUDE_OBJECT_START NAME=a", "M204 P500", "; %d" % c, "@pause", "G29.1", "N5 M105*12", "  @pause", "\tPAUSE", " EXCLUDE_OBJECT_END NAME=a", "\xe9t\xe9", " \xb0"] if r.random() < 0.5 else INERT) + (self.tag() if r.random() < 0.3 else ""))
        elif k == "eonly": self.emit_e(r.choice([0.5, -0.5, 1.25, -2.0]))
        elif k == "fonly":
            self.f = float(r.choice([600, 1500, 2222])); self.emit([("F", "%d" % self.f)])
        elif k == "zhop":
            z = self.z
            if z is None: return
            self.move(None, None, z + 0.4); 
            self.move((self.x or 0) + r.uniform(-5, 5), (self.y or 0) + r.uniform(-5, 5), None, None)
            self.move(None, None, z)
        elif k == "retract":
            self.emit_e(-0.8); self.move((self.x or 0) + r.uniform(-20, 20), (self.y or 0) + r.uniform(-20, 20)); self.emit_e(0.8)
        elif k == "home1":
            ax = r.choice(["X", "Y", "X Y", "", "X0 Y0", "Y X", "XY", "X Z", "Z", "W", "O"])
            self.raw(("G28 " + ax).strip() + self.tag())
            every = not any(c in ax for c in "XYZ")
            ox, oy = self.x, self.y
            if every or "X" in ax: self.x = None
            if every or "Y" in ax: self.y = None
            if every or "Z" in ax: self.z = None
            if self.x is None and self.y is None and not self.rel and r.random() < 0.5:
                # only one axis is stated before the next curve
                x, y = r.uniform(0, 100), r.uniform(0, 100)
                if ox is not None and r.random() < 0.6: x, y = ox, (oy if oy is not None else y)   # as if homing had not moved anything
                if r.random() < 0.5: self.move(x, None, None, r.choice([None, 0.5]), None, omit=False); y0, x0 = y, self.x
                else: self.move(None, y, None, r.choice([None, 0.5]), None, omit=False); y0, x0 = self.y, x
                pts = self.around(x0, y0)
                keep = (self.x, self.y)
                for q in pts: self.move(q[0], q[1], None, 0.05, None)
        elif k == "g92xy":
            nx, ny = self.q(r.uniform(0, 50), self.xd), self.q(r.uniform(0, 50), self.xd)
            c = r.random()
            if c < 0.6:
                self.raw("G92 X%s Y%s" % (self.num(nx, self.xd), self.num(ny, self.xd)) + self.tag()); self.x, self.y = nx, ny
            elif c < 0.8:
                self.raw("G92 X%s" % self.num(nx, self.xd) + self.tag()); self.x = nx
            else:
                self.raw("G92 Z0.3" + self.tag()); self.z = 0.3
        elif k == "arc":
            if self.x is None or self.y is None: return
            a, R = r.uniform(0, TAU), r.uniform(1, 10)
            quadrant = r.random() < 0.4   # the centre straight above, below or beside the start: only one of I and J is written
            if quadrant: a, R = r.randrange(4) * TAU / 4, self.q(R, 3)
            cw = r.random() < 0.5
            b = a + r.uniform(0.5, 5) * (-1 if cw else 1)
            ci, cj = -R * math.cos(a), -R * math.sin(a)
            cx, cy = self.x + ci, self.y + cj
            ex, ey = self.q(cx + R * math.cos(b), 3), self.q(cy + R * math.sin(b), 3)
            w = "%s X%.3f Y%.3f" % ("G2" if cw else "G3", ex, ey)
            if not quadrant or abs(ci) > R / 2: w += " I%.3f" % ci
            if not quadrant or abs(cj) > R / 2: w += " J%.3f" % cj
            z1 = self.q(self.z + 0.1, 3) if self.z is not None and r.random() < 0.15 else None
            if z1 is not None: w += " Z%.3f" % z1
            if self.rel: return
            if r.random() < 0.6:
                de = R * abs(b - a) * self.rate
                if self.erel: self.e += self.q(de, 5); w += " E%.5f" % de
                else: self.e = self.q(self.e + de, 5); w += " E%.5f" % self.e
            if r.random() < 0.2:
                self.f = 2000.0; w += " F2000"
            self.raw(w + self.tag()); self.x, self.y = ex, ey
            if z1 is not None: self.z = z1

    def emit_e(self, de):
        r = self.r
        w = []
        if self.erel:
            q = self.q(de, self.ed); self.e += q; w.append(("E", self.num(q, self.ed)))
        else:
            self.e = self.q(self.e + de, self.ed); w.append(("E", self.num(self.e, self.ed)))
        if r.random() < 0.4:
            self.f = float(r.choice([1800, 2400])); w.append(("F", "%d" % self.f))
        self.emit(w)

    def locate(self):
        r = self.r
        bx, by = r.choice(self.kw.get("places") or [(0, 0), (50, 50), (100, 100), (110, 90), (-20, 30), (300, 250), (1000, -500)])
        x, y = bx + r.uniform(-20, 20), by + r.uniform(-20, 20)
        if self.z is None:
            self.move(x, y, 0.3, None, r.choice([None, 7800.0]), omit=False)
        else:
            self.move(x, y, None, None, r.choice([None, 7800.0]), omit=False)

    def header(self):
        r = self.r
        c = r.random()
        if c < 0.12: self.raw(";FLAVOR:UltiGCode")
        elif c < 0.24: self.raw("; generated by PrusaSlicer 2.3.0+linux on 2021-01-01")
        elif c < 0.4: self.raw(";FLAVOR:Marlin")
        elif c < 0.5: self.raw("")
        elif c < 0.55: self.raw(";FLAVOR:UltiGCode ")
        elif c < 0.63: self.raw(r.choice(["M104 S200 ; generated by PrusaSlicer 2.3.0", "G21;FLAVOR:UltiGCode", " ; generated by PrusaSlicer 2.3", ";flavor:ultigcode", "G90 ;FLAVOR:UltiGCode", ";generated by PrusaSlicer", "; Generated by PrusaSlicer 2.4", ";FLAVOR:UltiGCode 2", ";;FLAVOR:UltiGCode", ";TIME:12 ; generated by PrusaSlicer"]))
        if r.random() < 0.5: self.raw("M104 S200 ;heat")
        if r.random() < 0.3: self.raw("G21")
        if r.random() < 0.6: self.raw("G28 ;home")
        if r.random() < 0.6: self.raw("G90")
        if r.random() < 0.5:
            self.erel = r.random() < 0.5
            self.raw("M83" if self.erel else "M82")
        if r.random() < 0.5: self.raw("G92 E0"); self.e = 0.0

    def program(self, blocks):
        r = self.r
        self.header()
        self.z = None if self.kw.get("hostile_start") else 0.2
        if not self.kw.get("hostile_start"):
            self.move(None, None, 0.2, None, 1200.0, omit=False)
            self.locate()
        else:
            # the program may start drawing from a position it never stated
            if r.random() < 0.5: self.locate()
            else: self.move(r.uniform(0, 100), None, None, None)
        for _ in range(blocks):
            if self.x is None or self.y is None:
                if self.kw.get("hostile_start") and r.random() < 0.5 and self.x is None:
                    # only one axis stated
                    self.move(None, r.uniform(0, 100))
                    self.x = None
                    pts = self.around(r.uniform(0, 60), r.uniform(0, 60))
                    self.follow(pts, "ext"); continue
                self.locate()
            kind, pts = self.path()
            self.follow(pts)
            if r.random() < 0.5:
                for _ in range(r.randint(1, 3)): self.interruption()
            if r.random() < 0.15 and self.z is not None and not self.rel:
                self.move(None, None, round(self.z + 0.2, 3), None)
            if r.random() < 0.2:
                self.locate()
        if r.random() < 0.4: self.raw("M84" + self.tag())
        return self

    def around(self, x, y):
        sx, sy = self.x, self.y
        self.x, self.y = x, y
        p = self.arc_points("arc")
        self.x, self.y = sx, sy
        return p

    def data(self):
        r = self.r
        s = self.eol.join(self.lines)
        if self.kw.get("final_newline", True): s += self.eol
        return s.encode("latin-1", "replace")
