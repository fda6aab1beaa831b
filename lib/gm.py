"""Independent reference reading of G-code: a line reader and a 3-axis + filament machine.
Written from the RepRap G-code conventions, not from the code under test."""
import math, re

NUM = re.compile(r"[ \t]*([+-]?)[ \t]*([0-9]*)(?:\.([0-9]*))?")
CMD = re.compile(r"[ \t]*([GMTgmt])[ \t]*([0-9]+(?:\.[0-9]+)?)?")

def split_comment(line):
    k = line.find(";")
    n = line.find("\0")                     # the end of what a machine reads
    if k < 0 or 0 <= n < k:
        return line, None
    return line[:k], line[k + 1:]

def read(line):
    """-> (command or None, {letter: value}).  Command is canonical ('G1')."""
    code, _ = split_comment(line)
    code = code.split("\0")[0]
    m = CMD.match(code)
    if not m or (m.group(2) is None):
        return None, {}
    letter = m.group(1).upper()
    n = m.group(2)
    if "." in n:
        return letter + n, {}
    cmd = letter + str(int(n))
    if letter == "T":
        return cmd, {}
    params = {}
    p = m.end()
    L = len(code)
    while p < L:
        c = code[p]
        if c in " \t\r":
            p += 1
            continue
        if not c.isalpha() or ord(c) > 127:
            break
        p += 1
        mm = NUM.match(code, p)
        if mm and (mm.group(2) or mm.group(3)):
            s = (mm.group(1) or "") + (mm.group(2) or "0") + "." + (mm.group(3) or "0")
            params[c.upper()] = float(s)
            p = mm.end()
        else:
            # no number: a flag parameter (e.g. G28 X)
            params[c.upper()] = None
            if cmd in ("M117", "M118", "M23", "M28", "M30"):
                break
    return cmd, params

class Machine:
    """Logical position machine.  e is the logical E coordinate; pushed is the total filament moved."""
    __slots__ = ("x", "y", "z", "e", "f", "rel", "erel", "g90e", "tool", "pushed", "home", "inch", "ox", "oy", "oz", "kx", "ky")

    def __init__(self, start=(0.0, 0.0, 0.0), home=(0.0, 0.0, 0.0), g90e=False):
        self.x, self.y, self.z = start
        self.e = 0.0
        self.f = 0.0
        self.rel = False
        self.erel = False
        self.g90e = g90e
        self.tool = 0
        self.pushed = 0.0
        self.home = home
        self.inch = False
        self.ox = self.oy = self.oz = 0.0
        self.kx = self.ky = False           # does the program determine the position (or does it depend on where the machine was)?

    def copy(self):
        m = Machine.__new__(Machine)
        for k in ("x", "y", "z", "e", "f", "rel", "erel", "g90e", "tool", "pushed", "home", "inch", "ox", "oy", "oz", "kx", "ky"):
            setattr(m, k, getattr(self, k))
        return m

    def pos(self):
        return (self.x, self.y, self.z)

    def modes(self):
        return (self.rel, self.erel, self.tool, self.inch)

    def move(self, p):
        """Apply the axis words of a move; returns (dx,dy,dz,de)."""
        x0, y0, z0, e0 = self.x, self.y, self.z, self.e
        if self.inch: p = {k: v * 25.4 if v is not None and k in "XYZEF" else v for k, v in p.items()}
        if self.rel:
            if p.get("X") is not None: self.x += p["X"]
            if p.get("Y") is not None: self.y += p["Y"]
            if p.get("Z") is not None: self.z += p["Z"]
        else:
            if p.get("X") is not None: self.x = p["X"]; self.kx = True
            if p.get("Y") is not None: self.y = p["Y"]; self.ky = True
            if p.get("Z") is not None: self.z = p["Z"]
        if p.get("E") is not None:
            if self.erel: self.e += p["E"]
            else: self.e = p["E"]
        if p.get("F") is not None:
            self.f = p["F"]
        de = self.e - e0
        self.pushed += de
        return self.x - x0, self.y - y0, self.z - z0, de

    def step(self, cmd, p):
        """Returns 'move', 'arc' or 'other'."""
        if cmd in ("G0", "G1"):
            self.move(p); return "move"
        if cmd in ("G2", "G3"):
            self.move(p); return "arc"
        if cmd == "G90":
            self.rel = False
            if self.g90e: self.erel = False
        elif cmd == "G91":
            self.rel = True
            if self.g90e: self.erel = True
        elif cmd == "M82": self.erel = False
        elif cmd == "M83": self.erel = True
        elif cmd == "G20": self.inch = True
        elif cmd == "G21": self.inch = False
        elif cmd == "G28":
            any_ = any(k in p for k in "XYZ")
            if not any_ or "X" in p: self.x = self.home[0]; self.kx = False
            if not any_ or "Y" in p: self.y = self.home[1]; self.ky = False
            if not any_ or "Z" in p: self.z = self.home[2]
        elif cmd == "G92":
            if self.inch: p = {k: v * 25.4 if v is not None else v for k, v in p.items()}
            if not any(k in p for k in "XYZEO"):
                self.x = self.y = self.z = self.e = 0.0; self.kx = self.ky = True
            if p.get("X") is not None: self.x = p["X"]; self.kx = True
            if p.get("Y") is not None: self.y = p["Y"]; self.ky = True
            if p.get("Z") is not None: self.z = p["Z"]
            if p.get("E") is not None: self.e = p["E"]
        elif cmd and cmd[0] == "T":
            self.tool = int(cmd[1:])
        return "other"

# ---------- geometry -------------------------------------------------------
TAU = 2 * math.pi

class Arc:
    """A G2/G3 as a printer executes it: circle through start around start+(I,J), to the angle of the end."""
    def __init__(self, start, end, i, j, cw):
        self.sx, self.sy = start[0], start[1]
        self.ex, self.ey = end[0], end[1]
        self.cx, self.cy = self.sx + i, self.sy + j
        self.r = math.hypot(i, j)
        self.re = math.hypot(self.ex - self.cx, self.ey - self.cy)
        self.a0 = math.atan2(self.sy - self.cy, self.sx - self.cx)
        a1 = math.atan2(self.ey - self.cy, self.ex - self.cx)
        self.cw = cw
        s = (self.a0 - a1) if cw else (a1 - self.a0)
        s %= TAU
        if self.sx == self.ex and self.sy == self.ey:
            s = TAU
        self.sweep = s
        self.len = s * self.r

    def at(self, t):
        """point at fraction t of the sweep; radius blends linearly from start to end radius."""
        a = self.a0 + (-1 if self.cw else 1) * self.sweep * t
        r = self.r + (self.re - self.r) * t
        return (self.cx + r * math.cos(a), self.cy + r * math.sin(a))

    def project(self, x, y, hint=None):
        """closest point on the arc to (x,y): returns (distance, sweep position in [0,sweep])."""
        dx, dy = x - self.cx, y - self.cy
        d = math.hypot(dx, dy)
        if d == 0:
            return self.r, (hint or 0.0)
        a = math.atan2(dy, dx)
        s = ((self.a0 - a) if self.cw else (a - self.a0)) % TAU
        if s <= self.sweep:
            r = self.r + (self.re - self.r) * (s / self.sweep if self.sweep else 0)
            return abs(d - r), s
        d0 = math.hypot(x - self.sx, y - self.sy)
        d1 = math.hypot(x - self.ex, y - self.ey)
        return (d0, 0.0) if d0 <= d1 else (d1, self.sweep)

def seg_dist(px, py, ax, ay, bx, by):
    dx, dy = bx - ax, by - ay
    L = dx * dx + dy * dy
    if L == 0:
        return math.hypot(px - ax, py - ay), 0.0
    t = ((px - ax) * dx + (py - ay) * dy) / L
    t = 0.0 if t < 0 else 1.0 if t > 1 else t
    return math.hypot(px - ax - t * dx, py - ay - t * dy), t
