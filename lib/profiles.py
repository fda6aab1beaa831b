"""Case generators: each takes a random.Random and returns a weldrun.Case."""
import gen
from weldrun import Case

def _case(r, g, opts, tagged, extra=None):
    c = Case()
    c.data = g.data(); c.opts = opts; c.tagged = tagged; c.extra = extra; c.start = None; c.home = None; c.gen = g
    return c

def general(r, force=None, tagged=None, blocks=None, **kw):
    force = force or {}
    o = gen.gen_opts(r, **force)
    if tagged is None:
        tagged = r.choice([True, True, True, False, "some", "dup", "feat"])
    k = dict(style=r.choice(["plain", "plain", "plain", "trim", "odd", "zeros"]), crlf=r.random() < 0.1,
             final_newline=r.random() < 0.85, hostile_start=r.random() < 0.15)
    if tagged is not True:
        # without provenance comments only unambiguous paths can be attributed
        k["kinds"] = ["arc"] * 5 + ["near_axis", "spiral", "line", "random", "scurve", "polygon", "zigzag"]
        k["modes"] = ["ext"] * 8 + ["wipe", "travel", "mixed", "varying"]
    if r.random() < 0.2: k["zpats"] = ["even", "steps", "last", "first", "tail", None, None, None]
    k.update(kw)
    g = gen.Gen(r, o, tagged=tagged, **k)
    g.program(blocks or r.randint(2, 9))
    return _case(r, g, o, tagged is True, {"buf": r.choice([50, 50, 2, 5, 200])})

def rounding(r):
    """Paths at or below the output precision."""
    return general(r, tagged=True, xd=r.choice([4, 5, 6]), hostile_start=False, kinds=["nearclosed", "nearclosed", "tinychain", "tinychain", "tiny", "full"], interrupt=0.15)

SAFE_INT = ["comment", "blank", "fan", "g92e", "emode", "g91", "m117", "type", "unknown", "eonly", "fonly", "zhop", "retract", "arc", "arc", "g4", "star", "g10", "spaces"]

def stats(r):
    """Programs whose moves can be counted and measured independently: every position is stated, nothing re-homes."""
    return general(r, tagged=True, xd=r.choice([2, 3, 4, 5]), ed=r.choice([4, 5]), hostile_start=False, interruptions=SAFE_INT)

def rising(r):
    """Paths in three dimensions: helices with even and uneven rise."""
    return general(r, force={"z3d": r.choice([1, 1, 1, 0])}, tagged=True, xd=r.choice([3, 3, 4, 5, 6]), hostile_start=False, interrupt=r.choice([0, 0, 0.1]), kinds=["arc"] * 8 + ["full", "near_axis", "scurve", "spiral"], smooth=0.7,
                   zpats=["even", "even", "steps", "last", "first", "bump", "tail", "noise", None])

def vast(r):
    """Curves of hundreds and thousands of moves, coordinates far from the origin, large amounts of filament."""
    return general(r, force={"z3d": int(r.random() < 0.25)}, tagged=True, blocks=r.randint(1, 3), hostile_start=False, crlf=False, interrupt=r.choice([0, 0, 0.02, 0.2]), maxseg=r.choice([90, 300, 700]),
                   kinds=["long"] * 3 + ["arc", "full", "scurve", "near_axis", "repeat"], places=[(0, 0), (9999, -9999), (-25000, 41000), (123456, 7), (-3000, -2000), (150, 150)], modes=["ext"] * 8 + ["wipe", "travel", "varying", "e0"],
                   interruptions=["bige", "bige", "comment", "fan", "g92e", "xd", "emode", "retract", "g92xy", "eonly", "type"])

def rollover(r):
    """Arcs some of whose numbers have one digit more when they are written than before (9.9996 becomes 10.000)."""
    import math
    xp = r.choice([3, 3, 3, 4]); ep = r.choice([3, 4, 5]); z3d = int(r.random() < 0.2)
    o = gen.gen_opts(r, xp=xp, ep=ep, dyn=0, z3d=z3d, trav=0, rad=9999.0, var=0.0, mm=gen.DEFAULT_OPTS["mm"], mas=gen.DEFAULT_OPTS["mas"], mgl=r.randint(36, 52 + 10 * z3d), res=r.choice([0.05, 0.1]))
    def near(d):                                       # just below a power of ten, above it (or just half way) once rounded
        return (10.0 ** r.choice([1, 1, 1, 2, 2, 3]) - 10.0 ** -d * (r.uniform(0.02, 0.49) if r.random() < 0.7 else 0.5)) * r.choice([1, 1, -1])
    L = ["G90", "M83" if r.random() < 0.7 else "M82", "G92 E0", "G1 Z0.2 F1800"]; n = 0; E = 0.0
    for _ in range(r.randint(2, 6)):
        which = r.sample(["x", "y", "i", "j", "e", "z"], r.choice([1, 1, 2]))
        i = near(xp) if "i" in which else r.choice([-1, 1]) * r.uniform(1, 80)
        j = near(xp) if "j" in which else r.choice([-1, 1]) * r.uniform(1, 80)
        if max(abs(i), abs(j)) > 300: i = max(-999.9997, min(999.9997, i)); j = max(-999.9997, min(999.9997, j))
        R = math.hypot(i, j); a0 = math.atan2(-j, -i); m = r.randint(5, 40)
        step = r.choice([1, -1]) * min(r.uniform(0.02, 0.3), 2 * math.sqrt(0.1 / R), 5.5 / m)
        ex, ey = R * math.cos(a0 + step * m), R * math.sin(a0 + step * m)          # the last point, about the centre
        cx = near(xp) - ex if "x" in which else r.uniform(-300, 300); cy = near(xp) - ey if "y" in which else r.uniform(-300, 300)
        z0 = 0.2; z1 = near(xp) if "z" in which and z3d else None
        if z1 is not None: z0 = z1 - r.choice([0.5, 2.0, -1.0])
        total = abs(near(ep)) if "e" in which else r.uniform(0.5, 30)
        L.append("G1 X%.6f Y%.6f Z%.6f F%d" % (cx - i, cy - j, z0, r.choice([1200, 3000])))
        if "M82" in L: L.append("G92 E0"); E = 0.0
        prev = 0.0
        for k in range(1, m + 1):
            n += 1; a = a0 + step * k; t = round(total * k / m, 6)
            L.append("G1 X%.6f Y%.6f%s E%.6f%s;n%d" % (cx + R * math.cos(a), cy + R * math.sin(a), " Z%.6f" % (z0 + (z1 - z0) * k / m) if z1 is not None else "", t if "M82" in L else t - prev, " F%d" % r.choice([1500, 2400]) if k == 1 and r.random() < 0.5 else "", n)); prev = t
        L.append("M106 S%d;n%d" % (r.randint(0, 255), 100000 + n))
    c = Case()
    c.data = ("\n".join(L) + "\n").encode(); c.opts = o; c.tagged = False; c.extra = {"buf": 50}; c.start = None; c.home = None; c.gen = None
    return c
