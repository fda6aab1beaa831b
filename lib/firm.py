"""Reference description of the firmware emulations: how many segments an arc gets and how far a vertex may drift.
Written from the documentation of the settings and the firmwares' published behaviour; works on real numbers and gives
ranges wherever the firmware's single precision could decide either way."""
import math
TAU = 2 * math.pi

VERSIONS = {"MARLIN_1": ["1.1.9.1"], "MARLIN_2": ["2.0.9.1", "2.0.9.2"], "REPETIER": ["1.0.4", "1.0.5"], "PRUSA": ["3.10.0", "3.11.0"], "SMOOTHIEWARE": ["2021-06-19"]}
LATEST = {"MARLIN_1": "1.1.9.1", "MARLIN_2": "2.0.9.1", "REPETIER": "1.0.4", "PRUSA": "3.10.0", "SMOOTHIEWARE": "2021-06-19"}
ALL = [(f, v) for f in VERSIONS for v in VERSIONS[f]]
OPT = {"m": ("mm_per_arc_segment", float), "d": ("max_arc_segment_mm", float), "i": ("arc_segments_per_r", float), "n": ("min_mm_per_arc_segment", float), "b": ("min_arc_segment_mm", float),
       "r": ("min_arc_segments", int), "a": ("min_circle_segments", int), "c": ("n_arc_correction", int), "s": ("arc_segments_per_sec", float), "e": ("mm_max_arc_error", float)}
# settings each firmware has, with defaults
USED = {("MARLIN_1", "1.1.9.1"): dict(m=1.0, c=25), ("MARLIN_2", "2.0.9.1"): dict(m=1.0, i=0.0, r=24, s=0.0, c=25), ("MARLIN_2", "2.0.9.2"): dict(b=0.1, d=1.0, a=72, s=0.0, c=25),
        ("REPETIER", "1.0.4"): dict(m=1.0, c=25), ("REPETIER", "1.0.5"): dict(m=1.0, c=25), ("PRUSA", "3.10.0"): dict(m=1.0, c=25),
        ("PRUSA", "3.11.0"): dict(m=1.0, r=24, n=0.0, c=25), ("SMOOTHIEWARE", "2021-06-19"): dict(m=0.0, e=0.01, c=5)}
G90 = {"MARLIN_1": False, "MARLIN_2": True, "REPETIER": False, "PRUSA": False, "SMOOTHIEWARE": True}
TWO_TERMS = {("MARLIN_2", "2.0.9.1"), ("MARLIN_2", "2.0.9.2"), ("REPETIER", "1.0.5"), ("PRUSA", "3.11.0")}
CIRCLES = {("MARLIN_2", "2.0.9.1"), ("MARLIN_2", "2.0.9.2"), ("REPETIER", "1.0.5"), ("SMOOTHIEWARE", "2021-06-19")}   # full circles are reliable
NO_Z = {("REPETIER", "1.0.4")}
E_LAST = {("SMOOTHIEWARE", "2021-06-19")}

def clamp(x, lo, hi): return max(lo, min(hi, x))

def floors(lo, hi): return range(int(math.floor(lo)), int(math.floor(hi)) + 1)
def ceils(lo, hi): return range(int(math.ceil(lo)), int(math.ceil(hi)) + 1)

def segments(fw, cfg, r, sweep, circle, dz, f, slack):
    """-> list of (number of segments, angle between vertices but the last).  slack: possible error of the measured lengths [mm]"""
    flat = r * sweep
    mm = math.hypot(flat, dz)
    rel = 3e-6
    def rng(q, d): return q * (1 - rel) - d, q * (1 + rel) + d
    out = set()
    if fw == ("MARLIN_1", "1.1.9.1") or fw == ("PRUSA", "3.10.0"):
        for n in floors(*rng(mm / cfg["m"], slack / cfg["m"])): out.add(max(1, n))
    elif fw == ("MARLIN_2", "2.0.9.1"):
        segs = [cfg["m"]]
        if cfg["i"] > 0: segs = [clamp(cfg["m"] * (r + s), cfg["m"], cfg["i"]) for s in (-slack, slack)]
        elif cfg["s"] > 0: segs = [max(f / 60 / cfg["s"], cfg["m"])]   # F is mm/min
        R = cfg["r"]
        mins = [max(1, R)]
        if not circle and R > 1: mins = [max(1, x) for x in ceils(*rng(R * sweep / TAU, R * slack / max(r, 1e-9) / TAU))]
        for seg in segs:
            for n in floors(*rng(mm / seg, slack / seg)):
                for m in mins: out.add(max(n, m))
        if len(segs) == 2 and out: out = set(range(min(out), max(out) + 1))
    elif fw == ("MARLIN_2", "2.0.9.2"):
        nominal = cfg["d"] if not cfg["s"] > 0 else clamp(f / 60 / cfg["s"], cfg["b"], cfg["d"])
        a = max(1, cfg["a"])
        mins = [a] if circle else [max(0, x) for x in ceils(*rng(a * sweep / TAU, a * slack / max(r, 1e-9) / TAU))]
        res = set()
        for k in floors(*rng(flat / nominal, slack / nominal)):
            for m in mins:
                ns = max(k, m)
                if ns <= 0: continue
                seg = clamp(flat / ns, cfg["b"], cfg["d"])
                lo, hi = rng(flat / seg, slack / seg)
                for n in floors(lo, hi):
                    if n <= 0:
                        res.add((1, sweep)); continue
                    if n >= 65535: res.add((65535, sweep / 65535)); continue
                    short = flat - n * seg
                    if short > 0.0001 - slack - rel * flat: res.add((n + 1, seg / flat * sweep))
                    if short < 0.0001 + slack + rel * flat: res.add((n, sweep / n))
        return sorted(res)
    elif fw == ("REPETIER", "1.0.4"):
        seg = cfg["m"] if f <= 60 else min(cfg["m"], f * 0.01666 * cfg["m"])
        for n in floors(*rng(flat / seg, slack / seg)): out.add(max(1, n))
    elif fw == ("REPETIER", "1.0.5"):
        for n in ceils(*rng(mm / cfg["m"], slack / cfg["m"])): out.add(max(1, n))
    elif fw == ("PRUSA", "3.11.0"):
        seg = cfg["m"]
        if cfg["r"] > 0: seg = r * TAU / cfg["r"]
        seg = cfg["n"] if seg < cfg["n"] else min(seg, cfg["m"])
        # the radius enters the segment length too
        for n in ceils(*rng(mm / seg, slack / seg + mm / seg * slack / max(r, 1e-9))): out.add(max(1, n))
    else:
        seg = cfg["m"]
        if cfg["e"] > 0 and 2 * r > cfg["e"]:
            s = 2 * math.sqrt(cfg["e"] * (2 * r - cfg["e"]))
            if cfg["m"] < s: seg = s
        if seg < 0.0001: seg = 0.5
        for n in floors(*rng(mm / seg, slack / seg + mm / seg * slack / max(r, 1e-9))): out.add(max(1, n))
    return sorted(set((min(n, 65535), sweep / min(n, 65535)) for n in out))       # the firmwares count segments in 16 bits

def drift(fw, cfg, theta):
    """-> function k -> how far vertex k may be from its place on the circle, relative to the radius"""
    c = cfg["c"]
    period = (c if c > 1 else 1) if fw[0].startswith("MARLIN") else max(c, 0) + 1
    s = theta - theta ** 3 / 6 if fw in TWO_TERMS else theta
    co = 1 - theta * theta / 2
    delta = math.hypot(co - math.cos(theta), s - math.sin(theta)) + 3e-7
    g = max(1.0, math.hypot(co, s))
    def at(k):
        j = k % period
        if j > 400 or delta * j > 1e3: return 1e9
        return j * delta * g ** max(j - 1, 0)
    return at

def centre(sx, sy, ex, ey, R, cw):
    """R form: the centre right of the chord for a clockwise arc of up to half a turn, or a counterclockwise one of more"""
    cx, cy = ex - sx, ey - sy
    d = math.hypot(cx, cy)
    if d == 0: return 0.0, 0.0
    h = math.sqrt(max(0.0, R * R - d * d / 4))
    right = cw == (R > 0)
    nx, ny = (cy / d, -cx / d) if right else (-cy / d, cx / d)
    return cx / 2 + nx * h, cy / 2 + ny * h
