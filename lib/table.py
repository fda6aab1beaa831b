"""Reads the statistics tables ArcWelder prints (any box encoding)."""
import re
ROW = re.compile(r"^\s*([\d.]+)mm to +([\d.]+)mm\s*(\d+)\s+(\d+?)\s*(-?\d+\.\d%|INF)\s*$")
LAST = re.compile(r"^\s*>= +([\d.]+)mm\s*(\d+)\s+(\d+?)\s*(-?\d+\.\d%|INF)\s*$")
TOT = re.compile(r"^\s*Total ([a-z ]+):\.*(-?[\d.]+|INF)(mm|%)?\s*$")

def cells(text):
    for l in text.replace("&#9474", "|").replace("\u2502", "|").split("\n"):
        l = l.strip()
        if l.startswith("|") and l.endswith("|") and len(l) > 2: yield l[1:-1]

def parse(text):
    """-> {"title", "rows": [(min, max or None, source, target, change)], "totals": {name: text}} or (None, why)"""
    t = {"title": None, "rows": [], "totals": {}}
    widths = set(len(c) for c in cells(text))
    if len(widths) > 1: return None, "lines of %s columns" % sorted(widths)
    for c in cells(text):
        m = ROW.match(c)
        if m: t["rows"].append((float(m.group(1)), float(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5))); continue
        m = LAST.match(c)
        if m: t["rows"].append((float(m.group(1)), None, int(m.group(2)), int(m.group(3)), m.group(4))); continue
        m = TOT.match(c)
        if m: t["totals"][m.group(1)] = m.group(2); continue
        if "Min" in c and "Source" in c: continue
        if t["title"] is None and not t["rows"]: t["title"] = c.strip()
        else: return None, "unexpected row %r" % c
    if not t["rows"] or t["rows"][-1][1] is not None: return None, "no rows"
    return t, None

def change(s, t):
    """acceptable change texts"""
    if s == t: return ("0.0%", "-0.0%")
    if s == 0: return ("INF",)
    return tuple("%.1f%%" % ((t - s) / s * 100 + d) for d in (0, -1e-9, 1e-9))

def judge(t, cs, ct, ls, lt, bad, slack=0.0):
    """the table against totals: counts and lengths of source and target"""
    R = t["rows"]; T = t["totals"]
    prev = 0.0
    for lo, hi, s, g, ch in R:
        if abs(lo - prev) > 1e-9: bad("table", "row starts at %g after one that ends at %g" % (lo, prev))
        prev = hi if hi is not None else lo
        if ch not in change(s, g): bad("table", "change of %d to %d is given as %s" % (s, g, ch))
    if sum(r[2] for r in R) != cs or sum(r[3] for r in R) != ct: bad("table", "rows sum up to %d and %d moves instead of %d and %d" % (sum(r[2] for r in R), sum(r[3] for r in R), cs, ct))
    if T.get("count source") != str(cs) or T.get("count target") != str(ct): bad("table", "total counts %s and %s instead of %d and %d" % (T.get("count source"), T.get("count target"), cs, ct))
    if T.get("percent change") not in tuple(x.rstrip("%") for x in change(cs, ct)): bad("table", "total change of %d to %d is given as %s" % (cs, ct, T.get("percent change")))
    try:
        a = float(T["distance"]) if "distance" in T else float(T["distance source"]); b = a if "distance" in T else float(T["distance target"])
    except (KeyError, ValueError): bad("table", "no distances: %r" % T); return
    if abs(a - ls) > 0.00051 + 1e-9 * ls or slack is not None and abs(b - lt) > slack + (0.0016 if "distance" in T else 0.00051) + 1e-9 * lt: bad("table", "distances %g and %g instead of %.4f and %.4f" % (a, b, ls, lt))

def buckets(t, lengths, col, bad, what, rough=()):
    """the rows against the single lengths; a length within rounding of a bound may be on either side"""
    R = t["rows"]
    lo_hi = [(r[0], r[1] if r[1] is not None else float("inf")) for r in R]
    sure = [0] * len(R); may = [0] * len(R)
    for x, eps in [(x, 1e-6 + 1e-9 * x) for x in lengths] + list(rough):
        k = [i for i, (a, b) in enumerate(lo_hi) if a - eps <= x < b + eps]
        if len(k) == 1: sure[k[0]] += 1
        for i in k: may[i] += 1
    for i, r in enumerate(R):
        n = r[col]
        if not sure[i] <= n <= may[i]: bad("table", "%s: %d moves of %g to %s mm, counted %d%s" % (what, n, r[0], r[1], sure[i], "" if may[i] == sure[i] else " to %d" % may[i]))
