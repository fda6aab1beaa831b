"""Small helpers of the demonstrations: run the built programs on a text, execute G-code."""
import math, os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
WELD = os.path.join(REPO, "_build", "ArcWelderConsole", "ArcWelder")
STRAIGHT = os.path.join(REPO, "_build", "ArcWelderInverseProcessor", "ArcStraightener")

def run(exe, args, timeout=100, **kw):
    return subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def convert(exe, text, args=()):
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        src, dst = os.path.join(d, "in.gcode"), os.path.join(d, "out.gcode")
        with open(src, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        p = run(exe, list(args) + [src, dst])
        out = open(dst, "rb").read().decode("latin-1") if os.path.exists(dst) else None
        return p.returncode, p.stdout.decode("latin-1"), out
    finally:
        shutil.rmtree(d)

def weld(text, *args):
    """-> output lines without the header block"""
    rc, log, out = convert(WELD, text, args)
    if rc or out is None: fail("conversion failed: %s %s" % (rc, log[-300:]))
    lines = out.split("\n")
    if "" in lines: 
        k = next(i for i, l in enumerate(lines) if l.startswith("; Postprocessed"))
        e = lines.index("", k)
        lines = lines[:k] + lines[e + 1:]
    while lines and lines[-1] == "": lines.pop()
    return lines

def words(line):
    code = line.split(";")[0].split()
    return (code[0] if code else None), {w[0]: (float(w[1:]) if w[1:] else None) for w in code[1:] if w[0].isalpha()}

def execute(lines, g90e=False):
    """[(command, words, x, y, z, e, fed, f)] after every line; absolute or relative"""
    s = dict(X=0.0, Y=0.0, Z=0.0, E=0.0, F=0.0); fed = 0.0; rel = er = False
    out = []
    for l in lines:
        c, w = words(l)
        if c in ("G0", "G1", "G2", "G3"):
            for k in "XYZ":
                if k in w: s[k] = s[k] + w[k] if rel else w[k]
            if "E" in w:
                d = w["E"] if er else w["E"] - s["E"]
                s["E"] += d; fed += d
            if "F" in w: s["F"] = w["F"]
        elif c == "G90": rel = False; er = False if g90e else er
        elif c == "G91": rel = True; er = True if g90e else er
        elif c == "M82": er = False
        elif c == "M83": er = True
        elif c == "G92":
            for k in w: s[k] = w[k]
        elif c == "G28":
            for k in "XYZ":
                if k in w or not any(a in w for a in "XYZ"): s[k] = 0.0
        out.append((c, w, s["X"], s["Y"], s["Z"], s["E"], fed, s["F"]))
    return out

def circle(cx, cy, r, a0, a1, n):
    return [(cx + r * math.cos(a0 + (a1 - a0) * k / n), cy + r * math.sin(a0 + (a1 - a0) * k / n)) for k in range(n + 1)]

def arcs(lines):
    return [l for l in lines if l.startswith(("G2 ", "G3 "))]

def fail(msg):
    print("DEMO FAIL:", msg); sys.exit(1)

def ok(msg="ok"):
    print(msg); sys.exit(0)
