"""C20 parser, C21 position tracker, C22 containers: the real classes driven operation by operation (harness/track_driver.cpp, AddressSanitizer build) against independent models."""
import json, os, random, shutil, hashlib
from collections import deque
from decimal import Decimal
import build, tools, gen, gm, profiles, weldrun, hostile

def drive(ctx, exe, batches):
    """batches: list of lists of operation lines (bytes); -> list of lists of answers (one JSON value per operation, container sessions as raw lines)"""
    root = weldrun.scratch("vf_trk_")
    def one(k):
        a, b = os.path.join(root, "i%d" % k), os.path.join(root, "o%d" % k)
        tools.put(a, b"\n".join(batches[k]) + b"\n")
        rc, out = tools.run(exe, [a, b], root, timeout=100)
        return rc, out, (tools.read(b) or b"").decode("latin-1").split("\n")
    try:
        res = tools.pmap(one, range(len(batches)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    good = []
    for k, (rc, out, lines) in enumerate(res):
        if rc != 0:
            ctx.violation("crash" if rc != "hang" else "hang", "operations end with %s: %s" % (rc, out[:1500]), {"ops": [o.decode("latin-1") for o in batches[k]][:5000]})
            good.append(None)
        else:
            if lines and lines[-1] == "": lines.pop()
            good.append(lines)
    return good

# ---------------- C20 ------------------------------------------------------
KNOWN = ["G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G29", "G80", "G90", "G91", "G92", "M82", "M83", "M104", "M105", "M106", "M109", "M114", "M116", "M140", "M141", "M190", "M191", "M207", "M208", "M218", "M240", "M400", "M563"]
OTHER = ["G4", "G5", "G17", "G29.1", "G92.1", "G1.5", "G38.2", "M0", "M73", "M204", "M205", "M900", "M117", "G12345", "M1000", "G53", "M82.1"]
TEXTUAL = ("M117", "M118")

def spell_num(r, d):
    """-> (text, value, decimals)"""
    neg = r.random() < 0.3; plus = not neg and r.random() < 0.06
    ip = r.choice(["0", "", str(r.randint(0, 9)), str(r.randint(0, 999)), str(r.randint(0, 10 ** r.randint(1, 15))), "0" * r.randint(1, 4) + str(r.randint(0, 99))])
    fd = r.choice([0, 0, 1, 2, 3, 3, 4, 5, 6, 9, 15])
    fp = "".join(r.choice("0123456789") for _ in range(fd))
    dot = fd > 0 or r.random() < 0.05
    if not ip and not fp: ip = "0"
    t = ("-" if neg else "+" if plus else "") + (r.choice(["", "", " ", "\t"]) if neg or plus else "") + ip + ("." + fp if dot else "")
    return t, float(("-" if neg else "") + (ip or "0") + "." + (fp or "0")), fd if dot else 0

WORDY = "abcxyzABCXYZ0189-_@[]^`{|}~/:=.,!"
WS = ["", "", " ", " ", " ", "  ", "\t", " \t "]

def line(r):
    """A well-formed line and what it states: (bytes, command or None, words or None, comment)."""
    k = r.random()
    comment = None
    if r.random() < 0.4: comment = r.choice(["", " x", "TYPE:Outer", "a;b;;c", "G1 X5", " trailing ", "\ttab\t", "".join(chr(r.choice(list(range(32, 127)) + list(range(160, 256)))) for _ in range(r.randint(0, 30)))])
    lead = r.choice(["", "", "", " ", "\t", "   "])
    if k < 0.06: return finish(r, r.choice(["", " ", "\t \t"]), None, [], comment)
    if k < 0.12:
        s = r.choice(["N10 G1 X5", "%", "EXCLUDE_OBJECT NAME=x", "X10 Y20", "G", "M", "T", "Gx", "M X1", "T x y", "(paren)", "1 G1", "hello", "\xe9t\xe9", "G-1", "M+3", "T-1", "Tool 1", "*G1"])
        return finish(r, lead + s, None, None, comment)
    if k < 0.2:
        n = r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31, 100, 255, r.randint(256, 9999), r.randint(10 ** 4, 10 ** 8 - 1)])
        t = r.choice(["%d" % n] * 5 + ["0%d" % n, "?", "c", "C", "x", "X"])
        v = ("T", "S", t.upper()) if t in "?cCxX" else ("T", "U", int(t))
        return finish(r, lead + r.choice("Tt") + r.choice(["", "", " ", "\t"]) + t, "T", [v], comment)
    if k < 0.24:
        name = r.choice(["@pause", "@OCTOLAPSE", "@Octolapse", "@X-1", "@a@b"]); up = name.upper()
        rest = r.choice(["", " take-snapshot", "  start", " a b", " Zaz-{}~`9", "\tSTART  ", "".join(r.choice(WORDY) for _ in range(r.randint(1, 12)))])
        if rest and rest[0] not in " \t": rest = " " + rest
        ws = None if up != "@OCTOLAPSE" else [] if not rest.split() else [(rest.split()[0].upper(), "N")] + ([("B", "?", None)] if rest == " a b" else [])
        return finish(r, lead + name + rest, up, ws, comment)
    cmd = r.choice(KNOWN) if k < 0.88 else r.choice(OTHER)
    a = cmd[1:]
    if r.random() < 0.12 and "." not in a: a = "0" * r.randint(1, 3) + a
    s = lead + (cmd[0].lower() if r.random() < 0.15 else cmd[0]) + r.choice(["", "", "", "", " ", "\t"]) + a
    if cmd in TEXTUAL: return finish(r, s + r.choice([" Hello World", "", " E=mc2 X5"]), cmd, [], comment)
    words = []; n = r.choice([0, 1, 2, 3, 3, 4, 5, 6])
    # something has to separate the address from digits that follow; words start with a letter, so nothing is needed
    for _ in range(n):
        L = r.choice("XYZEFIJ" if r.random() < 0.8 else "RSPQABCDHKLOUVW")
        s += r.choice(WS) + (L.lower() if r.random() < 0.1 else L)
        if r.random() < 0.07 and cmd not in ("G0", "G1", "G2", "G3"):
            # no value: white space or another word follows
            words.append((L, "?", None)); s += r.choice([" ", "\t", ""])
            continue
        t, v, d = spell_num(r, 0)
        s += (r.choice([" ", "\t"]) if r.random() < 0.05 else "") + t
        words.append((L, "F", v, d))
    return finish(r, s, cmd, words if cmd in KNOWN else [], comment)

def finish(r, s, cmd, words, comment):
    s += r.choice(["", "", "", "", " ", "\t", "  "])
    code = s
    t = s + (";" + comment if comment is not None else "")
    if r.random() < 0.1: t += "\r"
    return t.encode("latin-1"), cmd, words, comment

def c20(ctx):
    exe = build.driver("asan", "track_driver")
    r = random.Random("C20|%s" % ctx.seed)
    N = ctx.scale(40000, 1500000); size = 2500 if N < 100000 else 20000
    cases = [line(r) for _ in range(N)]
    parts = [cases[k:k + size] for k in range(0, N, size)]
    for part, ans in zip(parts, drive(ctx, exe, [[b"P" + c[0] for c in p] for p in parts])):
        if ans is None: continue
        if len(ans) != len(part): ctx.violation("lost", "%d answers to %d lines" % (len(ans), len(part))); continue
        for (data, cmd, words, comment), a in zip(part, ans):
            known, c, d, e, back = json.loads(a)
            judge_line(ctx, data, cmd, words, comment, known, c, d, e, back)
            ctx.eval((cmd, tuple(w[:2] for w in words or ()), comment is not None, len(data)))
            if words: ctx.count("words_checked", len(words))
            ctx.sample(data.decode("latin-1"))
    # arbitrary bytes: what holds for every line
    raw = []
    for _ in range(ctx.scale(150, 4000)):
        for l in hostile.case(r)[0].split(b"\n")[:200]:
            raw.append(l.split(b"\0")[0])
    parts = [raw[k:k + size] for k in range(0, len(raw), size)]
    for part, ans in zip(parts, drive(ctx, exe, [[b"P" + c for c in p] for p in parts])):
        if ans is None: continue
        for data, a in zip(part, ans):
            known, c, d, e, back = json.loads(a)
            t = data.decode("latin-1"); k = t.find(";")
            code, com = (t, "") if k < 0 else (t[:k], t[k + 1:])
            ctx.eval(("raw", c["c"], len(c["p"]), len(data)))
            ctx.count("raw_lines")
            if c["g"] != code: ctx.violation("code", "%r: the code part is %r" % (t, c["g"]), {"line": t})
            if c["k"] != com.replace("\r", ""): ctx.violation("comment", "%r: the comment is %r" % (t, c["k"]), {"line": t})
            if c != e: ctx.violation("reuse", "%r: parsed into a cleared command gives %r, into a new one %r" % (t, e, c), {"line": t})
            if (c["c"], c["p"], c["known"], c["empty"]) != (d["c"], d["p"], d["known"], d["empty"]): ctx.violation("format", "%r: read differently when the format is not kept: %r, %r" % (t, c, d), {"line": t})
            ref, _ = gm.read(t)
            if ref and ref[0] in "GM" and known and c["c"] != ref and "." not in ref and not any(x.isdigit() for x in t.lstrip()[1:].lstrip(" \t0123456789")[:1]):
                # the reference reading knows no blanks inside an address
                if c["c"].replace(" ", "") != ref: ctx.count("raw_reference_differs")
            if bool(c["empty"]) != (code.strip("".join(map(chr, range(33)))) == ""): ctx.violation("blank", "%r: empty=%s" % (t, c["empty"]), {"line": t})
    ctx.need("words", ctx.cov.get("words_checked", 0) > 1000)
    ctx.rule = "Lines spelled at random from a known meaning (words_checked values compared) and arbitrary lines (raw_lines); distinct by command, words and length."

def judge_line(ctx, data, cmd, words, comment, known, c, d, e, back):
    t = data.decode("latin-1")
    def bad(key, m): ctx.violation(key, "%r: %s" % (t, m), {"line": t})
    if bool(known) != (cmd is not None) or c["c"] != (cmd or ""): return bad("command", "read as %r, states %r" % (c["c"], cmd))
    if c["k"] != (comment or "").replace("\r", ""): bad("comment", "comment read as %r" % c["k"])
    k = t.find(";"); code = t if k < 0 else t[:k]
    if c["g"] != code: bad("code", "the code part is %r" % c["g"])
    if bool(c["empty"]) != (code.strip() == ""): bad("blank", "empty=%s" % c["empty"])
    if words is not None and c["empty"] == 0:
        p = [a for a in c["p"] if a[0] != "\r"]  # the carriage return of a line end, read as a host command's word
        if len(p) != len(words) or any(a[0] != w[0] and not (w[1] == "N" and a[0].rstrip("\r") == w[0]) for a, w in zip(p, words)):
            return bad("words", "words %r, states %r" % ([a[0] for a in p], [w[0] for w in words]))
        for a, w in zip(p, words):
            if w[1] == "F":
                if a[1] != "F" or not isinstance(a[2], (int, float)) or abs(a[2] - w[2]) > 2e-15 * abs(w[2]): bad("value", "%s is %r, states %r" % (w[0], a[1:3], w[2]))
                elif a[3] != w[3]: bad("decimals", "%s has %d decimals, states %d" % (w[0], a[3], w[3]))
            elif w[1] == "U" and (a[1] != "U" or a[4] != w[2]): bad("value", "T is %r, states %r" % (a, w[2]))
            elif w[1] == "S" and (a[1] != "S" or a[5] != w[2]): bad("value", "T is %r, states %r" % (a, w[2]))
            elif w[1] == "?" and a[1] == "F": bad("value", "%s has the value %r, states none" % (w[0], a[2]))
    if c != e: bad("reuse", "parsed into a cleared command gives %r, into a new one %r" % (e, c))
    if (c["c"], c["p"], c["known"], c["empty"]) != (d["c"], d["p"], d["known"], d["empty"]): bad("format", "read differently when the format is not kept: %r, %r" % (c, d))
    if comment is not None:
        if back != code + ";" + comment.replace("\r", "") and back != c["g"] + ";" + c["k"]: bad("text", "written back as %r" % back)
    elif back != c["g"]: bad("text", "written back as %r" % back)

# ---------------- C21 ------------------------------------------------------
class Ref:
    """gm.Machine plus what the tracker reports beyond the position: knowledge of the axes, filament per tool, retraction."""
    def __init__(self, ne, shared, zero, g90e):
        self.m = gm.Machine(g90e=g90e); self.n = ne; self.shared = shared; self.zero = zero
        self.known = {"X": False, "Y": False, "Z": False}; self.homed = set()
        self.e = [0.0] * self.n; self.retr = [0.0] * self.n; self.f = None; self.exact = True; self.offsets = False
        self.de = 0.0; self.inch_e = False
    def step(self, cmd, p):
        m = self.m; self.de = 0.0; old = m.pos()
        if cmd is None: return
        if cmd == "G28":
            ax = [a for a in "XYZ" if a in p] or list("XYZ")
            for a in ax: self.known[a] = False
            self.homed = self.homed | set(ax)
            return
        if cmd in ("G20", "G21"):
            if m.inch != (cmd == "G20"):
                for a in "XYZ": self.known[a] = False
            m.inch = cmd == "G20"
            return
        if cmd[0] == "T":
            t = int(cmd[1:]) - (0 if self.zero else 1)
            t = min(max(t, 0), self.n - 1)
            if self.shared: self.e[t] = self.e[m.tool]      # one E axis for all tools
            m.tool = t
            return
        k = m.tool; m.e = self.e[k]
        inch = m.inch; m.inch = False          # numbers are compared in the units of the program
        mark = "O" in p                         # G92 O says that the axes may be taken as homed; it sets no position
        p = {a: v for a, v in p.items() if v is not None}
        if cmd in ("G0", "G1", "G2", "G3"):
            if not m.rel:
                for a in "XYZ":
                    if a in p: self.known[a] = True
            if "F" in p: self.f = p["F"]
            m.step(cmd, p); self.de = m.e - self.e[k]
            if abs(self.de) < 1e-9: self.de = 0.0
            if abs(self.de) > 0: self.retr[k] = max(0.0, self.retr[k] - self.de)
            if self.retr[k] < 6e-6: self.retr[k] = 0.0
        elif cmd == "G92":
            if mark: self.homed = set("XYZ")
            if not p and not mark:
                # all axes; an axis whose position is unknown stays unknown
                m.x = m.y = m.z = 0.0; m.e = 0.0
            else:
                if p: m.step(cmd, p)
                for a in "XYZ":
                    if a in p: self.known[a] = True
        else: m.step(cmd, p)
        self.e[k] = m.e; m.inch = inch

def program(r):
    """source lines of moves and state changes"""
    o = gen.gen_opts(r)
    g = gen.Gen(r, o, tagged=False, style=r.choice(["plain", "trim", "odd", "zeros"]), hostile_start=r.random() < 0.5, kinds=["arc", "line", "random", "tiny", "zigzag"], interrupt=0.5, maxseg=12)
    g.program(r.randint(2, 6))
    L = [l.decode("latin-1").rstrip("\r") for l in g.data().split(b"\n")]
    out = []
    for l in L:
        out.append(l)
        c = r.random()
        if c < 0.06:
            out.append(r.choice(["G28", "G28 X", "G28 Y0 Z0", "G92 X0 Y0", "G92", "G92 E0", "G92 Z1.5", "G92 X10.5 E3", "G92 O", "G92 X5 O", "G92 O Z2", "G20", "G21", "G21", "T0", "T1", "T2", "T3", "T9", "G91", "G90", "M82", "M83", "G1 F1200", "G1", "G0 Z5", "G1 E-1", "G1 E1", "G2 X1 Y1 I0.5 J0.5", "G90.1", "M117 G91", ";G91", "G92.1 X5", "N5 G91"]))
    return out

def c21(ctx):
    exe = build.driver("asan", "track_driver")
    r = random.Random("C21|%s" % ctx.seed)
    n = ctx.scale(500, 12000)
    jobs = []
    for i in range(n):
        rr = random.Random("C21|%s|%d" % (ctx.seed, i))
        buf = rr.choice([2, 3, 5, 50, 50]); ne, shared = rr.choice([(1, 1), (1, 1), (1, 0), (2, 0), (4, 0), (3, 1)]); zero = int(rr.random() < 0.8); g90 = int(rr.random() < 0.5)
        ops = [("A", "%d %d %d %d %d" % (buf, ne, shared, zero, g90))]; depth = 0; cap = buf
        for l in program(rr):
            ops.append(("L", l)); depth = min(depth + 1, cap)
            c = rr.random()
            if c < 0.04 and depth > 1:
                # undo some updates, and possibly repeat them
                k = rr.randint(1, min(depth - 1, 4))
                if k > 0:
                    if rr.random() < 0.3: ops.append(("U", 0)); depth -= 1
                    else: ops.append(("U", k)); depth -= k
            elif c < 0.06: ops.append(("H", rr.randint(1, max(1, min(depth, 6)))))
            elif c < 0.07: ops.append(("C", ""))
            elif c < 0.08: cap2 = cap + rr.randint(-1, 5); ops.append(("G", cap2)); cap = max(cap, cap2)
        jobs.append(ops)
    per = 20
    parts = [jobs[k:k + per] for k in range(0, n, per)]
    enc = [[(a + str(b)).encode("latin-1") for ops in p for a, b in ops] for p in parts]
    for part, ans in zip(parts, drive(ctx, exe, enc)):
        if ans is None: continue
        it = iter(ans)
        for ops in part:
            judge_track(ctx, ops, it)
    ctx.need("positions", ctx.cov.get("positions_compared", 0) > 1000)
    ctx.need("undo", ctx.cov.get("updates_undone", 0) > 20)
    ctx.rule = "Programs run line by line through the tracker; distinct by (modes, tool, axes known, command) reached. positions_compared coordinates were checked against the reference machine."

def same(a, b): return abs(a - b) <= 1e-7 + 1e-12 * abs(b)

def judge_track(ctx, ops, it):
    ref = None; stack = None; log = []; initial = None
    for op, arg in ops:
        a = json.loads(next(it)); log.append(op + str(arg))
        def bad(key, m):
            ctx.violation(key, "%s%s: %s" % (op, arg, m), {"ops": list(log)})
        if op == "A":
            buf, ne, sh, zero, g90 = map(int, arg.split()); ref = [Ref(ne, sh, zero, g90)]; stack = deque(maxlen=buf); prev = None
            n = 0; stack.clear()
        elif op == "L":
            n += 1; R = clone(ref[-1]); cmd, p = gm.read(arg)
            R.step(cmd, p); ref.append(R); ctx.count("updates"); ctx.eval((cmd, R.m.rel, R.m.erel, R.m.tool, R.m.inch, tuple(R.known.values())))
            if not compare(ctx, bad, a, R, arg, cmd, p, stack[-1] if stack else None, n): return skip(ops, it, len(log))
            stack.append(a); initial = initial
        elif op == "U":
            if int(arg) == 0: k = 1
            else:
                k = int(arg); want = [stack[-1 - i] for i in range(k)]
                for q, w in zip(a, want):
                    if q != w: bad("undone", "removed position differs from the one recorded: %s" % diff(q, w)); break
                a = json.loads(next(it))
            for _ in range(k): stack.pop(); ref.pop()
            ctx.count("updates_undone", k)
            if stack and a != stack[-1]: bad("undo", "state after the undo differs from the state before the update: %s" % diff(a, stack[-1])); return skip(ops, it, len(log))
        elif op == "G":
            stack = deque(stack, maxlen=max(stack.maxlen, int(arg)))
            ctx.count("buffer_growths")
            if stack and a != stack[-1]: bad("grow", "state changed: %s" % diff(a, stack[-1]))
        elif op == "H":
            k = min(len(stack), len(a)); ctx.count("history_positions", k)
            for i in range(k):
                if a[i] != stack[-1 - i]: bad("history", "position %d back is not the one recorded: %s" % (i, diff(a[i], stack[-1 - i]))); break
        elif op == "C":
            ctx.count("copies", 4)
            if stack:
                for q, w in zip(a, ("copy", "assignment", "copy of an assigned", "self-assigned")):
                    if q != stack[-1]: bad("copy", "%s position differs: %s" % (w, diff(q, stack[-1]))); break

def skip(ops, it, done):
    for op, arg in ops[done:]:
        next(it)
        if op == "U" and int(arg): next(it)

def clone(R):
    q = Ref.__new__(Ref); q.__dict__.update(R.__dict__); q.m = R.m.copy(); q.known = dict(R.known); q.e = list(R.e); q.retr = list(R.retr); return q

def diff(a, b):
    return ", ".join("%s %r/%r" % (k, a[k], b[k]) for k in a if a[k] != b.get(k))[:400]

def compare(ctx, bad, a, R, text, cmd, p, prev, n):
    m = R.m; ok = True
    for L, k, v in (("X", "x", m.x), ("Y", "y", m.y), ("Z", "z", m.z)):
        if R.known[L] != (a[k] is not None):
            bad("known", "%s is %s, the program %s it" % (L, a[k], "determines" if R.known[L] else "does not determine")); ok = False
        elif R.known[L]:
            ctx.count("positions_compared")
            if not same(a[k], v): bad("position", "%s is %r, reference %r" % (L, a[k], v)); ok = False
        else:
            # nothing is known, so there is nothing to compare from here on; the reference takes over what comes later
            pass
    if cmd in ("G0", "G1", "G2", "G3") and not m.rel and ok:
        # where the machine is: the coordinate, plus what G92 shifted it by, less where the nozzle in use sits
        for i, L in enumerate("XY"):
            if any(w[0] == L for w in a["cmd"]["p"]):
                ctx.count("machine_positions_compared")
                want = a["xy"[i]] + a["raw"][3 + i] - a["ex"][a["tool"]][4 + i]
                if not same(a["raw"][i], want): bad("machine", "the machine is at %s%r, %s%r shifted by %r with a nozzle at %r is %r" % (L, a["raw"][i], L, a["xy"[i]], a["raw"][3 + i], a["ex"][a["tool"]][4 + i], want)); ok = False
    if cmd == "G92" and prev is not None and ok:
        # an axis that is homed stays where it is; only what its place is called changes
        for i, L in enumerate("XYZ"):
            if L in R.homed and p.get(L) is not None and prev["xyz"[i]] is not None:
                ctx.count("places_kept")
                if not same(a["raw"][i], prev["raw"][i]): bad("place", "the machine is at %s%r, and was at %r before" % (L, a["raw"][i], prev["raw"][i])); ok = False
    for k, v, w in (("rel", bool(a["rel"]), m.rel), ("erel", bool(a["erel"]), m.erel), ("metric", bool(a["metric"]), not m.inch), ("tool", a["tool"], m.tool)):
        if v != w: bad("mode", "%s is %r, reference %r" % (k, v, w)); ok = False
    if not same(a["e"], R.e[m.tool]): bad("e", "E is %r, reference %r" % (a["e"], R.e[m.tool])); ok = False
    if len(a["ex"]) != R.n: bad("tools", "%d tools" % len(a["ex"])); ok = False
    else:
        for i, q in enumerate(a["ex"]):
            if (not R.shared or i == m.tool) and not same(q[0] - q[1], R.e[i]): bad("e", "E of tool %d is %r, reference %r" % (i, q[0] - q[1], R.e[i])); ok = False
    if (a["f"] is None) != (R.f is None) or (R.f is not None and not same(a["f"], R.f)): bad("feed", "F is %r, reference %r" % (a["f"], R.f)); ok = False
    if not same(a["de"], R.de): bad("de", "filament of the move is %r, reference %r" % (a["de"], R.de)); ok = False
    if (not R.shared or R.n == 1) and abs(a["retr"] - R.retr[m.tool]) > 2e-5: bad("retraction", "retracted %r, reference %r" % (a["retr"], R.retr[m.tool])); ok = False
    if a["line"] != n and False: bad("line", "line %d" % a["line"])
    if any(q[4] or q[5] for q in a["ex"]): R.offsets = True      # the same coordinates are another place for another nozzle
    if prev is not None and cmd in ("G0", "G1", "G2", "G3") and all(R.known.values()) and all(prev[k] is not None for k in "xyz"):
        d = [abs(a[k] - prev[k]) for k in "xy"]
        if max(d) > 1e-4 and not a["moved"]: bad("moved", "moved by %r without reporting it" % d)
        if max(d) < 1e-7 and a["moved"] and not R.offsets: bad("moved", "reports a move, but the position is the same")
    if abs(R.de) > 1e-4 and not a["changed"]: bad("changed", "filament moved without reporting it")
    return ok

# ---------------- C22 ------------------------------------------------------
class Full(Exception): pass

class Model:
    def __init__(self, kind, m):
        self.kind = kind; self.max = m; self.q = deque(); self.n = 0; self.omax = None
    def do(self, op, k):
        """-> expected text before the counts, or None if nothing is printed"""
        v = "item %d with some text that does not fit into a small string" % self.n; self.n += 1
        q = self.q; out = ""
        if op in ("pf", "pb"):
            if len(q) == self.max:
                if self.kind == "a": return '"exception"'
                if self.kind == "g": self.max *= 2
                elif op == "pf": q.pop()
                else: q.popleft()
            q.appendleft(v) if op == "pf" else q.append(v)
        elif op == "xf": out = '"exception"' if not q else '"%s"' % q.popleft()
        elif op == "xb": out = '"exception"' if not q else '"%s"' % q.pop()
        elif op == "get": out = '"%s"' % q[k]
        elif op == "grow": self.max = k
        elif op == "clear": q.clear()
        elif op in ("copy", "show"): out = "[" + ",".join('"%s"' % x for x in q) + "]"
        return out

def c22(ctx):
    exe = build.driver("asan", "track_driver")
    sessions = []
    for i in range(ctx.scale(6000, 200000)):
        rr = random.Random("C22|%s|%d" % (ctx.seed, i))
        kind = rr.choice("ccag"); m = 50 if kind == "g" else rr.choice([1, 2, 3, 4, 5, 7, 16])
        M = Model(kind, m); ops = []; want = []
        bias = rr.choice([0.35, 0.5, 0.65]); length = rr.choice([10, 40, 150]) if kind != "g" else rr.choice([40, 300])
        side = rr.choice([0.1, 0.5, 0.9])
        for _ in range(length):
            c = rr.random()
            if c < bias * 0.8: op, k = ("pf" if rr.random() < side else "pb"), 0
            elif c < 0.8: op, k = ("xf" if rr.random() < side else "xb"), 0
            elif c < 0.88 and M.q: op, k = "get", rr.randrange(len(M.q))
            elif c < 0.91: op, k = "grow", M.max + rr.randint(0, 4)
            elif c < 0.92: op, k = "clear", 0
            elif c < 0.95: op, k = "copy", 0
            else: op, k = "show", 0
            ops.append("%s %d" % (op, k)); t = M.do(op, k); want.append("%s %d %d" % (t, len(M.q), M.max))
            ctx.count("container_operations"); ctx.eval((kind, op, len(M.q), M.max))
        ops.append("show 0"); want.append("%s %d %d" % (M.do("show", 0), len(M.q), M.max))
        sessions.append((kind, m, ops, want))
    per = 200
    parts = [sessions[k:k + per] for k in range(0, len(sessions), per)]
    enc = []
    for p in parts:
        b = []
        for kind, m, ops, want in p: b += [("Q%s%s" % (kind, m if kind != "g" else "")).encode()] + [o.encode() for o in ops] + [b"."]
        enc.append(b)
    for p, ans in zip(parts, drive(ctx, exe, enc)):
        if ans is None: continue
        pos = 0
        for kind, m, ops, want in p:
            got = ans[pos:pos + len(want)]; pos += len(want) + 1
            for i, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    ctx.violation("container", "%s(%d): after %s: %r, reference %r" % ({"c": "circular_buffer", "a": "array_list", "g": "growing array_list"}[kind], m, " ".join(ops[max(0, i - 6):i + 1]), g[:200], w[:200]), {"kind": kind, "max": m, "ops": ops[:i + 1]})
                    break
    ctx.rule = "Operation sequences against a deque; distinct by (container, operation, size, capacity)."

# ---------------- numbers (part of C11) -------------------------------------
import math, re, struct
NUMTEXT = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?$")

def value(r):
    k = r.random()
    if k < 0.3: v = round(r.uniform(-1000, 1000), r.randint(0, 9))
    elif k < 0.45: v = r.randint(-10 ** 6, 10 ** 6) / 10.0 ** r.randint(0, 9) + r.choice([0, 0, 0.5, 5e-4, 5e-6]) * r.choice([1, -1])
    elif k < 0.6: v = r.choice([10.0 ** r.randint(-9, 20), 10.0 ** r.randint(0, 9) - 10.0 ** -r.randint(1, 8), 9.999999999, 99.9995, 999.99951, 0.9999999, 9.5, 99.5, 0.5, 1.5, 2.5, 0.05]) * r.choice([1, -1])
    elif k < 0.7: v = float(r.randint(-2 ** 63, 2 ** 63)) * r.choice([1, 2.0 ** -40, 2.0 ** 30])
    elif k < 0.8: v = r.choice([0.0, -0.0, 1e-320, 5e-324, 1.7976931348623157e308, 2.0 ** 31, 2.0 ** 31 - 1, 2.0 ** 32, -2.0 ** 31, 2.0 ** 53, 1e15, 1e16, 1e17, 1e18, 1e21, 1e22, 1e23, 123456789012345680.0])
    elif k < 0.9: v = r.uniform(-1, 1) * 10.0 ** r.randint(-12, 3)
    else: v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    return v if math.isfinite(v) else 1.0

def numbers(ctx):
    exe = build.driver("asan", "track_driver")
    r = random.Random("C11n|%s" % ctx.seed)
    vals = []
    for _ in range(ctx.scale(60000, 3000000)):
        p = r.choice([0, 1, 2, 3, 3, 3, 4, 5, 5, 6, 9, 12, 15]) if r.random() < 0.95 else r.choice([20, 30, 100, 255])
        vals.append((value(r), p))
    size = 4000
    parts = [vals[k:k + size] for k in range(0, len(vals), size)]
    for part, ans in zip(parts, drive(ctx, exe, [[("N%r %d" % q).encode() for q in p] for p in parts])):
        if ans is None: continue
        for (v, p), a in zip(part, ans):
            t, d, dp = json.loads(a)
            ctx.eval(("number", p, math.frexp(v)[1])); ctx.count("numbers_checked")
            def bad(k, m): ctx.violation(k, "%r with %d decimals: %s" % (v, p, m), {"value": repr(v), "precision": p})
            m = NUMTEXT.match(t)
            if not m: bad("text", "%r is not a plain decimal number" % t[:80]); continue
            dec = len(m.group(2)) - 1 if m.group(2) else 0
            if dec != p and not (v == 0 and t in ("0", "-0")): bad("decimals", "%r has %d decimals" % (t[:80], dec))
            err = abs(Decimal(t) - Decimal(v))
            half = Decimal(5).scaleb(-p - 1)
            if err > half + Decimal(math.ulp(v)): bad("rounding", "%r is off by %s" % (t[:80], err))
            whole = t.lstrip("-").split(".")[0]
            if d != len(str(int(abs(v)))) and abs(v - round(v)) > 1e-9 * abs(v) : bad("digits", "%d digits before the decimal point" % d)
            if p <= 15 and abs(v) < 1e15 and dp != len(whole):
                # numbers that round to a power of ten only through the last bit may go either way
                x = abs(Decimal(v)).scaleb(p); tie = abs(x - x.to_integral_value(rounding="ROUND_FLOOR") - Decimal("0.5"))
                if tie > Decimal("1e-9") + x * Decimal("1e-15"): bad("digits", "%r is printed, %d digits before the decimal point predicted" % (t, dp))
