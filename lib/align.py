"""Aligns a welded file with its source: which output lines are untouched source lines and which
generated arcs stand for which run of source moves.  Pure text + end point evidence, no knowledge of the algorithm."""
import re, math
import gm

ARC = re.compile(r"^G([23]) X(-?[0-9.]+) Y(-?[0-9.]+)(?: Z(-?[0-9.]+))? I(-?[0-9.]+) J(-?[0-9.]+)(?: E(-?[0-9.]+))?(?: F(-?[0-9.]+))?(?:;(.*))?$", re.S)
MARK = "; Postprocessed by [ArcWelder]"

def expected_text(line):
    """What an untouched source line must look like in the output (None for a blank line)."""
    code, com = gm.split_comment(line.split("\0")[0])     # a line of text ends at a null character
    if com is not None:
        com = com.replace("\r", "")
    if com is None:
        return code if code.strip(" \t\r\f\v") else None
    return code + ";" + com

def split_lines(data):
    t = data.decode("latin-1")
    ls = t.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return ls

class Src:
    __slots__ = ("raw", "text", "cmd", "p", "is_move", "comment", "blank")

def prep(lines):
    out = []
    for l in lines:
        s = Src()
        s.raw = l
        s.text = expected_text(l)
        s.blank = s.text is None
        s.cmd, s.p = (None, {}) if s.blank else gm.read(l)
        s.is_move = s.cmd in ("G0", "G1")
        code, com = gm.split_comment(l.split("\0")[0])
        s.comment = s.text[len(code) + 1:] if com is not None else ""
        out.append(s)
    return out

def strip_header(src, out):
    """-> (first-line-kept?, header lines, rest, error)"""
    keep = None
    first = src[0] if src else None
    special = first is not None and (first.rstrip("\r") == ";FLAVOR:UltiGCode" or first.startswith("; generated by PrusaSlicer"))
    h = 1 if special else 0
    if first is None:
        return (special, [], out, None if not out else "output for empty source")
    if len(out) <= h or not out[h].startswith(MARK):
        return (special, [], out, "header block not at line %d" % (h + 1))
    if special and out[0] != first:
        return (special, [], out, "first line not preserved first")
    e = h
    while e < len(out) and out[e] != "":
        e += 1
    return (special, out[h:e], out[e + 1:], None)

class Item:
    __slots__ = ("kind", "si", "oj", "srcs", "arc")

def parse_arc(text):
    """Reading of a G2/G3 line in centre form (None for anything else)."""
    if not text.startswith(("G2 ", "G3 ")):
        return None
    cmd, p = gm.read(text)
    if cmd not in ("G2", "G3") or any(p.get(k) is None for k in "XYIJ"):
        return None
    code, com = gm.split_comment(text)
    return dict(cw=cmd == "G2", X=p["X"], Y=p["Y"], Z=p.get("Z"), I=p["I"], J=p["J"], E=p.get("E"), F=p.get("F"), comment=com or "", gcode=code)

TAG = re.compile(r"n\d+$")

def align_tagged(src, out, start=0):
    """As align(), for sources whose every move carries a unique comment n<k>: provenance is read off the comments."""
    where = {}
    for i in range(start, len(src)):
        c = src[i].comment
        if c and TAG.match(c): where[c] = i
    items = []
    i, n = start, len(src)
    for j, o in enumerate(out):
        if o.strip(" \t\r\f\v") == "":
            continue
        while i < n and src[i].blank: i += 1
        if i < n and o == src[i].text:
            it = Item(); it.kind = "pass"; it.si = i; it.oj = j; it.srcs = None; it.arc = None
            items.append(it); i += 1
            continue
        a = parse_arc(o)
        if a is None:
            return None, "output line %d %r is not the next source line %r" % (j + 1, o[:80], src[i].raw[:80] if i < n else "<end>")
        k = where.get(a["comment"].rsplit(" - ", 1)[-1], -1)
        if k < i:
            return None, "arc on output line %d %r does not name a pending source move (next is %r)" % (j + 1, o[:80], src[i].raw[:80] if i < n else "<end>")
        run = [q for q in range(i, k + 1) if not src[q].blank]
        it = Item(); it.kind = "arc"; it.si = run[0]; it.oj = j; it.srcs = run; it.arc = a
        items.append(it); i = k + 1
    while i < n and src[i].blank: i += 1
    if i < n:
        return None, "source line %d %r is missing from the output" % (i + 1, src[i].raw[:80])
    return items, None

def join_comments(cs):
    acc = ""
    for c in cs:
        if c and c != acc:
            acc = acc + " - " + c if acc else c
    return acc

def align(src, positions, out, start=0, budget=200000, tx=0.00051, te=0.000011):
    """src: prep()'d lines, positions[i]: (x, y, e, pushed, relative e mode) after source line i, out: output lines.
    -> (items, error)"""
    n, m = len(src), len(out)
    skip = list(range(n + 1))
    nxt = [n] * (n + 1)
    for i in range(n - 1, -1, -1):
        nxt[i] = nxt[i + 1] if src[i].blank else i
    parsed = [parse_arc(o) for o in out]
    best = [start, 0]
    steps = [0]
    # iterative DFS with explicit choice stack
    stack = []   # (i, j, items_len, iterator of choices)
    items = []

    def choices(i, j):
        """possible (new_i, new_j, Item) from source i / output j, best first."""
        res = []
        i = nxt[i]
        if j >= m:
            return res
        if i < n and out[j] == src[i].text:
            it = Item(); it.kind = "pass"; it.si = i; it.oj = j; it.srcs = None; it.arc = None
            res.append((i + 1, j + 1, it))
            if not parsed[j]:
                return res
        a = parsed[j]
        if a is not None:
            run = []
            k = i
            cand = []
            pu0 = positions[i - 1][3] if i > 0 else 0.0
            while k < n:
                s = src[k]
                if s.blank:
                    k += 1
                    continue
                if not s.is_move:
                    break
                run.append(k)
                x, y, e, pu, er = positions[k]
                d = max(abs(x - a["X"]), abs(y - a["Y"]))
                tagmiss = 0
                if a["comment"]:
                    tail = a["comment"].rsplit(" - ", 1)[-1]
                    tagmiss = 0 if tail == s.comment else 1
                elif s.comment:
                    tagmiss = 1
                if a["E"] is None: em = abs(pu - pu0)
                elif er: em = abs(pu - pu0 - a["E"])
                else: em = abs(e - a["E"])
                cand.append((d if d > tx else 0.0, em if em > te else 0.0, tagmiss, len(run), k))
                k += 1
            cand.sort()
            for d, em, tm, ln, k in cand[:40]:
                it = Item(); it.kind = "arc"; it.si = run[0]; it.oj = j; it.srcs = run[:ln]; it.arc = a
                res.append((k + 1, j + 1, it))
        return res

    i, j = start, 0
    # skip blank output lines lazily
    def norm_j(j):
        while j < m and out[j].strip(" \t\r\f\v") == "":
            j += 1
        return j
    j = norm_j(j)
    cur = choices(i, j)
    pos = 0
    while True:
        steps[0] += 1
        if steps[0] > budget:
            return None, "alignment budget exhausted near source line %d / output line %d" % (best[0] + 1, best[1] + 1)
        if nxt[i] >= n and j >= m:
            return items, None
        if (j, i) > (best[1], best[0]):
            best[0], best[1] = i, j
        if pos < len(cur):
            ni, nj, it = cur[pos]
            stack.append((i, j, cur, pos))
            items.append(it)
            i, j = ni, norm_j(nj)
            cur = choices(i, j)
            pos = 0
        else:
            if not stack:
                si, oj = nxt[best[0]], best[1]
                return None, "source line %d %r has no counterpart; output line %d is %r" % (
                    si + 1, src[si].raw[:60] if si < n else "<end of file>", oj + 1, out[oj][:60] if oj < m else "<end of file>")
            i, j, cur, pos = stack.pop()
            items.pop()
            pos += 1
