"""Judges one conversion: source bytes, output bytes, configuration and reported results -> violations per property.
Knows G-code semantics (gm.py) and the documented meaning of the options; knows nothing of the implementation."""
import math, re
import gm, align
FEATURE = {}
for _w, _p in (("perimeter", "perimeter"), ("infill", "infill"), ("infill(bridge)", "bridge"), ("skirt", "skirt")):
    FEATURE[_w] = _p; FEATURE["move to first %s point" % _w] = _p

V = lambda prop, key, msg: (prop, key, msg)

class ArcUse:
    __slots__ = ("j", "srcs", "arc", "g", "start", "src_start", "end", "poly", "moves", "f_out", "pre_modes", "kinds", "des", "lens", "e_out", "z0", "z1", "src_rel", "fs", "f_before", "sf_before", "zs", "anyrel", "src_e1", "out_e1", "erel")

def dec(text, letter):
    """number of decimals printed for a word"""
    k = text.find(" " + letter)
    if k < 0: return None
    t = text[k + 2:].split(" ")[0]
    return len(t.split(".")[1]) if "." in t else 0

class Analysis:
    def __init__(self, src_b, out_b, opts, res, tagged, starts, home):
        self.o = opts; self.res = res
        self.viol = []
        self.arcs = []
        self.src_size = len(src_b); self.out_size = len(out_b)
        self.srccount = None
        self.ok = False
        srcl = align.split_lines(src_b); outl = align.split_lines(out_b)
        self.src = align.prep(srcl)
        self.special, self.header, body, err = align.strip_header(srcl, outl)
        self.body = body
        self.nsrc = len(srcl)
        if err:
            self.viol.append(V("C04", "header", err)); return
        st = 1 if self.special else 0
        self.start = st
        src = self.src
        m = gm.Machine((0.0, 0.0, 0.0), (0.0, 0.0, 0.0), bool(opts["g90"]))
        pos = []
        for s in src:
            if s.cmd: m.step(s.cmd, s.p)
            pos.append((m.x, m.y, m.e, m.pushed, m.erel))
        items = None
        e1 = None
        if tagged:
            items, e1 = align.align_tagged(src, body, st)
        if items is None:
            items, e2 = align.align(src, pos, body, st, tx=0.51 * 10.0 ** -opts["xp"] + 1e-9, te=0.51 * 10.0 ** -opts["ep"] + 1e-7)
            if items is None:
                self.viol.append(V("*", "unaligned", e1 or e2)); return
            if tagged:
                self.viol.append(V("C04", "tags", e1))
        self.items = items
        self.ok = True
        self.replay(starts, home)

    def replay(self, start, home):
        o = self.o
        S = gm.Machine(start, home, bool(o["g90"])); O = S.copy()
        S.f = O.f = 0.0
        src, body = self.src, self.body
        viol = self.viol
        # tolerances: printed precision
        xp, ep = self.precisions()
        tx = 0.5 * 10.0 ** -xp * 1.0000001 + 1e-9
        te = 0.5 * 10.0 ** -ep * 1.0000001 + 1e-8
        self.xp, self.ep = xp, ep
        self.tx = tx
        if self.special and src[0].cmd:
            S.step(src[0].cmd, src[0].p); O.step(src[0].cmd, src[0].p)
        nrel = nsync = 0
        bad = 0
        self.max_pos = self.max_e = 0.0
        self.synced = 0
        for it in self.items:
            if it.kind == "pass":
                s = src[it.si]
                if s.cmd:
                    if s.cmd == "G92" or s.cmd in ("M82", "M83", "G90", "G91"): nsync += 1
                    kS = S.step(s.cmd, s.p); O.step(s.cmd, s.p)
                    if kS != "other" and S.f != O.f and not bad:
                        # feedrate in force for a retained move
                        if abs(S.f - O.f) > 0.5000001 and not (S.f < 1.0):
                            viol.append(V("C05", "retained-move-feedrate", "line %d %r runs at F%g instead of F%g" % (it.si + 1, s.raw[:60], O.f, S.f)))
                            bad = 1
            else:
                u = ArcUse()
                a = it.arc
                u.j = it.oj; u.srcs = it.srcs; u.arc = a
                u.start = (O.x, O.y); u.z0 = O.z; u.f_before = O.f; u.sf_before = S.f
                u.src_start = (S.x, S.y)
                if not (S.kx and S.ky):
                    viol.append(V("C02", "unknown-start", "output line %r starts at a position that only the machine knows (source line %d)" % (body[it.oj][:90], it.srcs[0] + 1)))
                u.pre_modes = S.modes(); u.erel = S.erel; u.anyrel = S.rel
                u.poly = [(S.x, S.y)]; u.des = []; u.lens = []; u.fs = []; u.zs = [S.z]; u.moves = []; 
                e_in = 0.0
                for k in it.srcs:
                    s = src[k]
                    dx, dy, dz, de = (0, 0, 0, 0)
                    if s.cmd in ("G0", "G1"):
                        dx, dy, dz, de = S.move(s.p)
                        u.poly.append((S.x, S.y)); u.des.append(de); u.lens.append(math.hypot(dx, dy)); u.fs.append(S.f); u.zs.append(S.z); u.moves.append(k)
                    elif s.cmd:
                        S.step(s.cmd, s.p)
                # output
                p = {"X": a["X"], "Y": a["Y"]}
                if a["Z"] is not None: p["Z"] = a["Z"]
                if a["E"] is not None: p["E"] = a["E"]
                if a["F"] is not None: p["F"] = a["F"]
                O.move(p)
                if S.erel: nrel += 1
                u.end = (O.x, O.y); u.z1 = O.z; u.f_out = O.f
                u.src_e1 = S.pushed; u.out_e1 = O.pushed
                u.e_out = a["E"]
                u.g = gm.Arc(u.start, u.end, a["I"], a["J"], a["cw"])
                self.arcs.append(u)
            # end state
            self.synced += 1
            dp = max(abs(S.x - O.x), abs(S.y - O.y))
            dz = abs(S.z - O.z)
            dE = abs(S.e - O.e)
            dP = abs(S.pushed - O.pushed)
            if dp > self.max_pos: self.max_pos = dp
            if dE > self.max_e: self.max_e = dE
            where = "after source line %d %r / output line %r" % ((it.srcs[-1] if it.srcs else it.si) + 1, src[it.srcs[-1] if it.srcs else it.si].raw[:60], body[it.oj][:90])
            if bad < 2:
                if dp > tx:
                    viol.append(V("C02", "xy", "position %s: source (%.6f, %.6f), output (%.6f, %.6f)" % (where, S.x, S.y, O.x, O.y))); bad = 2
                elif dz > (tx * 2 if o["z3d"] else 1e-9):
                    viol.append(V("C02", "z", "Z %s: source %.6f, output %.6f" % (where, S.z, O.z))); bad = 2
                elif S.modes() != O.modes():
                    viol.append(V("C02", "modes", "modes %s: source %r, output %r" % (where, S.modes(), O.modes()))); bad = 2
                if dE > te * (1 + nrel + nsync) or dP > te * (1 + nrel + nsync):
                    viol.append(V("C03", "e-total", "filament %s: source E%.6f (fed %.6f), output E%.6f (fed %.6f)" % (where, S.e, S.pushed, O.e, O.pushed))); bad = 2
        self.S, self.O = S, O

    def precisions(self):
        o = self.o
        if not o["dyn"]:
            return o["xp"], o["ep"]
        return o["xp"], o["ep"]   # dynamic precision only ever increases it

    # ---- per property judgements --------------------------------------------
    def path(self):
        """C01"""
        o = self.o
        tol = o["res"] / 2 + 2.2 * 10.0 ** -self.xp + 1e-6
        out = []
        worst = 0.0
        checked = 0
        for u in self.arcs:
            g, P = u.g, u.poly
            s_prev = 0.0
            where = "output line %r (from %.4f,%.4f) for source lines %d-%d" % (self.body[u.j][:90], u.start[0], u.start[1], u.srcs[0] + 1, u.srcs[-1] + 1)
            if g.r == 0:
                out.append(V("C01", "degenerate", "zero radius: " + where)); continue
            fail = None
            # source -> arc, in order
            for k in range(1, len(P)):
                ax, ay = P[k - 1]; bx, by = P[k]
                pts = [(bx, by)] if k == len(P) - 1 else [(bx, by)]
                # the closest approach of the chord to the centre, and its middle
                L2 = (bx - ax) ** 2 + (by - ay) ** 2
                extra = [((ax + bx) / 2, (ay + by) / 2)]
                if L2 > 0:
                    t = ((g.cx - ax) * (bx - ax) + (g.cy - ay) * (by - ay)) / L2
                    if 0 < t < 1: extra.append((ax + t * (bx - ax), ay + t * (by - ay)))
                for x, y in extra + pts:
                    d, s = g.project(x, y)
                    checked += 1
                    if d > worst: worst = d
                    if d > tol:
                        fail = "source point (%.5f, %.5f) is %.5f from the arc, limit %.5f" % (x, y, d, tol); break
                if fail: break
                if k < len(P) - 1:
                    d, s = g.project(bx, by)
                    back = (s_prev - s) * g.r
                    if back > tol + 2 * o["res"]:
                        fail = "source point (%.5f, %.5f) is visited out of order (arc runs %.5f back)" % (bx, by, back); break
                    s_prev = max(s_prev, s)
            # arc -> source
            if not fail:
                n = min(64, 3 * len(P) + 4)
                lo = 0
                for q in range(1, n):
                    x, y = g.at(q / n)
                    best = 1e300
                    # nearest segment; walk forward from the last match, widen if needed
                    for k in range(lo, min(lo + 8, len(P) - 1)):
                        d, _ = gm.seg_dist(x, y, P[k][0], P[k][1], P[k + 1][0], P[k + 1][1])
                        if d < best: best, bk = d, k
                    if best > tol:
                        for k in range(len(P) - 1):
                            d, _ = gm.seg_dist(x, y, P[k][0], P[k][1], P[k + 1][0], P[k + 1][1])
                            if d < best: best, bk = d, k
                    lo = max(0, bk - 1)
                    checked += 1
                    if best > worst: worst = best
                    if best > tol:
                        fail = "arc point (%.5f, %.5f) is %.5f from the source path, limit %.5f" % (x, y, best, tol); break
            if fail:
                out.append(V("C01", "deviation", fail + "; " + where))
        self.n_points = checked; self.worst_dev = worst
        return out

    def extrusion(self):
        """C03 per arc"""
        out = []
        te = 0.5 * 10.0 ** -self.ep * 1.000001 + 1e-8
        prev_s = prev_o = None
        for u in self.arcs:
            a = u.arc
            where = "output line %r for source lines %d-%d" % (self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1)
            tot = sum(u.des)
            if u.erel:
                fed = a["E"] or 0.0
                if abs(fed - tot) > te:
                    out.append(V("C03", "arc-e", "arc feeds %.6f, replaced moves feed %.6f: %s" % (fed, tot, where)))
            signs = set((0 if abs(d) < 1e-9 else (1 if d > 0 else -1)) for d in u.des)
            if len(signs) > 1:
                out.append(V("C03", "mixed-kinds", "arc replaces moves of different kinds %s: %s" % (sorted(signs), where)))
            elif signs == {0} and a["E"] is not None and abs(tot) < 1e-9 and u.erel and abs(a["E"]) > 1e-9:
                out.append(V("C03", "travel-extrudes", where))
        return out

    def feed(self):
        """C05 per arc"""
        out = []
        for u in self.arcs:
            where = "output line %r for source lines %d-%d" % (self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1)
            want = u.fs[-1] if u.fs else 0
            if want < 1: continue
            if any(abs(f - u.f_out) > 0.5000001 for f in u.fs):
                out.append(V("C05", "arc-feedrate", "arc runs at F%g, replaced moves at %s: %s" % (u.f_out, sorted(set(u.fs))[:4], where)))
        return out

    def legality(self):
        """C06"""
        self.n_featured = 0
        o = self.o
        out = []
        for u in self.arcs:
            where = "output line %r for source lines %d-%d" % (self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1)
            bad = [k for k in u.srcs if self.src[k].cmd not in ("G0", "G1")]
            if bad:
                out.append(V("C06", "non-move-merged", "line %d %r swallowed by %s" % (bad[0] + 1, self.src[bad[0]].raw[:60], where))); continue
            if len(u.moves) < 2:
                out.append(V("C06", "single-move", "%d move(s) replaced: %s" % (len(u.moves), where)))
            if u.anyrel:
                out.append(V("C06", "relative", "relative-mode moves replaced: " + where))
            if not o["z3d"] and max(u.zs) - min(u.zs) > 1e-9:
                out.append(V("C06", "z-change", "moves with Z %s replaced by a flat arc: %s" % (sorted(set(u.zs))[:4], where)))
            if len(set(u.fs)) > 1:
                out.append(V("C06", "feedrate-change", "moves at %s merged: %s" % (sorted(set(u.fs))[:4], where)))
            if not o["trav"] and all(abs(d) < 1e-12 for d in u.des):
                out.append(V("C06", "travel", "travel moves welded although travel arcs are off: " + where))
            said = set(FEATURE[c] for c in (u.arc["comment"] or "").split(" - ") if c in FEATURE)
            if len(said) > 1:
                out.append(V("C06", "features", "moves of different features %s merged: %s" % (sorted(said), where)))
            if said: self.n_featured += 1
            if any(l <= 1e-9 for l in u.lens):
                out.append(V("C06", "no-motion", "a move without XY motion was merged: " + where))
        return out

    def geometry(self):
        """C07"""
        o = self.o
        out = []
        p10 = 10.0 ** -self.xp
        self.radii = 0
        for u in self.arcs:
            g = u.g
            where = "output line %r (from %.4f,%.4f) for source lines %d-%d" % (self.body[u.j][:90], u.start[0], u.start[1], u.srcs[0] + 1, u.srcs[-1] + 1)
            a = u.arc
            if a["I"] == 0 and a["J"] == 0:
                out.append(V("C07", "no-centre", where)); continue
            rmax = min(o["rad"], 9999.0)
            if g.r > rmax + 1.5 * p10 + 1e-6:
                out.append(V("C07", "radius", "radius %.5f exceeds %.5f: %s" % (g.r, rmax, where)))
            if abs(g.r - g.re) > 3 * p10 + 2e-6:
                out.append(V("C07", "end-radius", "start radius %.6f, end radius %.6f: %s" % (g.r, g.re, where)))
            L = sum(u.lens)
            la = g.len
            if o["z3d"]:
                dz = u.zs[-1] - u.zs[0]
                la = math.hypot(la, dz)
                L = sum(math.hypot(l, b - a_) for l, a_, b in zip(u.lens, u.zs, u.zs[1:]))
            slack = 10 * p10 + 1e-6
            lim = o["tol"] * max(L, la) + slack
            if abs(L - la) > lim:
                out.append(V("C07", "length", "arc length %.5f, path length %.5f, tolerance %.4g: %s" % (la, L, o["tol"], where)))
        return out

    def height(self):
        """C34: along an arc the tool rises where the moves rise"""
        o = self.o
        out = []
        self.n_heights = self.n_rising = 0
        tol = o["res"] / 2 + 2.2 * 10.0 ** -self.xp + 1e-6
        for u in self.arcs:
            if len(u.zs) < 3: continue
            a, b = u.zs[0], u.zs[-1]
            if max(u.zs) - min(u.zs) > 1e-9: self.n_rising += 1
            L = [math.hypot(l, q - p) for l, p, q in zip(u.lens, u.zs, u.zs[1:])]
            T = sum(L); run = 0.0
            if T <= 0 or u.g.sweep <= 0: continue
            for k in range(1, len(u.zs) - 1):
                run += L[k - 1]
                self.n_heights += 1
                # where the firmware is when it passes this point: by length or by angle
                at = [run / T, u.g.project(*u.poly[k])[1] / u.g.sweep]
                d = min(abs(a + (b - a) * t - u.zs[k]) for t in at)
                self.worst_z = max(getattr(self, "worst_z", 0), d / tol)
                if d > tol:
                    out.append(V("C34", "height", "end point %d of the moves is at Z%.4f, the arc %.4f from it there (limit %.4f): output line %r for source lines %d-%d, Z %.4f to %.4f" % (k, u.zs[k], d, tol, self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1, a, b))); break
            if (u.arc["Z"] is not None) and abs(b - a) <= 1e-9 and not o["z3d"]:
                out.append(V("C34", "z-word", "a flat arc has a Z word: %r" % self.body[u.j][:90]))
        return out

    # ---- further judgements -------------------------------------------------
    def comments(self):
        """C04: comments of merged moves survive, in order, and nothing else appears"""
        out = []
        self.ncomments = 0
        for u in self.arcs:
            got = u.arc["comment"]
            where = "output line %r for source lines %d-%d" % (self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1)
            pos = 0; last = None; left = got
            for k in u.srcs:
                c = self.src[k].comment
                if not c: continue
                self.ncomments += 1
                at = got.find(c, pos)
                if at < 0:
                    if last is not None and c in got[:pos]: continue   # repeated comment given once
                    out.append(V("C04", "comment-lost", "comment %r of line %d is not in %s" % (c[:60], k + 1, where))); break
                pos = at; last = c
            parts = set(c for k in u.srcs for c in [self.src[k].comment] if c)
            if got and not parts:
                out.append(V("C04", "comment-invented", where))
            elif got:
                rest = got
                for c in sorted(parts, key=len, reverse=True): rest = rest.replace(c, "")
                if rest.replace(" - ", "").strip(" -"):
                    out.append(V("C04", "comment-invented", "%r: %s" % (rest, where)))
        return out

    def header_block(self):
        """C04: the block the program adds is comments only, and complete"""
        out = []
        h = self.header
        o = self.o
        if self.nsrc and not h: return [V("C04", "header", "no header block")]
        for l in h:
            if not l.startswith(";"): out.append(V("C04", "header-executable", "header line %r" % l[:80]))
        txt = "\n".join(h)
        if self.nsrc:
            # two decimals of millimetres and one of percents are shown: rounded, or more exact
            want = {"resolution": (o["res"], "mm"), "path_tolerance": (o["tol"] * 100, "%"), "max_radius": (min(o["rad"], 9999.0), "mm"),
                    "default_xyz_precision": (o["xp"], ""), "default_e_precision": (o["ep"], "")}
            flags = {"g90_influences_extruder": o["g90"], "allow_3d_arcs": o["z3d"], "allow_travel_arcs": o["trav"], "allow_dynamic_precision": o["dyn"], "firmware_compensation": o["mm"] > 0 and o["mas"] > 0}
            if o["var"]: want["extrusion_rate_variance"] = (o["var"] * 100, "%")
            if o["mm"] > 0 and o["mas"] > 0: want["mm_per_arc_segment"] = (o["mm"], "mm"); want["min_arc_segments"] = (o["mas"], "")
            have = {}
            for l in h:
                if "=" in l and l.startswith("; "): k, v = l[2:].split("=", 1); have[k] = v
            for k, (v, unit) in want.items():
                g = have.get(k)
                try: ok = g is not None and g.endswith(unit) and abs(float(g[:len(g) - len(unit)] if unit else g) - v) <= {"mm": 0.005, "%": 0.05, "": 0}[unit] + 1e-6
                except ValueError: ok = False
                if not ok: out.append(V("C04", "header-setting", "%s is %r, configured %.10g%s" % (k, g, v, unit)))
            for k, v in flags.items():
                if bool(v) != (have.get(k) == "True"): out.append(V("C04", "header-flag", "%s is %r, configured %r" % (k, have.get(k), bool(v))))
        return out

    def gcode_length(self):
        """C08"""
        out = []
        m = self.o["mgl"]
        self.longest = 0
        for u in self.arcs:
            n = len(u.arc["gcode"])
            self.longest = max(self.longest, n)
            if m > 0 and n > m:
                out.append(V("C08", "too-long", "%d characters, limit %d: %r" % (n, m, u.arc["gcode"])))
        return out

    def firmware(self):
        """C09"""
        o = self.o
        out = []
        self.fw_checked = 0
        if o["mm"] > 0 and o["mas"] > 0:
            for u in self.arcs:
                self.fw_checked += 1
                L = sum(u.lens)
                if o["z3d"]: L = sum(math.hypot(l, b - a_) for l, a_, b in zip(u.lens, u.zs, u.zs[1:]))
                c = TAU * u.g.r
                # radius as printed: allow one unit of the output precision
                slack = TAU * 10.0 ** -self.xp + 1e-6
                n = max((c + slack) / o["mm"], (c + slack) / max(L - 10 * 10.0 ** -self.xp, 1e-9))
                if n < o["mas"]:
                    out.append(V("C09", "too-few-segments", "radius %.4f: a full circle would be drawn with %.2f segments of %gmm, minimum %d; path length %.4f: output line %r for source lines %d-%d" % (u.g.r, c / o["mm"], o["mm"], o["mas"], L, self.body[u.j][:90], u.srcs[0] + 1, u.srcs[-1] + 1)))
        return out

    def rate(self):
        """C10"""
        o = self.o
        out = []
        self.rate_pairs = 0; self.max_rate_change = 0.0
        if o["var"] > 0:
            for u in self.arcs:
                lens = u.lens
                if o["z3d"]: lens = [math.hypot(l, b - a_) for l, a_, b in zip(u.lens, u.zs, u.zs[1:])]
                for k in range(1, len(lens)):
                    if u.des[k] > 1e-9 and u.des[k - 1] > 1e-9 and lens[k] > 0 and lens[k - 1] > 0:
                        r0, r1 = u.des[k - 1] / lens[k - 1], u.des[k] / lens[k]
                        self.rate_pairs += 1
                        ch = abs(r1 - r0) / r0
                        if ch > self.max_rate_change: self.max_rate_change = ch
                        if ch > o["var"] + 1e-5 + 1e-9 / r0:
                            out.append(V("C10", "rate-change", "extrusion per mm changes by %.4f%% between source lines %d and %d, limit %.4f%%: output line %r" % (ch * 100, u.moves[k - 1] + 1, u.moves[k] + 1, o["var"] * 100, self.body[u.j][:90])))
                            break
        return out

    NUMW = re.compile(r" ([A-Z])(-?)(\d+)(?:\.(\d+))?(?= |$)")
    def numbers(self):
        """C11"""
        o = self.o
        out = []
        self.nnum = 0
        # decimals the source used so far, per class, up to each line
        def decs(i, letters):
            return self.cumdec(letters)[i]
        for u in self.arcs:
            code = u.arc["gcode"]
            t = code[2:]
            words = self.NUMW.findall(t)
            if "".join(" %s%s%s%s" % (a, b, c, "." + d if d else "") for a, b, c, d in words) != t:
                out.append(V("C11", "malformed", "%r" % code)); continue
            letters = [w[0] for w in words]
            if len(set(letters)) != len(letters):
                out.append(V("C11", "repeated-word", "%r" % code)); continue
            for a, sgn, ip, fp in words:
                self.nnum += 1
                if len(ip) > 1 and ip[0] == "0": out.append(V("C11", "leading-zero", code)); break
                if a == "F":
                    if fp: out.append(V("C11", "f-decimals", code)); break
                    continue
                p = len(fp)
                if a in "XYZIJ": want = o["xp"]; cls = "XYZ"
                else: want = o["ep"]; cls = "E"
                if not fp and int(ip) == 0: continue      # exactly zero
                if not o["dyn"]:
                    if p != want: out.append(V("C11", "precision", "%s has %d decimals, configured %d: %r" % (a, p, want, code))); break
                else:
                    lo = max(want, min(6, decs(u.srcs[-1], cls)))
                    # the move that ended the arc has been read already
                    k = min(u.srcs[-1] + 1, len(self.src) - 1)
                    while k < len(self.src) - 1 and self.src[k].blank: k += 1
                    hi = max(want, decs(k, cls))
                    if not lo <= p <= hi: out.append(V("C11", "dynamic-precision", "%s has %d decimals, expected %d to %d: %r (source lines %d-%d)" % (a, p, lo, hi, code, u.srcs[0] + 1, u.srcs[-1] + 1))); break
        return out

    def cumdec(self, letters):
        if not hasattr(self, "_cd"): self._cd = {}
        if letters not in self._cd:
            acc = []; m = 0
            for i, s in enumerate(self.src):
                if s.is_move and not (i == 0 and self.special):
                    code = gm.split_comment(s.raw)[0].upper()
                    for a, n in re.findall(r"([A-Z])[ ]*[+-]?[ ]*([0-9]*\.?[0-9]*)", code)[1:]:
                        if a in letters and "." in n: m = max(m, len(n.split(".")[1]))
                acc.append(m)
            self._cd[letters] = acc
        return self._cd[letters]

    def recount_source(self):
        """moves and lengths per kind of the source, counted from the text alone"""
        o = self.o
        m = gm.Machine((0.0, 0.0, 0.0), (0.0, 0.0, 0.0), bool(o["g90"]))
        acc = {"seg": [0, 0.0], "ret": [0, 0.0], "trv": [0, 0.0]}
        self.srcmoves = {}
        for i, s in enumerate(self.src):
            if not s.cmd or (i == 0 and self.special): continue
            x0, y0, z0, p0 = m.x, m.y, m.z, m.pushed
            m.step(s.cmd, s.p)
            if s.cmd not in ("G0", "G1", "G2", "G3") or (abs(m.x - x0) < 5e-6 and abs(m.y - y0) < 5e-6): continue
            if s.cmd in ("G2", "G3"):
                L = math.hypot(gm.Arc((x0, y0), (m.x, m.y), s.p.get("I") or 0.0, s.p.get("J") or 0.0, s.cmd == "G2").len, m.z - z0)
            else:
                L = math.hypot(m.x - x0, m.y - y0)
                if o["z3d"]: L = math.hypot(L, m.z - z0)
            de = m.pushed - p0
            k = "seg" if de > 1e-9 else "ret" if de < -1e-9 else "trv"
            if k == "trv" and not o["trav"]: continue
            acc[k][0] += 1; acc[k][1] += L
            self.srcmoves[i] = (k, L)
        self.srccount = acc

    def statistics(self):
        """C12: the reported numbers recounted from the two files"""
        out = []
        r = self.res
        def eq(what, got, want, tol=0):
            if abs(got - want) > tol: out.append(V("C12", what, "%s: reported %r, recounted %r" % (what, got, want)))
        n = self.nsrc
        eq("lines", r["lines"], n)
        code = sum(1 for i, s in enumerate(self.src) if not (i == 0 and self.special) and gm.split_comment(s.raw)[0].split("\0")[0].strip(" \t\r\v\f"))
        code2 = sum(1 for i, s in enumerate(self.src) if not (i == 0 and self.special) and gm.split_comment(s.raw)[0].split("\0")[0])
        if not code <= r["gcodes"] <= code2: eq("gcodes", r["gcodes"], code)
        eq("arcs", r["arcs"], len(self.arcs))
        eq("points", r["pts"], sum(len(u.moves) for u in self.arcs))
        eq("source-size", r["ssz"], self.src_size)
        eq("target-size", r["tsz"], self.out_size)
        if self.src_size:
            eq("percent", r["pct"], 100.0, 1e-9)
            eq("ratio", r["ratio"], self.src_size / self.out_size, 1e-5 * max(1, self.src_size / self.out_size))
            eq("compression", r["cpct"], (1 - self.out_size / self.src_size) * 100, 1e-3 * max(1, self.out_size / self.src_size))
        # moves per kind: what the source has minus what the arcs replaced plus the arcs
        for key, sg in (("seg", 1), ("ret", -1), ("trv", 0)):
            st = r[key]
            arcs = [u for u in self.arcs if (0 if abs(sum(u.des)) < 1e-9 else (1 if sum(u.des) > 0 else -1)) == sg]
            repl = sum(len(u.moves) for u in arcs)
            eq(key + "-count", st["cs"] - st["ct"], repl - len(arcs))
            dl = sum(sum(u.lens) for u in arcs) - sum(u.g.len for u in arcs)
            if not self.o["z3d"]:
                eq(key + "-length", st["ls"] - st["lt"], dl, 1e-4 + 1e-9 * st["ls"] + sum(12 * 10.0 ** -self.xp + 0.2 * 10 ** -self.xp * u.g.sweep for u in arcs))
            if self.srccount is not None and key in self.srccount:
                c, l = self.srccount[key]
                eq(key + "-source-count", st["cs"], c)
                eq(key + "-source-length", st["ls"], l, 1e-6 + 1e-9 * l)
        return out

    def progress(self):
        """C13: the sequence of progress reports of a completed conversion"""
        ev = self.res["ev"]
        if len(ev) < 2: return [V("C13", "no-reports", "%d progress reports" % len(ev))]
        out = self.progress_order(ev, self.src_size)
        if ev[-1][0] != 100: out.append(V("C13", "last", "last report says %r%%" % (ev[-1][0],)))
        if ev[-1][2] != 0: out.append(V("C13", "last", "last report says %r s are left" % (ev[-1][2],)))
        return out

    def progress_order(self, ev, size):
        out = []
        names = ("percent", "seconds elapsed", None, "source position", None, "target size", "lines", "gcodes", "arcs", "points")
        for i, n in enumerate(names):
            if n is None: continue
            for a, b in zip(ev, ev[1:]):
                if not isinstance(a[i], (int, float)) or not isinstance(b[i], (int, float)): continue
                if b[i] < a[i]: out.append(V("C13", "decreases", "%s went from %r to %r" % (n, a[i], b[i]))); break
        for e in ev:
            if not (isinstance(e[0], (int, float)) and 0 <= e[0] <= 100): out.append(V("C13", "percent", "percent complete %r" % (e[0],))); break
            if not all(isinstance(x, (int, float)) and 0 <= x < 1e7 for x in e[1:3]): out.append(V("C13", "seconds", "seconds elapsed %r, remaining %r" % (e[1], e[2]))); break
            if not all(isinstance(x, (int, float)) for x in e[10:12]): out.append(V("C13", "compression", "compression ratio %r, size reduction %r%%, position %r, target size %r" % (e[10], e[11], e[3], e[5]))); break
            if len(e) > 10 and e[3] > 0 and e[5] > 0 and not (abs(e[10] / (e[3] / e[5]) - 1) < 1e-5 and abs(e[11] - (1 - e[5] / e[3]) * 100) < 1e-3 * max(1, e[5] / e[3])): out.append(V("C13", "compression", "compression ratio %r, size reduction %r%% at position %d with a target of %d bytes" % (e[10], e[11], e[3], e[5]))); break
            if e[4] != size: out.append(V("C13", "size", "source size %r, file has %d" % (e[4], size))); break
            if not 0 <= e[3] <= size or abs(e[0] - (100.0 * e[3] / size if size else 100.0)) > 1e-6: out.append(V("C13", "percent", "percent complete %r at position %r of %d" % (e[0], e[3], size))); break
        if ev[0][6] != 0: out.append(V("C13", "first", "first report after %d lines" % ev[0][6]))
        return out

TAU = 2 * math.pi
