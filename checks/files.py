"""C14: the file safety of both programs, observed on disk after injected crashes, failing operations, aliases, concurrency and cancellation."""
import hashlib, os, random, shutil, threading
import build, tools, weldrun, gen, profiles

def program(r, size):
    """a program with arcs for both tools"""
    o = dict(gen.DEFAULT_OPTS)
    parts = []
    n = 0
    while n < size:
        g = gen.Gen(r, o, tagged=False, style="plain", kinds=["arc", "scurve", "line"], interruptions=["comment", "fan", "arc", "blank"])
        g.program(3)
        parts.append(g.data()); n += len(parts[-1])
    return b"".join(parts)

MODES = ("new", "existing", "omitted", "same", "dot", "dirdot", "symlink-target", "symlink-source", "hardlink", "absolute", "symlink-dir")

class Scene:
    """a scratch directory with a source, run in one mode of naming source and target"""
    def __init__(self, top, mode, data, junk):
        self.d = top; self.mode = mode
        w = os.path.join(top, "w"); os.makedirs(os.path.join(w, "sub"))
        self.cwd = w
        src = os.path.join(w, "a.gcode"); tools.put(src, data)
        self.src = src; self.inplace = mode not in ("new", "existing")
        self.names = [src]; self.target = src
        self.extra = {"a.gcode", "sub"}
        A = {"new": ["a.gcode", "b.gcode"], "existing": ["a.gcode", "b.gcode"], "omitted": ["a.gcode"], "same": ["a.gcode", "a.gcode"], "dot": ["a.gcode", "./a.gcode"],
             "dirdot": ["sub/../a.gcode", "a.gcode"], "symlink-target": ["a.gcode", "l.gcode"], "symlink-source": ["l.gcode"], "hardlink": ["a.gcode", "h.gcode"],
             "absolute": ["a.gcode", src], "symlink-dir": ["a.gcode", "lsub/../a.gcode"]}
        self.args = A[mode]
        if not self.inplace: self.target = os.path.join(w, "b.gcode")
        if mode == "existing": tools.put(self.target, junk)
        if mode.startswith("symlink-t") or mode == "symlink-source":
            os.symlink("a.gcode", os.path.join(w, "l.gcode")); self.target = os.path.join(w, "l.gcode"); self.names.append(self.target); self.extra.add("l.gcode")
        if mode == "hardlink":
            self.target = os.path.join(w, "h.gcode"); os.link(src, self.target); self.names.append(self.target); self.extra.add("h.gcode")
        if mode == "symlink-dir":
            os.symlink("sub", os.path.join(w, "lsub")); self.extra.add("lsub")
        if not self.inplace: self.extra.add("b.gcode")

    def leftovers(self):
        return sorted(set(os.listdir(self.cwd)) - self.extra) + sorted(os.listdir(os.path.join(self.cwd, "sub")))

def short(b):
    return "missing" if b is None else "%d bytes" % len(b)

def c14(ctx):
    build.build("rel", ["ArcWelderConsole", "ArcStraightener"])
    drv = build.driver("rel", "weld_driver")
    so = tools.shim("fault")
    r = random.Random("C14|%s" % ctx.seed)
    root = weldrun.scratch("vf_c14_")
    lock = threading.Lock()
    n = [0]
    def fresh():
        with lock:
            n[0] += 1
            d = os.path.join(root, "d%d" % n[0])
        os.makedirs(d)
        return d
    try:
        progs = {"small": program(r, 1500), "medium": program(r, 30000)}
        if ctx.thorough: progs["large"] = program(r, 300000); progs["other"] = program(r, 12000)
        progs["noeol"] = progs["small"].rstrip(b"\n")
        exes = {"weld": build.exe("rel", "weld"), "straight": build.exe("rel", "straight")}
        conv = {}
        for tool, exe in exes.items():
            for pn, data in progs.items():
                s = Scene(fresh(), "new", data, b"")
                rc, out = tools.run(exe, s.args, s.cwd)
                conv[tool, pn] = tools.read(s.target)
                if rc or not conv[tool, pn] or tools.read(s.src) != data:
                    ctx.violation("plain", "%s of a %d byte file exits with %s: %s" % (tool, len(data), rc, out[-300:]))
                    return
                ctx.need("the conversion changes nothing", conv[tool, pn] != data)
        junk = b"; old target\n" * 40000

        def once(tool, pn, mode, kind, at, sticky, what):
            data, want = progs[pn], conv[tool, pn]
            d = fresh()
            try:
                s = Scene(d, mode, data, junk)
                log = os.path.join(d, "log")
                env = {"LD_PRELOAD": so, "FAULT_DIR": s.cwd, "FAULT_LOG": log, "FAULT_AT": str(at), "FAULT_KIND": kind, "FAULT_STICKY": "1" if sticky else "0"}
                rc, out = tools.run(exes[tool], s.args, s.cwd, env)
                ev = (tools.read(log) or b"").decode("latin-1").split("\n")[:-1]
                left = s.leftovers()
                killed = any(" killed" in e for e in ev)
                failed = [e.split(" ")[2] for e in ev if " failed " in e]
                v = []
                w = "%s %s, %s, %s%s at operation %d (%s)" % (tool, " ".join(s.args), pn, kind, " from then on" if sticky else "", at, what)
                if rc == "hang": v.append(("hang", w))
                elif not killed and rc < 0 or (not killed and isinstance(rc, int) and rc > 2): v.append(("crash", "%s: exit %s: %s" % (w, rc, out[-300:])))
                if not s.inplace:
                    if tools.read(s.src) != data: v.append(("source-changed", "%s: the source now has %s" % (w, short(tools.read(s.src)))))
                    if rc == 0 and tools.read(s.target) != want: v.append(("false-success", "%s: exit 0, but the target has %s instead of %d bytes" % (w, short(tools.read(s.target)), len(want))))
                else:
                    for nm in s.names:
                        c = tools.read(nm)
                        if c != data and c != want: v.append(("file-destroyed", "%s: %s now has %s, neither the original (%d) nor the conversion (%d)" % (w, os.path.basename(nm), short(c), len(data), len(want))))
                    if rc == 0 and tools.read(s.target) != want: v.append(("false-success", "%s: exit 0, but the file is not converted" % w))
                    if not killed and rc != 0 and tools.read(s.target) != data and rc != "hang":
                        v.append(("false-failure", "%s: exit %s although the file was replaced" % (w, rc)))
                if not killed and left and not ("rename" in failed and len(left) == 1) and not "unlink" in failed:
                    v.append(("leftover", "%s: leaves %s" % (w, left)))
                return rc, ev, v, killed, failed
            finally:
                shutil.rmtree(d, ignore_errors=True)

        # every naming of the files, observed without disturbance, gives the list of file operations
        plan = []
        shapes = {}
        for tool in exes:
            for pn in progs:
                for mode in MODES:
                    rc, ev, v, _, _ = once(tool, pn, mode, "none", 0, False, "undisturbed")
                    for k, m in v: ctx.violation(k, m, {"tool": tool, "program": pn, "mode": mode})
                    if rc != 0: ctx.violation("fails", "%s in mode %s exits with %s" % (tool, mode, rc))
                    ctx.eval((tool, pn, mode))
                    ops = [e.split(" ")[1] for e in ev]
                    shapes[tool, pn, mode] = ops
                    for i, op in enumerate(ops, 1):
                        kinds = ["kill", "killafter"]
                        if op == "read": kinds += ["errno:5"]
                        elif op == "openr": kinds += ["errno:13"]
                        elif op == "openw": kinds += ["errno:28", "errno:13"]
                        elif op == "write": kinds += ["errno:28", "errno:28s", "errno:5", "short"]
                        elif op == "close": kinds += ["errno:28", "errno:5"]
                        elif op == "rename": kinds += ["errno:13", "errno:18", "errno:16"]
                        elif op == "unlink": kinds += ["errno:13"]
                        for k in kinds:
                            # reading and writing in the middle of a big file is all alike: a sample
                            edge = op not in ("read", "write") or i <= 8 or i > len(ops) - 8
                            if edge or r.random() < ctx.scale(0.15, 0.6):
                                plan.append((tool, pn, mode, k.rstrip("s") if k.endswith("28s") else k, i, k.endswith("28s"), op))
        ctx.count("file_operations_observed", sum(len(x) for x in shapes.values()))
        want = ctx.scale(5200, 60000)
        if len(plan) > want:
            rare = [p for p in plan if p[6] in ("rename", "close", "openw", "unlink")]
            rest = [p for p in plan if p[6] not in ("rename", "close", "openw", "unlink")]
            r.shuffle(rest); plan = rare + rest[:max(0, want - len(rare))]
        for p, (rc, ev, v, killed, failed) in zip(plan, tools.pmap(lambda p: once(*p), plan)):
            ctx.eval((p[0], p[2], p[3], p[4], p[6]))
            ctx.count("killed" if killed else "operations_failed" if failed else "short_writes" if p[3] == "short" else "fault_not_reached")
            ctx.count("exit_0" if rc == 0 else "exit_other")
            for k, m in v: ctx.violation(k, m, {"tool": p[0], "program": p[1], "mode": p[2], "kind": p[3], "at": p[4], "sticky": p[5], "operation": p[6]})
        ctx.sample({"operations of an in-place conversion": shapes["weld", "small", "omitted"]})
        ctx.need("no faults were injected", ctx.cov.get("killed", 0) > 500 and ctx.cov.get("operations_failed", 0) > 300)
        targets(ctx, exes, progs, fresh)
        together(ctx, exes, progs, conv, fresh, r, drv)
        cancel(ctx, drv, fresh, r)
        ctx.rule = "One run = one conversion with one disturbed file operation, naming of source and target, or concurrent neighbour; distinct by tool, naming, kind and position of the disturbance."
        ctx.assumptions = ["a crash is modelled as the process ending at a system call boundary; what the kernel has accepted is on disk", "single file system, POSIX rename"]
    finally:
        shutil.rmtree(root, ignore_errors=True)

def targets(ctx, exes, progs, fresh):
    """targets and sources that can't be used"""
    for tool, exe in exes.items():
        for name, args in (("missing directory", ["a.gcode", "nodir/b.gcode"]), ("target is a directory", ["a.gcode", "sub"]), ("full device", ["a.gcode", "/dev/full"]),
                           ("source missing", ["nofile.gcode", "b.gcode"]), ("source is a directory", ["sub", "b.gcode"]), ("directory in place", ["sub"]), ("missing in place", ["nofile.gcode"]),
                           ("dangling link", ["dangling.gcode"]), ("dangling target", ["a.gcode", "loop/b.gcode"])):
            s = Scene(fresh(), "new", progs["medium"], b"")
            os.symlink("nowhere", os.path.join(s.cwd, "dangling.gcode")); os.symlink("loop", os.path.join(s.cwd, "loop"))
            s.extra |= {"dangling.gcode", "loop"}
            rc, out = tools.run(exe, args, s.cwd)
            ctx.eval((tool, name)); ctx.count("unusable_paths")
            w = "%s %s (%s)" % (tool, " ".join(args), name)
            if rc == 0: ctx.violation("false-success", w + ": exit 0", {"tool": tool, "args": args})
            elif rc == "hang" or rc < 0 or rc > 2: ctx.violation("crash", "%s: exit %s: %s" % (w, rc, out[-300:]), {"tool": tool, "args": args})
            if tools.read(s.src) != progs["medium"]: ctx.violation("source-changed", w)
            if s.leftovers(): ctx.violation("leftover", "%s leaves %s" % (w, s.leftovers()))
            if not os.path.isdir(os.path.join(s.cwd, "sub")): ctx.violation("file-destroyed", "%s replaced the directory" % w)

def together(ctx, exes, progs, conv, fresh, r, drv):
    """many conversions in one directory at once"""
    keys = sorted(progs)
    for rnd in range(ctx.scale(6, 40)):
        tool = ("weld", "straight")[rnd % 2]
        d = fresh()
        n = 24
        names = []
        for i in range(n):
            pn = keys[i % len(keys)]
            tools.put(os.path.join(d, "f%d.gcode" % i), progs[pn]); names.append(pn)
        res = tools.pmap(lambda i: tools.run(exes[tool], ["f%d.gcode" % i], d), range(n), 16)
        bad = [i for i in range(n) if res[i][0] != 0 or tools.read(os.path.join(d, "f%d.gcode" % i)) != conv[tool, names[i]]]
        ctx.eval(("together", tool, rnd), n); ctx.count("concurrent_conversions", n)
        if bad: ctx.violation("concurrent", "%s: %d of %d conversions in one directory went wrong, e.g. %s" % (tool, len(bad), n, res[bad[0]][1][-200:]))
        left = sorted(set(os.listdir(d)) - set("f%d.gcode" % i for i in range(n)))
        if left: ctx.violation("leftover", "%s in place, %d at once: leaves %s" % (tool, n, left[:3]))
        shutil.rmtree(d)
    # the same file at once: converted once or twice, but complete
    for rnd in range(ctx.scale(10, 60)):
        tool = ("weld", "straight")[rnd % 2]
        d = fresh(); p = os.path.join(d, "a.gcode"); q = os.path.join(d, "q.gcode")
        tools.put(p, conv[tool, "small"]); rc, _ = tools.run(exes[tool], ["a.gcode", "q.gcode"], d); twice = tools.read(q); os.unlink(q)
        tools.put(p, progs["small"])
        tools.pmap(lambda i: tools.run(exes[tool], ["a.gcode"], d), range(2), 2)
        c = tools.read(p)
        ctx.eval(("same-file", tool)); ctx.count("same_file_pairs")
        if c not in (conv[tool, "small"], twice): ctx.violation("concurrent", "%s twice at once on one file leaves %s" % (tool, short(c)))
        if os.listdir(d) != ["a.gcode"]: ctx.violation("leftover", "%s twice at once on one file leaves %s" % (tool, os.listdir(d)))
        shutil.rmtree(d)
    # threads of one process
    for rnd in range(ctx.scale(4, 30)):
        d = fresh(); jobs = []
        for i in range(24):
            pn = keys[i % len(keys)]; p = os.path.join(d, "t%d.gcode" % i); tools.put(p, progs[pn])
            jobs.append({"id": "t%d" % i, "src": p, "dst": p, "buf": 50})
        work = fresh()
        res = weldrun.run_driver(drv, jobs, work, threads=8)
        ctx.eval(("threads", rnd), 24); ctx.count("concurrent_threads", 24)
        for i in range(24):
            x = res["t%d" % i]
            if x.get("crash") or not x.get("success") or tools.read(jobs[i]["src"]) != conv["weld", keys[i % len(keys)]]:
                ctx.violation("concurrent", "in-place conversion in thread %d of 24: %s" % (i, {k: x.get(k) for k in ("crash", "success", "message")})); break
        left = sorted(set(os.listdir(d)) - set("t%d.gcode" % i for i in range(24)))
        if left: ctx.violation("leftover", "24 threads in place leave %s" % left[:3])
        shutil.rmtree(d); shutil.rmtree(work)

def cancel(ctx, drv, fresh, r):
    """cancelling an in-place conversion at each report keeps the original"""
    d = fresh(); jobs = []; data = {}
    for i in range(ctx.scale(120, 600)):
        size = r.choice([2000, 60000, 120000, 200000]); b = program(r, size)
        p = os.path.join(d, "k%d.gcode" % i); tools.put(p, b); data[p] = b
        al = r.choice([p, p, os.path.join(d, ".", "k%d.gcode" % i)])
        jobs.append({"id": "k%d" % i, "src": p, "dst": al, "notif": 0.0, "cancel": r.randint(0, 6)})
    work = fresh()
    res = weldrun.run_driver(drv, jobs, work)
    for j in jobs:
        x = res[j["id"]]; c = tools.read(j["src"])
        ctx.eval(("cancel", j["cancel"], len(x.get("ev", []))))
        if x.get("crash"): ctx.violation("crash", str(x)); continue
        stopped = len(x["ev"]) - 1 > j["cancel"]      # the answer to the last report has no effect
        ctx.count("cancelled_in_place" if x["cancelled"] else "not_cancelled")
        if x["success"] == x["cancelled"]: ctx.violation("cancel-result", "success %s, cancelled %s" % (x["success"], x["cancelled"]))
        if stopped != bool(x["cancelled"]): ctx.violation("cancel-result", "asked to stop at report %d of %d, cancelled: %s" % (j["cancel"], len(x["ev"]), x["cancelled"]))
        if x["cancelled"] and c != data[j["src"]]: ctx.violation("cancel-file", "cancelled in-place conversion leaves %s" % short(c), {"job": j})
        if not x["cancelled"] and (c is None or b"; Postprocessed by" not in c): ctx.violation("cancel-file", "conversion not cancelled, file is not converted")
    left = sorted(set(os.listdir(d)) - set(os.path.basename(j["src"]) for j in jobs))
    if left: ctx.violation("leftover", "cancelled conversions leave %s" % left[:4])
    ctx.need("no conversion was cancelled", ctx.cov.get("cancelled_in_place", 0) > 10)
