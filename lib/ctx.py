"""Verdicts, evidence and replay files of one check run."""
import hashlib, json, os, re, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known_findings(prop):
    """-> list of (key, text) of 'finding:' lines.  'fixed:' lines are history and suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.nviol = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.assumptions = []
        self.known = known_findings(prop)
        self.known_hit = {}

    @property
    def thorough(self): return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def maxi(self, k, v):
        self.cov[k] = max(self.cov.get(k, v), v)

    def eval(self, key=None, n=1):
        """one execution; key identifies a distinct non-trivial one"""
        self.evaluations += n
        if key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, s, cap=5):
        if len(self.samples) < cap: self.samples.append(s)

    def violation(self, key, msg, replay=None):
        for k, text in self.known:
            if k == key:
                self.known_hit[k] = self.known_hit.get(k, 0) + 1
                return
        self.nviol += 1
        if len(self.viol) < 40: self.viol.append((key, msg, replay))

    def need(self, what, ok):
        """the workload has to have reached what the oracle is about, or the run decides nothing"""
        if not ok and not self.nviol:
            raise RuntimeError("inconclusive: " + what)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        if self.assumptions: ev["assumptions"] = self.assumptions
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        for k, text in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if not self.nviol:
            print("ok property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
            return 0
        seen = {}
        for key, msg, replay in self.viol:
            if seen.get(key, 0) >= 3: continue
            seen[key] = seen.get(key, 0) + 1
            h = hashlib.md5((key + msg).encode("utf8", "replace")).hexdigest()[:8]
            path = os.path.join(VERIF, "replay", "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "message": msg, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
            print("  [%s] %s" % (key, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
