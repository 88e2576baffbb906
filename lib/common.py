"""Shared driver code: run context, evidence, known findings, verdict."""
import json, os, sys, time, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis cannot be carried out (anchor vanished, parse error...)."""


class Finding:
    """One violation: rule + construct identify it, location only informs."""

    def __init__(self, rule, where, construct, msg, line=None):
        self.rule, self.where, self.construct, self.msg, self.line = rule, where, construct, msg, line

    @property
    def key(self):
        return "%s|%s|%s" % (self.rule, self.where, self.construct)

    def text(self):
        loc = self.where if self.line is None else "%s:%s" % (self.where, self.line)
        return "[%s] %s: %s: %s" % (self.rule, loc, self.construct, self.msg)


class Run:
    def __init__(self, prop, level="other", title=""):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.explanation = ""
        self.assumptions = []
        self.samples = []
        self.undecided = []

    def report(self, rule, where, construct, msg, line=None):
        f = Finding(rule, where, construct, msg, line)
        self.findings.setdefault(f.key, f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, name, minimum):
        """Anchors confirmed by reading: less than half as many instances means the rule lost its subject (rewriting changes counts)."""
        got = self.counts.get(name, 0)
        if got < (minimum + 1) // 2:
            raise Broken("only %d %s found, %d confirmed by reading" % (got, name, minimum))

    def finish(self):
        known = load_known(self.prop)
        viol, listed = [], []
        for k, f in sorted(self.findings.items()):
            (listed if k in known else viol).append(f)
        cov = dict(explanation=self.explanation, samples=self.samples, **self.counts)
        cov["undecided_instances"] = len(self.undecided)
        if self.undecided:
            cov["undecided_examples"] = self.undecided[:15]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 3), violations=len(viol),
                  known_findings=[f.key for f in listed])
        d = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, self.prop + ".json")
        with open(out, "w") as w:
            json.dump(ev, w, indent=1, default=str)
        for f in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f.text()))
        if viol:
            rep = os.path.join(d, self.prop + ".violations.txt")
            with open(rep, "w") as w:
                for f in viol:
                    w.write(f.text() + "\n  key: " + f.key + "\n")
            for f in viol:
                print("  " + f.text())
                print("    key: " + f.key)
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        print("OK property=%s %s" % (self.prop, " ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        return 0


def load_known(prop):
    out = set()
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.rstrip("\n")
            if ln.startswith("finding: property=%s " % prop):
                out.add(ln.split("key=", 1)[1].strip())
    return out
