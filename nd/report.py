"""Outcome of one check: obligations, violations, known findings, evidence, exit code."""
import json, os, sys, time
from . import extract

ROOT = extract.ROOT

def known_findings():
    """[(property, key, text)] of the recorded findings that are not repaired."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: "):
                prop, key, text = l[7:].split(" ", 2)
                out.append((prop.split("=", 1)[1], key.split("=", 1)[1], text))
    return out

CURRENT = None

class Report:
    def __init__(self, prop, level="other", technique="", explanation="", assumptions=()):
        global CURRENT
        CURRENT = self
        self.prop, self.level, self.technique, self.explanation = prop, level, technique, explanation
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rules = {}         # rule -> [obligations, discharged, undecided]
        self.counts = {}
        self.samples = []
        self.viol = {}          # key -> text
        self.und = []
        self.notes = []

    def rule(self, name):
        return self.rules.setdefault(name, [0, 0, 0])

    def ok(self, rule, sample=None):
        r = self.rule(rule); r[0] += 1; r[1] += 1
        if sample is not None and sum(1 for s in self.samples if s.startswith(rule)) < 3:
            self.samples.append(rule + ": " + sample)

    def bad(self, rule, key, text):
        """A violated obligation. `key` identifies it without line numbers."""
        r = self.rule(rule); r[0] += 1
        self.viol.setdefault(rule + "/" + key, text)

    def undecided(self, rule, what):
        r = self.rule(rule); r[0] += 1; r[2] += 1
        self.und.append(rule + ": " + what)

    def check(self, rule, cond, key, text, sample=None):
        if cond:
            self.ok(rule, sample or key)
        else:
            self.bad(rule, key, text)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, rule, what, n, least):
        """Fail closed when fewer instances are found than were confirmed by hand."""
        self.counts[what] = n
        if n < least:
            self.bad(rule, "anchor:" + what.replace(" ", "-"), "only %d %s found, at least %d expected: the anchors of this rule are gone" % (n, what, least))

    def finish(self):
        known = {(p, k): t for p, k, t in known_findings()}
        new, old = {}, {}
        for k, t in self.viol.items():
            (old if (self.prop, k.replace(" ", "_")) in known else new)[k] = t
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {
                  "obligations": sum(r[0] for r in self.rules.values()),
                  "discharged": sum(r[1] for r in self.rules.values()),
                  "undecided": sum(r[2] for r in self.rules.values()),
                  "rules": {k: {"obligations": v[0], "discharged": v[1], "undecided": v[2]} for k, v in sorted(self.rules.items())},
                  "analysed": self.counts,
                  "samples": self.samples[:40],
                  "undecided_samples": self.und[:20],
                  "known_findings": sorted(old),
                  "explanation": self.explanation,
                  "technique": self.technique,
              },
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k, old[k]))
        for u in self.und[:15]:
            print("UNDECIDED: property=%s %s" % (self.prop, u))
        print("property=%s obligations=%d discharged=%d undecided=%d violations=%d known=%d wall=%.1fs" % (
            self.prop, ev["coverage"]["obligations"], ev["coverage"]["discharged"], ev["coverage"]["undecided"], len(new), len(old), ev["wall_s"]))
        if new:
            rp = os.path.join(d, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for k in sorted(new):
                    f.write(k + "\n    " + new[k] + "\n")
            for k in sorted(new):
                print("  %s\n      %s" % (k, new[k]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
