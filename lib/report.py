"""Running one check: evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, where, rule, what, key=None):
        self.where = where      # file:line
        self.rule = rule
        self.what = what
        # identity of the finding: construct, not position
        self.key = key or (rule + "|" + what)

    def __str__(self):
        return "%s: [%s] %s" % (self.where, self.rule, self.what)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = {}
        self._seen = set()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, where, rule, what, key=None):
        k = (where, rule, what)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obligations += 1
        self.violations.append(Violation(where, rule, what, key))

    def check(self, cond, where, rule, what, key=None):
        if cond:
            self.ok()
            if len(self.samples) < 12:
                self.samples.append("%s [%s] discharged" % (where, rule))
        else:
            self.bad(where, rule, what, key)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        from extract import AnalysisBroken
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s' found (expected at least %d)" %
                                 (self.prop, self.counts.get(name, 0), name, minimum))


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                res.append(line.split("key=", 1)[1] if "key=" in line else line)
    return res


def main(prop, func, level="other"):
    from extract import AnalysisBroken
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop)
    try:
        from ir import Program
        P = Program()
        func(P, rep, tier)
        if P.errors and not rep.violations:
            # the tree does not parse: no verdict
            for s, l in P.errors.items():
                print("parse errors in %s:\n%s" % (s, l), file=sys.stderr)
            raise AnalysisBroken("sources do not parse")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop, file=sys.stderr)
        return 3
    known = known_findings(prop)
    new, old = [], []
    for v in rep.violations:
        (old if v.key in known else new).append(v)
    cov = {
        "explanation": "Static analysis of the current sources: " +
                       "; ".join("%s: %s" % kv for kv in sorted(rep.rules.items())),
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "units": len(P.units),
        "functions_in_model": len(P.funcs),
        "counts": rep.counts,
        "samples": rep.samples[:12],
    }
    evdir = os.environ.get("HGDB_EVIDENCE") or os.path.join(HERE, "evidence")
    if "--no-evidence" in sys.argv:
        evdir = os.environ.get("HGDB_DUMPS", "/tmp")
    os.makedirs(evdir, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": rep.notes}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    if new:
        rp = os.path.join(evdir, prop + ".violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(str(v) + "\n    key=" + v.key + "\n")
        for v in new:
            print(str(v))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations discharged (%s)" % (
        prop, rep.discharged, ", ".join("%s=%d" % kv for kv in sorted(rep.counts.items()))))
    return 0
