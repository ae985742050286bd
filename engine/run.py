#!/usr/bin/env python3
"""Runs one check:  run.py <property id> [--tier quick|thorough]

Exit 0: every obligation of the property is discharged on /repo's current source (apart from
the findings listed in known_findings.json).  Exit 1: a violation, named on a VIOLATION line.
Exit 2: the analysis could not be carried out (source does not parse, anchor missing).
"""
import importlib, json, os, sys, time, traceback

sys.setrecursionlimit(20000)
ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
sys.path[:0] = [ENGINE, os.path.join(ENGINE, "checks")]
import facts, ir


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.rules = []
        self._db = None
        self._P = None

    @property
    def db(self):
        if self._db is None:
            self._db = facts.load()
        return self._db

    @property
    def P(self):
        if self._P is None:
            self._P = ir.Prog(self.db)
        return self._P

    def finding(self, key, where, msg, **kw):
        """key identifies the construct independently of line numbers."""
        if any(f["key"] == key for f in self.findings):
            return
        self.findings.append(dict(key=key, where=where, message=msg, **kw))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def rule(self, s):
        self.rules.append(s)

    def require(self, cond, what):
        if not cond:
            raise facts.AnalysisBroken("anchor missing: " + what)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except facts.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(2)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)):
            if k["property"] == pid and k["status"] == "known":
                known[k["key"]] = k
    new = []
    for f in ctx.findings:
        if f["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[f["key"]]["what"]))
        else:
            new.append(f)
    cov = dict(ctx.counts)
    cov["explanation"] = (mod.__doc__ or "").strip()
    cov["rules_applied"] = ctx.rules
    cov["samples"] = ctx.samples or ["(no sample)"]
    cov["facts"] = getattr(ctx._db, "stats", {}) if ctx._db else {}
    cov["findings"] = ctx.findings
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=cov, assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    ed = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ed, exist_ok=True)
    ep = os.path.join(ed, pid + ".json")
    with open(ep, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s: %s  (%.1f s)" % (pid, ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    for f in new:
        print("  %s: %s" % (f["where"], f["message"]))
        for p in f.get("path", ()):
            print("      " + p)
    if new:
        rp = os.path.join(ed, pid + ".violation.json")
        with open(rp, "w") as fh:
            json.dump(new, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
