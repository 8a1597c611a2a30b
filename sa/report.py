"""Check context: obligations, findings, known findings, evidence."""
import json
import os
import time
import traceback
from .program import Program, AnalysisBroken
from . import cxx as cxxmod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = VERIF + "/known_findings.txt"


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key[len("key="):]] = what
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations, self.discharged = 0, 0
        self.findings = []
        self.samples, self.notes, self.counts = [], [], {}
        self.assumptions = []
        self.units = set()
        self._prog = None
        self._facts = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(cxxmod.SRC, "aihwkit", cxxmod.REPO)
        return self._prog

    def cxx(self, rpu=True, bind=False):
        units = (cxxmod.rpu_units() if rpu else []) + (cxxmod.bind_units() if bind else [])
        k = (rpu, bind)
        if k not in self._facts:
            self._facts[k] = cxxmod.load(units, self.thorough)
            self.count("C++ translation units", len(units))
        return self._facts[k]

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, rule, construct, where="", detail=""):
        """A discharged obligation."""
        self.obligations += 1
        self.discharged += 1
        self.count("rule " + rule)
        if len(self.samples) < 60 and sum(1 for s in self.samples if s["rule"] == rule) < 4:
            self.samples.append({"rule": rule, "construct": construct, "where": where, "detail": str(detail)[:400]})

    def bad(self, rule, construct, where, msg, path=None):
        self.obligations += 1
        self.count("rule " + rule)
        key = rule + ":" + construct
        if any(f["key"] == key and f["msg"] == msg for f in self.findings):
            return
        self.findings.append({"key": key, "rule": rule, "construct": construct, "where": where, "msg": msg, "path": path})

    def check(self, cond, rule, construct, where, msg, path=None, detail=""):
        if cond:
            self.ok(rule, construct, where, detail or msg)
        else:
            self.bad(rule, construct, where, msg, path)
        return cond

    def skip(self, rule, construct, reason):
        """A construct in a form this rule cannot decide: not explored, and reported as such in the evidence."""
        self.count("undecided " + rule)
        if len(self.notes) < 40:
            self.notes.append("undecided: %s %s: %s" % (rule, construct, str(reason)[:200]))

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def at_least(self, rule, n):
        """The rule must have matched at least n instances (confirmed by hand)."""
        got = self.counts.get("rule " + rule, 0)
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, got, n))


def main(prop, title, run, tier):
    ctx = Ctx(prop, tier)
    rc, broken = 0, None
    try:
        run(ctx)
        if ctx.obligations == 0:
            raise AnalysisBroken("no obligation was generated")
    except AnalysisBroken as exc:
        broken = str(exc)
    except RecursionError as exc:
        broken = "recursion: %s" % exc
    except Exception:
        broken = traceback.format_exc()
    known = known_findings(prop)
    new = [f for f in ctx.findings if f["key"] not in known]
    for f in ctx.findings:
        if f["key"] in known:
            print("KNOWN-FINDING: property=%s %s (%s at %s)" % (prop, known[f["key"]], f["key"], f["where"]))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rep = "evidence/%s.violations.json" % prop
    with open(os.path.join(VERIF, rep), "w") as fh:
        json.dump({"property": prop, "title": title, "replay": "python3 /verif/check.py %s" % prop, "violations": new, "broken": broken}, fh, indent=1)
    for f in new:
        print("%s: [%s] %s: %s" % (f["where"], f["rule"], f["construct"], f["msg"]))
        if f["path"]:
            print("    path: %s" % f["path"])
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, broken))
    if new:
        rc = 1
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    elif broken:
        rc = 3
    expl = "%d obligations, %d discharged. Instances per rule: %s" % (
        ctx.obligations, ctx.discharged, "; ".join("%s=%d" % kv for kv in sorted(ctx.counts.items())))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": expl, "obligations": ctx.obligations, "discharged": ctx.discharged, "counts": ctx.counts,
                       "findings": len(ctx.findings), "known_findings": len(ctx.findings) - len(new), "samples": ctx.samples, "notes": ctx.notes},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 3), "violations": len(new)}
    with open(VERIF + "/evidence/%s.json" % prop, "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %s in %.1fs" % (prop, "BROKEN" if rc == 3 else ("FAIL" if rc else "PASS"), expl, time.time() - ctx.t0))
    return rc
