"""Check context: collects obligations and findings, applies the known-findings file, writes evidence."""
import json, os, sys, time, traceback
from . import core
from .core import AnalysisBroken, VERIF


EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.t0 = time.time()
        s.progs = {}
        s.rules = {}          # rule -> {"description", "instances", "discharged"}
        s.found = []          # dicts
        s.samples = []
        s.assumptions = []
        s.notes = {}
        s.broken = []

    def prog(s, config="full"):
        if config not in s.progs: s.progs[config] = core.load(config)
        return s.progs[config]

    def rule(s, name, description):
        s.rules.setdefault(name, {"description": description, "instances": 0})
        return name

    def ok(s, rule, n=1, sample=None):
        s.rules[rule]["instances"] += n
        if sample is not None and len([x for x in s.samples if x["rule"] == rule]) < 6:
            s.samples.append({"rule": rule, "instance": sample})

    def violation(s, rule, construct, where, msg, **extra):
        """construct: stable identification (function + construct, no line numbers)."""
        k = (rule, construct)
        if any((x["rule"], x["construct"]) == k for x in s.found): return
        s.found.append(dict(rule=rule, construct=construct, where=where, message=msg, **extra))

    def floor(s, rule, n):
        if s.rules[rule]["instances"] < n:
            s.broken.append("rule '%s' matched %d instances, expected at least %d" % (rule, s.rules[rule]["instances"], n))

    def assume(s, *a): s.assumptions += [x for x in a if x not in s.assumptions]

    def finish(s):
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        known = {(k["rule"], k["construct"]): k for k in kf["findings"] if k["property"] == s.pid}
        viol, kn = [], []
        for f in s.found:
            (kn if (f["rule"], f["construct"]) in known else viol).append(f)
        ev = {
            "property": s.pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current sources (clang 18 front end, type-resolved CFGs): every instance of each rule was examined; a violation names file, function and construct.",
                "configurations": {c: {"translation_units": len(p.srcs), "functions": len(p.fns), "events": sum(len(b.ev) for f in p.fns.values() for b in f.blocks.values())} for c, p in s.progs.items()},
                "rules": s.rules, "samples": s.samples,
                "known_findings_seen": [f["construct"] for f in kn],
            },
            "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 2), "violations": len(viol),
        }
        if s.notes: ev["coverage"]["notes"] = s.notes
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, s.pid + ".json"), "w") as fp: json.dump(ev, fp, indent=1, default=str)
        for f in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (s.pid, known[(f["rule"], f["construct"])]["what_fails"], f["where"]))
        if viol:
            rp = os.path.join(EVID, s.pid + ".violations.json")
            with open(rp, "w") as fp: json.dump(viol, fp, indent=1, default=str)
            for f in viol:
                print("%s: [%s/%s] %s (construct: %s)" % (f["where"], s.pid, f["rule"], f["message"], f["construct"]))
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        if s.broken:
            for b in s.broken: print("ANALYSIS-BROKEN property=%s %s" % (s.pid, b))
            return 2
        tot = sum(r["instances"] for r in s.rules.values())
        print("property=%s held on everything analysed: %d instances of %d rules (%.1f s)" % (s.pid, tot, len(s.rules), time.time() - s.t0))
        return 0


def main(pid, tier, run):
    ctx = Ctx(pid, tier)
    try:
        run(ctx)
    except AnalysisBroken as e:
        # violations already established stand on their own
        if ctx.found:
            ctx.broken.append(str(e))
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); return 2
    except Exception as e:
        traceback.print_exc()
        if not ctx.found:
            print("ANALYSIS-BROKEN property=%s internal error: %r" % (pid, e)); return 2
        ctx.broken.append("internal error: %r" % e)
    return ctx.finish()
