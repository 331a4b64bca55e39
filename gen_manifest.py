#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (keeps it in step with analysis/cXX.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("interprocedural lockset dataflow over all call paths", "Sound up to the stated call-graph model: every access of every shared object on every static call path from all exported functions and asynchronous entries."),
}
NA = {
 "C07": "Ownership of raw 32-bit indices is carried by data (flags, kinds, call nesting, lists of side effects) rather than by types: a static verdict on all of inc_ref/dec_ref needs a path-sensitive ownership model of every container of indices, and the one in reach raised false alarms. Its decidable parts are decided elsewhere: references held by a failed evaluation (C19), memory (C13), tasks (C15), recordings (C10).",
 "C22": "No check was completed in the time available.",
 "C30": "Value-level: equality of computed results for all programs and inputs; no structural necessary condition beyond the exhaustiveness clauses decided under C08.",
 "C31": "Value-level: quantifies over run-time masks, trip counts and call targets; no sound static argument in reach bounds them.",
 "C32": "Numerical exactness of a bit-level conversion over all inputs; deciding it means evaluating the function (concretely or with a solver), which is not this family.",
 "C33": "Depends on run-time sizes and ratios at replay; the structural clause (roles of recorded operands) is decided under C09.",
 "C34": "Liveness over infinite fair schedules; needs a model checker or a proof, not a static pattern. The structural clauses of the lock are decided under C23.",
}
EX = json.load(open(os.path.join(HERE, "manifest_text.json"))) if os.path.exists(os.path.join(HERE, "manifest_text.json")) else {}
T.update({k: tuple(v) for k, v in EX.items()})
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(HERE, "analysis", i.lower() + ".py")):
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": "static analysis: " + t, "level": "other",
                       "level_note": note + " Trusted: clang 18 front end, the extractor and the rule's exception tables; absent dependencies are modelled by declarations in stubs/."})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet (work in progress).")})
json.dump({"version": 1, "setup_cmd": "bash extractor/build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
