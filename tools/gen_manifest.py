#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl: a check for every property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/level_notes.json"))
SMC = "stateless model checking of the compiled library: exhaustive exploration of all schedules within a preemption bound"
SEQ = "bounded exhaustive enumeration of inputs and operation sequences on the real code against a reference model"
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(V + "/harness/%s.cpp" % i):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    n = NOTES.get(i, {})
    t = {"smc": SMC, "seq": SEQ, "both": SMC + ", plus " + SEQ}[n.get("t", "both")]
    checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=t, level="model_checking",
                       level_note=n.get("note", "") + " Exhaustive within the bounds reported in the evidence file; assumes "
                       "sequentially consistent interleavings of visible operations (data races are reported, so nothing "
                       "depends on weaker orders) and that /verif/mc/mcrt.cpp models threads, locks, timers and randomness faithfully."))
m = dict(version=1, setup_cmd="bash tools/selftest.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is compiled unmodified with thread-sanitizer instrumentation and linked "
               "against the model checking runtime in /verif/mc, which replaces threads, locks, clocks, randomness and the heap.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
