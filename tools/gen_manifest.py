#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run by hand after adding a check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ENUM = "exhaustive bounded enumeration of operation sequences and inputs on the real code"
SCHED = "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler"
FAULT = "exhaustive enumeration of fault positions on the real code"
CRASH = "exhaustive enumeration of crash points and torn writes on the real code"
RW = "exploration"
C = {
 "S01": (ENUM, RW, "every index, order and query in the bound, on the real search; distances recomputed independently"),
 "S02": (ENUM, RW, "all digraphs and weak distance orders in the bound against the local-optimum conditions"),
 "B01": (ENUM, RW, "all operation histories in the bound, state checked after every step"),
 "B02": (ENUM, RW, "all sizes and splits in the bound against the layer size formula in exact-enough arithmetic"),
 "B03": (ENUM, RW, "all small data sets over the alphabet; mutual links and exact answers"),
 "B05": (ENUM, RW, "all small element sequences, ways to hold them, option orders and groupings of insertions; images compared"),
 "B04": (SCHED, "model_checking", "every interleaving of lock operations of the builder's worker tasks up to the preemption bound; assumes sharing happens through locks, atomics, forks and joins"),
}
extra = os.path.join(ROOT, "tools", "manifest_checks.json")
if os.path.exists(extra):
    names = {"ENUM": ENUM, "SCHED": SCHED, "FAULT": FAULT, "CRASH": CRASH}
    for k, v in json.load(open(extra)).items():
        C[k] = (names.get(v[0], v[0]), v[1], v[2])
checks = []
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        cmd = "python3 tools/%s %s" % ("check_py.py" if i == "Y01" else "check.py", i)
        checks.append(dict(property=i, quick_cmd=cmd + " quick", thorough_cmd=cmd + " thorough",
                           evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in C],
         notes="No hooks in /repo: the harness drives the public API; locks and worker threads are replaced through [patch.crates-io] in harness/Cargo.toml. Every check compiles the harness against /repo's working tree itself.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
