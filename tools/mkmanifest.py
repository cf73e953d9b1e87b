#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property with a harness; the rest listed with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ("Seeded search: every run executes the real headers on simulated threads, clock and heap, with one scheduler decision per "
        "synchronisation operation; exit 0 means no violation in the seeds run, not a proof. Assumes sequentially consistent "
        "interleavings of atomics (weaker orders are judged by the happens-before race detector only) and the faithfulness of the simulated pthread/clock layer.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "harness", i + ".cpp")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search over the real code)", "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet (harness under construction); not claimed until it exists"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator interposes pthreads, futexes, clocks and the heap at link level and instruments the headers with -fsanitize=thread callbacks."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
