#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and check.py's table of profiles"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NA = {"C22": "pure encoding function: no schedule, clock, I/O, peer or fault for the property to depend on, so there is nothing to simulate",
      "C23": "sequential in-memory data structure used by a single goroutine: no schedule, clock, I/O, peer or fault for the property to depend on",
      }
TODO = "the simulation for this part is not finished yet"
NOTE = "Searches seeded plans and schedules of the real code (streams and the Kafka client) against simulated brokers; a violation is believed only if its replay file reproduces it. Not exhaustive: trusts the simulated brokers, sequentially consistent memory and the oracles."
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in check.PROFILES:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": "deterministic simulation with fault injection (seeded schedules and faults, history oracles)", "level": "exploration", "level_note": check.NOTES.get(p, NOTE)})
    else:
        na.append({"property": p, "reason": NA.get(p, TODO)})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator is built with a GOROOT overlay and instrumented copies of /repo's sources (tools/build.sh, -tags faketime -overlay)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Replay a violation with: python3 check.py replay <file>. Known findings and repaired defects: known-findings.txt. Design: DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
