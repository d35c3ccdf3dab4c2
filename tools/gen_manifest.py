#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: the registry decides what is claimed."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
from checks import REG
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in props:
    if pid not in REG:
        continue
    c = REG[pid]
    checks.append(dict(property=pid, quick_cmd="python3 run.py " + pid,
                       thorough_cmd="VERIF_TIER=thorough python3 run.py " + pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=p, reason="no check built yet") for p in props if p not in REG]
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="KANON_VERIF", enable="not needed: the harnesses drive the public interfaces and intercept system calls at link time; no hook is compiled into /repo",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="One runner (run.py): builds /repo's current sources under sanitizers, runs seeded harnesses from harness/, judges monitor output and sanitizer reports. VERIF_SEED drives every random choice.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
