#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import config as C
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
    technique="deterministic simulation, seeded search over generated scenarios, schedules and faults; " + C.PROPS[i].get("technique", C.TECH.get(i, "")), level="exploration",
    level_note=C.PROPS[i].get("note", "Evidence over the seeds run, not a proof. Real code: the whole library of the default build, compiled from the working tree. Stubs: heap, exit, clocks, random source, host yield, file device.")) for i in ids if i in C.PROPS]
na = [dict(property=i, reason=C.NA.get(i, "no check is built for it yet")) for i in ids if i not in C.PROPS]
m = dict(version=1, setup_cmd="python3 tools/build.py fast asan", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the seams are the file device (EAS_FILE.readAt/size), the host wrapper heap calls, the yield and clock symbols, all interposed at link time by the harness build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
