#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl"""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
na = []
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"],
        quick_cmd="python3 /verif/run.py %s quick" % p["id"],
        thorough_cmd="python3 /verif/run.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=c["technique"], level=c.get("level", "exploration"), level_note=c["level_note"]))
m = dict(version=1, setup_cmd="g++ --version && clang++ --version && python3 -m py_compile run.py checks.py",
         checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: instrumentation is added by the compiler (sanitizers and coverage callbacks used as schedule points), by interposed libc functions, and by storages, clocks, formatters and clients supplied by the harness. Repaired defects are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
