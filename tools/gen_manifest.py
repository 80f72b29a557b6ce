#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
from lib.checks import CHECKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
            evidence_file="evidence/%s.json" % p, technique=c.get("technique", "runtime monitor over randomised executions under AddressSanitizer/UBSan"),
            level=c.get("level", "exploration"),
            level_note=c.get("note", "Held on the executions produced (counts in the evidence file); paths no workload drives are not covered. Trusts the oracle in /verif/harness, gcc's sanitizers and libc.")))
    else:
        na.append(dict(property=p, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="none", enable="no hooks are added to /repo: monitors observe public interfaces, linker-wrapped libc/pthread calls and compiler sanitizers", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. Fixes to /repo are listed in KNOWN_FINDINGS.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
