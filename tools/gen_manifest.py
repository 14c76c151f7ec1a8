#!/usr/bin/env python3
"""writes MANIFEST.json from lib/targets.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from targets import TARGETS, TECH, NOTE, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in TARGETS: continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique=TECH.get(i, "property-based testing: generated histories against a reference model"), level="exploration",
                       level_note=NOTE.get(i, "Held on every generated case of the run (counts in the evidence file); no proof of absence. Trusts the compiler, the sanitizers and the reference model in props/%s.cpp." % i)))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in TARGETS]
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na,
         notes="Checks compile their harnesses from /repo's working tree into /verif/build (git-ignored, keyed by source hash). No hooks in /repo are needed.")
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
