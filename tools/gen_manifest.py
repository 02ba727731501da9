#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import CHECKS
try:
    from table import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"] + "; random exploration, no proof"})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "GCP_VERIF_NO_HOOKS",
              "enable": "no hooks are needed: the checks compile /repo's "
                        "sources as they are",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [
        {"property": i, "reason": NOT_APPLICABLE.get(
            i, "no check yet")} for i in ids if i not in CHECKS],
    "notes": "check.py builds the harnesses under /verif/build from /repo's "
             "working tree and runs them; known findings and fixed defects "
             "are in known-findings.txt",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
