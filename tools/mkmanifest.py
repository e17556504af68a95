#!/usr/bin/env python3
"""Writes MANIFEST.json from props/*.py and properties.jsonl (run by hand)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(l)
    pid = d["id"]
    if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        P = importlib.import_module("props." + pid.lower())
        checks.append({"property": pid,
                       "quick_cmd": "python3 tools/check.py %s quick" % pid,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
                       "technique": getattr(P, "TECHNIQUE", "TLA+ specification checked with TLC; behaviours replayed in the real code and recorded traces validated against the specification with TLC"),
                       "level": P.LEVEL, "level_note": P.NOTE})
    else:
        na.append({"property": pid, "reason": "specification and conformance check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
