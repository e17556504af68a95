#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus, per property, what the props modules and the planted bugs say (keeps the document in step)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + "/tools")
PROSE = open(ROOT + "/tools/design_head.md").read()
TAIL = open(ROOT + "/tools/design_tail.md").read()
WHY = json.load(open(ROOT + "/tools/design_why.json"))
P = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
bugs = {}
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b))); bugs.setdefault(m["property"], []).append((b, m))
out = [PROSE, "\n## 4. Property by property\n"]
for p in P:
    m = importlib.import_module("props." + p["id"].lower())
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    mods = lambda t: "; ".join("`%s` %s" % (x["module"], ", ".join("%s=%s" % kv for kv in x["constants"].items() if kv[0] != "Emit")) for x in m.MODELS[t])
    inv = []
    for x in m.MODELS["quick"] + m.MODELS["thorough"]:
        for i in x.get("invariants", []) + x.get("properties", []):
            if i not in inv: inv.append(i)
    traces = []
    for q in m.PARTS:
        s = "part `%s`: `harness/%s.cpp` → `spec/%s.tla`%s" % (q["name"], q["driver"], q["trace"], " (built with OpenMP threads)" if "-DTHREADS_ENABLED=true" in q.get("flags", ()) else "")
        traces.append(s)
    out.append("* **Decided by.** %s" % m.NOTE)
    out.append("* **Design model.** Checked: %s. Bounds, quick: %s. Thorough: %s." % (", ".join("`%s`" % i for i in inv), mods("quick"), mods("thorough")))
    out.append("* **Conformance.** %s." % "; ".join(traces))
    out.append("* **Assumptions / oracle limits.** %s." % "; ".join(m.ASSUMPTIONS))
    if p["id"] in WHY: out.append("* **Why beyond the tests.** %s" % WHY[p["id"]])
    out.append("")
out.append(TAIL)
out.append("\n## 8. Planted bugs and what catches them\n\nEvery one applies to /repo's HEAD, compiles, keeps the 137 stable tests passing, and has a demonstration that tells it apart; the quick check of its property reports each of them.\n")
out.append("| bug | property / check | what it needs to manifest |\n|---|---|---|")
for p in P:
    for b, m in bugs.get(p["id"], []): out.append("| `%s` | %s | %s |" % (b, p["id"], m["needs"].replace("|", "/")))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
