#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "migen_src/"
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, observe=(), technique=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note,
                  observe=observe, technique=technique or "explicit-state model checking of the real RTL", level=level, na=na))


exec(open(os.path.join(V, "tools", "catalog_entries.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                                        "observe_at": list(x["observe"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for x in P:
    if x["na"]:
        na.append({"property": x["id"], "reason": x["na"]})
    else:
        checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "python3 check.py %s --thorough" % x["id"],
                       "technique": x["technique"], "level": x["level"], "level_note": x["level_note"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks were needed: the checks elaborate and compile /repo's sources as they are", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Findings on the original tree, repaired and recorded, are in known_findings.txt; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
