#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (property dict, technique, level, level_note) or (property dict, None, reason)


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level="other", note="", na=None,
         state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((d, technique, level, note, na))


exec(open(os.path.join(V, "tools", "props.py")).read())
ids = [p[0]["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p[0]) + "\n")
M = {"version": 1, "setup_cmd": "cd /verif && ./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks inspect /repo's current sources; nothing of the program is executed. See DESIGN.md."}
for d, t, l, n, na in P:
    if na:
        M["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        c = "cd /verif && ./check " + d["id"]
        M["checks"].append({"property": d["id"], "quick_cmd": c, "thorough_cmd": "cd /verif && VERIF_TIER=thorough ./check " + d["id"],
                            "evidence_file": "evidence/%s.json" % d["id"], "technique": t, "level": l, "level_note": n})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
