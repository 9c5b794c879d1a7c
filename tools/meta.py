#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, note))

exec(open(os.path.join(V, "tools", "props.py")).read())

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public API (a recorder added to the model under test)", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": t, "level": "exploration", "level_note": n} for p, t, n in P],
    "not_applicable": NA,
    "notes": "Every check rebuilds the monitor against /repo's working tree, runs generated, hostile and directed workloads through the real code and judges the recorded executions with independent oracles. See DESIGN.md.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
