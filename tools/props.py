#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    names = {"faults": "fault_sequences", "crash points": "crash_points"}
    over = [names.get(o, o) for o in over]
    assert set(over) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, over
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _t=technique, _n=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append((id, reason))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh -build", "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in NA],
       "notes": "One analyser (analyzer/, Go, vendored golang.org/x/tools) decides every property from the source of /repo; see DESIGN.md. thorough additionally analyses three further build configurations (linux/386, windows/amd64, darwin/arm64)."}
for p in P:
    if p["_t"]:
        man["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                              "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": "other", "level_note": p["_n"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed,", len(NA), "not applicable")
