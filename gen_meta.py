#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, technique=None, level="proof", observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      level_note=level_note, na=na, technique=technique, level=level, observe=observe, state=state))

TECH = "code contracts on the unmodified C functions, discharged function by function (goto-instrument --dfcc + CBMC, SAT back end)"
TECH_IR = "pre/postconditions and frame conditions on the unmodified C functions; verification conditions generated from the LLVM IR of the current sources and discharged for all inputs (lib/irsym.py: BDD canonical forms, congruence for float terms)"
exec(open("props_table.py").read())

with open("properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: contracts are attached to declarations in /verif/harness and linked with /repo's unmodified sources."}
for p in PROPS:
    if p["na"]: m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s --thorough" % p["id"],
                            "technique": p["technique"] or TECH, "level": p["level"], "level_note": p["level_note"]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
