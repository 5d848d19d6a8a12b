#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: run `python3 tools/props.py` in /verif."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, level=None, technique=None, note=None, na=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, state=state))

exec(open(os.path.join(R, "tools", "props_data.py")).read())

READY = set(open(os.path.join(R, "tools", "ready.txt")).read().split())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]]} if x["state"] else {}),
                        "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1,
       "setup_cmd": "bash ./setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "Static analysis only: every check is one run of checker/ (go/ssa based abstract interpreter plus repository specific monitors) over /repo's current source. No code of /repo is executed. No build-tag hooks are used."}
for x in P:
    if x["id"] not in READY and not x["na"]:
        man["not_applicable"].append({"property": x["id"], "reason": "the check for this property is not finished yet"})
    elif x["na"]:
        man["not_applicable"].append({"property": x["id"], "reason": x["na"]})
    else:
        man["checks"].append({"property": x["id"],
            "quick_cmd": "bash ./check.sh %s quick" % x["id"],
            "thorough_cmd": "bash ./check.sh %s thorough" % x["id"],
            "technique": x["technique"], "level": x["level"] or "other", "level_note": x["note"]})
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
