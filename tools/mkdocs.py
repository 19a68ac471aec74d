#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = list(observe)
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["hook_needed"] = None
    PROPS.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": anchors}, technique, note))


exec(open(os.path.join(VERIF, "tools", "props.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    na = []
    for p, technique, note in PROPS:
        id = p["id"]
        if os.path.exists(os.path.join(VERIF, "checks", id.lower() + ".py")) and id not in NA:
            checks.append({
                "property": id,
                "quick_cmd": "python3 run.py {} --tier quick".format(id),
                "thorough_cmd": "python3 run.py {} --tier thorough".format(id),
                "evidence_file": "evidence/{}.json".format(id),
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            })
        else:
            na.append({"property": id, "reason": NA.get(id, "the monitor for this property is still being built")})
    m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
         "notes": "Pure Python: nothing to build; every check imports the package from /repo's working tree. "
                  "Replay a violation with: python3 run.py <id> --replay <file>."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
