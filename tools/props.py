#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/python/pycold/"
T = S + "imagetool/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="other"):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(V, "tools", "proplist.py")).read())


def main():
    ids = set()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["id"] not in ids, p["id"]
            ids.add(p["id"])
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        script = "checks/%s.py" % p["id"].lower()
        if p["na"] is None and os.path.exists(os.path.join(V, script)):
            checks.append({"property": p["id"], "quick_cmd": "python3-vt " + script, "thorough_cmd": "python3-vt %s --thorough" % script,
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "Static analysis only; no hooks in /repo. fix: commits are listed in known_findings.json."}, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", [n["property"] for n in na], "not claimed")


main()
