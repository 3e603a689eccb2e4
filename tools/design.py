"""DESIGN.md from tools/design.in.md, the repaired defects and the planted bugs."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(R, "tools", "design.in.md")).read()
fx = ["* " + x[len("fixed: property="):] if x.startswith("fixed: property=") else "* " + x for x in json.load(open(os.path.join(R, "known_findings.json")))["fixed"]]
sd = ["| id | property | caught by | needs |", "|----|----------|-----------|-------|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    sd.append("| %s | %s | %s | %s |" % (d, m["property"], m.get("caught_by", m["property"]), m["needs"]))
open(os.path.join(R, "DESIGN.md"), "w").write(s.replace("@FIXES@", "\n".join(fx)).replace("@SEEDS@", "\n".join(sd)))
