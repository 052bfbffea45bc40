#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (kept in step with lvrules/registry.py)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lvrules.registry import REG

D = "modules/datasets/"
U = "modules/utils/"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note, na=na))


exec(open(os.path.join(HERE, "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note", "na")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    assert p["id"] in REG, p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=p["tech"], level="other",
                       level_note=(p["note"] or "") + " Static: decides every path of the analysed functions of /repo's current source; nothing is executed. Constructs the rule cannot resolve are listed as notes in the evidence, not reported."))
extra = set(REG) - {p["id"] for p in PROPS}
if extra:
    print("registered but undocumented:", sorted(extra))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="Facts are extracted from /repo's current tree by a libTooling extractor (tool/lvfacts.cpp) built in setup; rules in lvrules/. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
