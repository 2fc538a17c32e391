import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from specs.registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                       technique=p.get("technique", "contract-based deductive verification of the real functions (generated VCs, z3/cvc5)"), level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "no contract has been written for it yet")) for i in ids if i not in PROPS],
         notes="check.py generates the obligations from /repo's current sources on every run; hooks in /repo are not needed (none were added).")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
