"""Writes MANIFEST.json from vlib/specs.py: every property with monitors is claimed."""
import json
import sys
sys.path.insert(0, "/verif/vlib")
from specs import SPECS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in SPECS:
        checks.append(dict(property=i, quick_cmd="python3 vlib/driver.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 vlib/driver.py " + i,
                           technique=SPECS[i].get("technique", "runtime monitor against an independent reference model, under ASan+UBSan"),
                           level="exploration",
                           level_note=SPECS[i].get("note", "held on the executions observed (counts in the evidence); trusts the reference formulas in /verif/vlib and the stand-ins for the missing njoy libraries in /verif/shim")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason="monitor not built yet") for i in ids if i not in SPECS])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks])
