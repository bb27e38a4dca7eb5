"""writes MANIFEST.json from properties.jsonl and CLAIMS"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.claims import CLAIMS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CLAIMS:
        level, tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=tech, level=level, level_note=note))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no contract within reach yet")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
