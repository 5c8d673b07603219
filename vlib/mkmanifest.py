"""Writes /verif/MANIFEST.json from props.py and mkprops.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vlib")
import props, mkprops
checks, na = [], []
for x in mkprops.PS:
    i = x["id"]
    if i not in props.PROPS:
        na.append(dict(property=i, reason=props.NA.get(i, "not built yet"))); continue
    P = props.PROPS[i]
    c = dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
             evidence_file="evidence/%s.json" % i, technique=P["technique"], level=P["level"], level_note=P["note"])
    if P.get("theorems"): c["theorems"] = P["theorems"]
    checks.append(c)
m = dict(version=1, setup_cmd="python3 setup.py", hooks=props.HOOKS, checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
mkprops_path = V + "/properties.jsonl"
with open(mkprops_path, "w") as f:
    for x in mkprops.PS: f.write(json.dumps(x) + "\n")
