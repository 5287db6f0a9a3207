"""writes /verif/MANIFEST.json from the table below (P: level note per claimed property)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
P = {}
exec(open(V + "/tools/claims.py").read(), P)
claims, na = P["claims"], P["na"]
checks = []
for p in props:
    i = p["id"]
    if i in claims:
        c = claims[i]
        checks.append(dict(property=i, quick_cmd="python3-vt run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3-vt run.py " + i,
                           technique=c[0], level="model_checking", level_note=c[1]))
m = dict(version=1, setup_cmd="python3-vt setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "check not built yet"))
                         for p in props if p["id"] not in claims],
         notes="Specifications in spec/, one check script per property in checks/, harness sources in harness/.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed")
