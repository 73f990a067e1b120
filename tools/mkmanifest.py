"""Writes MANIFEST.json: a property is claimed as soon as its harness exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", i.lower() + ".py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="VERIF_TIER=thorough ./check %s thorough" % i,
                           technique=NOTES[i][0], level="model_checking", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
