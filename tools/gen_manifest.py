"""Writes MANIFEST.json from the list of built checks (mc/props/cNN.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
META = json.load(open(os.path.join(here, "tools", "manifest_meta.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "props", i.lower() + ".py")):
        m = META.get(i, {})
        checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
                           technique=m.get("technique", "explicit-state exploration of the real code against a reference model"),
                           level="model_checking",
                           level_note=m.get("note", "exhaustive within the bounds recorded in the evidence file")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
out = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
