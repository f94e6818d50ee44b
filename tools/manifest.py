"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower()).META
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh %s --tier quick" % i,
            "thorough_cmd": "bash run.sh %s --tier thorough" % i,
            "technique": m["technique"],
            "level": "exploration",
            "level_note": m["note"],
        })
    else:
        na.append({"property": i, "reason": "no monitor built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "Runtime monitoring of the real tslearn code under generated workloads; see DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
