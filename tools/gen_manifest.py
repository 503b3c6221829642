"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, missing = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        missing.append({"property": i, "reason": NOTES.get(i, {}).get("na", "the check is not built yet")})
        continue
    src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
    level = src.split('LEVEL = "')[1].split('"')[0]
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick", "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
      "technique": NOTES[i]["technique"], "level": level, "level_note": NOTES[i]["note"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import pandas, numpy, yaml, mypy'", "checks": checks, "not_applicable": missing,
  "notes": "One entry point: run.py <property>; --replay FILE runs a recorded violation again. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [m["property"] for m in missing])
