"""Writes MANIFEST.json from the check modules present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, root)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "mc", "checks", i.lower() + ".py")) and i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python -W ignore mc/run.py %s --tier quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python -W ignore mc/run.py %s --tier thorough" % i,
                       "level": "model_checking", "technique": t, "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is still being built; not claimed yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -c \"import mc.boot\"", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
