"""MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = "/verif"
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    tech, note = NOTE[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing (Hypothesis): " + tech,
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": na,
     "notes": "Pure Python: checks import /repo's working tree directly; "
              "nothing is built and no hooks are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
