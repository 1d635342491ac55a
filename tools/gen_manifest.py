"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.path.insert(0, os.path.join(V, "harness", "checks"))
from checks.specs import SPECS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        mods = sorted({m[0] for m in s["models"]})
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": f"TLA+ specification ({', '.join(mods)}) model-checked with TLC; recorded runs of the real code judged by TLC ({s['judge']})",
            "level": "model_checking",
            "level_note": "The specification's theorems are exhaustive within the constants of its .cfg files; the code is "
                          "decided on the recorded runs only. Trusts TLC, the recording harness, and: " + "; ".join(s["assumptions"])})
    else:
        na.append({"property": i, "reason": "no check yet: the specification does not cover it so far"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. Specifications are in specs/, TLA+ checked with TLC."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
