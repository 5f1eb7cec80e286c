"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import profiles, models
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    parts = []
    if i in profiles.PROFILES:
        parts.append("TLC trace validation of executions recorded from the real library against the TLA+ specification (spec/EelTrace.tla)")
    if i in models.MODELS:
        parts.append(models.MODELS[i])
    if not parts:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 harness/check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 harness/check.py %s --tier thorough" % i,
                   "technique": "; ".join(parts), "level": "model_checking",
                   "level_note": "Every step of every recorded execution was checked against the TLA+ specification by TLC; "
                                 "executions are generated (spec/model-derived and seeded random), so code paths not executed are not judged. "
                                 "Trusts TLC, java/F64.java (IEEE arithmetic) and driver/*.c (recording)."})
m = {"version": 1, "setup_cmd": "python3 harness/build.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the host's lock callbacks and link-time wrapping of malloc are used", "source_commits": []},
     "notes": "TLA+ with TLC; see DESIGN.md. known_findings.json lists the defects left as they are and those fixed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
