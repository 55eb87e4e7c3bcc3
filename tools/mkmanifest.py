#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per harness/C*.cpp."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [os.path.basename(f)[:-4] for f in sorted(glob.glob(os.path.join(V, "harness", "C*.cpp")))]
NA = {}
checks = []
for i in have:
    src = open(os.path.join(V, "harness", i + ".cpp")).read()
    subs = re.findall(r"^PROP\((\w+)", src, re.M)
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing with coverage-guided mutation of generated cases",
        "level": "exploration",
        "level_note": "Search over generated inputs and histories against an independent oracle, under ASan/UBSan and "
                      "assertions, with shrinking and replay. Sub-properties: " + ", ".join(subs) +
                      ". Shows no counterexample among the cases listed in the evidence file; it proves nothing about "
                      "inputs that were not generated."})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in have]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
