#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
out = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "LIBDART_VERIF", "enable": "no hooks were needed: every observation is made through the public interface", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "Language: TLA+ checked by TLC. Every check rebuilds its drivers from /repo, runs generated programs against the real code and lets TLC decide whether the recorded traces are behaviours of the specification in spec/. See DESIGN.md; repaired defects are in known-findings.txt."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t = T.get(i, {})
        out["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": t.get("technique", "TLA+ specification, trace validation with TLC"),
                              "level": "model_checking", "level_note": t.get("note", "conformance of recorded executions to the TLA+ specification")})
    else:
        out["not_applicable"].append({"property": i, "reason": T.get(i, {}).get("na", "check not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not claimed")
