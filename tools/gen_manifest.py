#!/usr/bin/env python3
"""writes MANIFEST.json from plan.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(f"{V}/plan.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for p in ids:
    if p not in plan["properties"]: continue
    d = plan["properties"][p]
    c = {"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
         "technique": d.get("technique") or ("Verus contracts on functions extracted from /repo on every run, with counterexample search on the real crates" if d.get("units") else "bounded stand-in: executable contract checked on the real crates"),
         "level": d["level"]}
    if d.get("units"):
        c["level_note"] = f"Proved (Verus): {d.get('proved','')} Bounded only: {d.get('bounded','nothing of the property')} Trusted: {d.get('trusted','the shims listed in the evidence file.')}"
        c["theorems"] = d.get("theorems", [])
    else:
        c["level_note"] = f"Bounded, nothing proved: {d.get('bounded','')}"
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks were needed: private functions are extracted, the search uses the public interface", "source_commits": []},
     "checks": checks, "not_applicable": [x for x in plan.get("not_applicable", [])],
     "notes": "See DESIGN.md. Verdict policy: VIOLATION with a replayed input when the search finds one; VIOLATION ... no-failing-input-found when only an obligation fails; a tree the extractor or verifier cannot handle is decided by the bounded search and labelled so."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
