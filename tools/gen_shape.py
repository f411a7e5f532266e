#!/usr/bin/env python3
"""writes specs/shape.json (kinds of the loops of every function under contract) from gen/*.json of the unchanged tree"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for u in json.load(open(f"{V}/plan.json"))["units"]:
    subprocess.run([f"{V}/target/extract/release/vp-extract", "/repo", f"{V}/specs/{u}.vs", f"{V}/gen/{u}.rs", f"{V}/gen/{u}.json"], check=True)
    out[u] = {s["fn"]: s["kinds"] for s in json.load(open(f"{V}/gen/{u}.json"))["shape"] if s["kinds"] and not s["helper"]}
json.dump(out, open(f"{V}/specs/shape.json", "w"), indent=1)
