#!/usr/bin/env python3
"""builds the extractor and the harness once (every check also builds what it needs)"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t, d, args in (("extract", "extract", ["--release"]), ("harness", "harness", []), ("harness_sync", "harness", ["--features", "sync"])):
    e = dict(os.environ, CARGO_TARGET_DIR=f"{V}/target/{t}", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "-q"] + args, cwd=f"{V}/{d}", env=e)
    if r.returncode: sys.exit(r.returncode)
