#!/usr/bin/env python3
"""Rebuild /repo and run its tests; report stable tests that do not pass."""
import json, subprocess, sys, tempfile, os
f = tempfile.mktemp()
for c in (["bash", "/opt/vp/build.sh"], ["bash", "/opt/vp/test.sh", f]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(f) and c[1].endswith("test.sh") or (p.returncode and "build" in c[1]):
        print(p.stdout[-4000:]); sys.exit(1)
o = json.load(open(f)); os.remove(f)
b = json.load(open("/opt/vp/BASELINE.json"))
bad = [t for t in b["stable"] if t not in set(o["passed"])]
print("stable tests:", len(b["stable"]), "not passing:", bad)
sys.exit(1 if bad else 0)
