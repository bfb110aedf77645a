#!/usr/bin/env python3
"""Applies each planted change to /repo, runs the check of its property (or of every property named with -p), undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:]] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    t = time.time()
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3", V + "/check.py", prop], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, f"{time.time()-t:.0f}s", (v or [r.stdout[-300:]])[0], flush=True)
