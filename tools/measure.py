#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs checks against it and undoes it.

measure.py [--all] [ID...]   results go to tools/detection.json
"""
import glob, json, os, subprocess, sys, time

allc = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
out = "/verif/tools/detection.json"
res = json.load(open(out)) if os.path.exists(out) else {}
man = json.load(open("/verif/MANIFEST.json"))
claimed = [c["property"] for c in man["checks"]]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob("/verif/seeded/*/")):
    i = os.path.basename(d[:-1])
    if ids and i not in ids:
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(i, "does not apply", r.stderr)
        continue
    try:
        run = claimed if allc else [prop] if prop in claimed else []
        caught, other = [], {}
        for p in run:
            t = time.time()
            r = subprocess.run(["bash", "/verif/check.sh", p], capture_output=True, text=True, cwd="/verif",
                               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                other[p] = (r.returncode, (r.stdout + r.stderr)[-300:])
            if p == prop:
                print(i, p, "CAUGHT" if p in caught else "MISSED", f"{time.time() - t:.0f}s", (r.stdout.splitlines() or [""])[1:2] if p in caught else "", flush=True)
        if not run:
            print(i, prop, "has no check")
        res[i] = {"property": prop, "caught_by": caught, "complete": allc, **({"errors": other} if other else {})}
        if other:
            print("   errors", other)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump(res, open(out, "w"), indent=1, sort_keys=True)
