#!/usr/bin/env python3
"""Tries hand-written edits against the checks.

usage: trial.py LANE FILE [NUMBER...]
FILE holds TRIALS = [(property, source file, old text, new text), ...]. Works on its own
copies under /tmp/mut/LANE. An edit that builds and passes the existing tests is given to
the check of its property and, if that is quiet, to the checks which might see it too.
Results are appended to /verif/work/trials.jsonl.
"""
import json, runpy, sys, time

lane, listing, only = sys.argv[1], sys.argv[2], set(map(int, sys.argv[3:]))
sys.argv = ["mutate.py", lane, "0", "0"]
m = runpy.run_path("/verif/tools/mutate.py", run_name="tool")
TRIALS = runpy.run_path(listing)["TRIALS"]
m["prepare"]()
for n, (prop, f, old, new) in enumerate(TRIALS):
    if only and n not in only:
        continue
    path = f"{m['REPO']}/{f}"
    src = open(path).read()
    if src.count(old) != 1:
        print(n, prop, "text found", src.count(old), "times:", old.strip()[:80], flush=True)
        continue
    t0 = time.time()
    rec = dict(n=n, property=prop, file=f, old=old, new=new)
    try:
        open(path, "w").write(src.replace(old, new))
        c = m["sh"](f". {m['VP']}/common.sh >/dev/null 2>&1; cd {m['REPO']}; cargo check --workspace --offline -q", executable="/bin/bash")
        if c.returncode != 0:
            rec["result"] = "does not build " + c.stderr[:300]
        elif not m["tests_pass"]():
            rec["result"] = "tests fail"
        else:
            code, what = m["check"](prop, 1)
            rec["result"] = "caught" if code == 1 and what.startswith("VIOLATION") else f"MISSED ({code})"
            if code not in (0, 1):
                rec["result"] += what[-300:]
            if rec["result"].startswith("MISSED"):
                for p in m["REST"]:
                    code, what = m["check"](p, 1) if p != prop else (0, "")
                    if code == 1 and what.startswith("VIOLATION"):
                        rec["result"] += " but caught by " + p
                        break
    finally:
        open(path, "w").write(src)
    rec["s"] = round(time.time() - t0)
    open("/verif/work/trials.jsonl", "a").write(json.dumps(rec) + "\n")
    print(n, prop, rec["result"], "|", " ".join(old.split())[:60], "->", " ".join(new.split())[:60], f"{rec['s']}s", flush=True)
