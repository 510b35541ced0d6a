#!/usr/bin/env python3
"""Runs a reported case again: replay.py PROPERTY FILE (.script: calls for the driver, .json: a run of a tool)."""
import json, os, shutil, sys, tempfile
import check, ifftools
prop, path = sys.argv[1:3]
work = tempfile.mkdtemp(prefix="iffreplay-")
c = check.Check(prop, work)
try:
    c.build()
    log = os.path.join(work, "log")
    if path.endswith(".json"):
        r = json.load(open(path))
        r["bin"] = c.path(r["tool"])
        with open(log, "w") as f:
            f.write(json.dumps(ifftools.execute(r, work, "0")) + "\n")
    elif path.endswith(".log"):
        shutil.copy(path, log)
    else:
        cases = []
        for l in open(path).read().split("\n"):
            if l.startswith("case "):
                cases.append((l[5:], []))
            elif l and cases:
                cases[-1][1].append(l)
        for tag in ("0", "3"):  # 3: released memory is used again at once
            log, crashes = c.drive(cases, tag)
            rej, counts = c.judge(log, tag)
            if rej:
                break
    if not path.endswith(".script"):
        rej, counts = c.judge(log, "0")
    for r in rej:
        print("rejected: " + " | ".join(r))
        print("event: " + open(log).read().split("\n")[int(r[3 if len(r) > 4 else 2]) - 1][:2000])
    print("VIOLATION" if rej else "held", counts)
finally:
    shutil.rmtree(work, ignore_errors=True)
