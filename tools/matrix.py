#!/usr/bin/env python3
"""matrix.py [seed id prefix ...] [-- P01 P02 ...]: run checks (default: the
one of the bug's property) against scratch copies with one bug each."""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if "--" in args:
    props = args[args.index("--") + 1:]
    args = args[:args.index("--")]
SD = os.path.join(VERIF, "seeded")
for sid in sorted(os.listdir(SD)):
    if args and not any(sid.startswith(a) for a in args):
        continue
    d = os.path.join(SD, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    wt = "/tmp/matrix-wt"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns(".git"))
    subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + wt,
                    os.path.join(d, "patch.diff")], check=True, cwd="/")
    for p in props or [meta["property"]]:
        if not os.path.exists(os.path.join(VERIF, "checks",
                                           p.lower() + ".py")):
            print("%-28s %s no check" % (sid, p))
            continue
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "run.py", p, "quick"],
                           cwd=VERIF, env=dict(os.environ, VERIF_REPO=wt,
                                               VERIF_EVIDENCE="/tmp/matrix-ev"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
        state = "CAUGHT" if r.returncode == 1 and v else \
            "missed" if r.returncode == 0 else "ERROR %d" % r.returncode
        print("%-28s %s %-7s %5.1f s  %s" % (
            sid, p, state, time.time() - t,
            (r.stdout.strip().splitlines() or [""])[-3 if v else -1][:150]))
        if state.startswith("ERR"):
            print(r.stdout[-1500:])
        sys.stdout.flush()
    shutil.rmtree(wt, ignore_errors=True)
