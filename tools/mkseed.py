#!/usr/bin/env python3
"""mkseed.py bugs.py [id ...]: (re)create /verif/seeded/<id> from the BUGS list
of a Python file, after confirming that each patch builds, passes the tests and
makes its demonstration fail. Works on /repo and undoes every change."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def git(args):
    r = sh("git -C %s %s" % (REPO, args))
    assert r.returncode == 0, r.stdout
    return r.stdout


def foreign_lines():
    """Lines the change in the working tree removes which are not lines of
    the original repository."""
    import re
    bad, f = [], None
    for ln in git("diff -U0").splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", ln)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                b = git("blame -s -L %d,%d HEAD -- %s" % (a, a + n - 1, f))
                bad += [x for x in b.splitlines() if not x.startswith("^")]
    return bad


def demo(d):
    # a copy elsewhere, as when it counts
    t = "/tmp/seed-demo-copy"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    for x in ("patch.diff", "meta.json"):
        os.unlink(os.path.join(t, x)) if os.path.exists(
            os.path.join(t, x)) else None
    try:
        return sh("bash %s/demo.sh" % t, cwd=REPO, timeout=300)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    assert git("status --porcelain").strip() == "", "dirty /repo"
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        for x in ("vworld.py", "xcmstub.c"):
            shutil.copy(os.path.join(VERIF, "harness", x), d)
        shutil.copy(os.path.join(HERE, "seedlib", "demolib.py"), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# run with cwd /repo\n'
                    'd=$(cd "$(dirname "$0")" && pwd)\n'
                    'export VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                    'PYTHONHASHSEED=0\n'
                    'exec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["what"]}, f, indent=1)
            f.write("\n")
        problem = None
        try:
            for fn, old, new in b["edits"]:
                p = os.path.join(REPO, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    problem = "%s: old text occurs %d times" % (
                        fn, s.count(old))
                    break
                open(p, "w").write(s.replace(old, new))
            if problem is None:
                with open(os.path.join(d, "patch.diff"), "w") as f:
                    f.write(git("diff"))
                bad = foreign_lines()
                if bad:
                    print("%s: changes lines of ours: %s" % (b["id"], bad))
                r = sh("bash /opt/vp/build.sh")
                if r.returncode:
                    problem = "build: " + r.stdout
                else:
                    sh("bash /opt/vp/test.sh /tmp/seed-test.json")
                    t = json.load(open("/tmp/seed-test.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                    txt = json.dumps(t)
                    passed = t.get("passed", t.get("pass", []))
                    bad = [x for x in base if x not in passed]
                    if bad:
                        problem = "tests fail: %s %s" % (bad[:3], txt[:300])
                if problem is None:
                    r = demo(d)
                    if r.returncode == 0:
                        problem = "demo passes with the patch"
                    out = r.stdout
        finally:
            git("checkout -- .")
        if problem is None:
            r = demo(d)
            if r.returncode != 0:
                problem = "demo fails without the patch:\n" + r.stdout
        if problem:
            print("%-28s NOT KEPT: %s" % (b["id"], problem))
            shutil.rmtree(d)
        else:
            print("%-28s kept; with patch: %s" % (
                b["id"], out.strip().splitlines()[-1][:100]
                if out.strip() else ""))
            sys.stdout.flush()


main()
