#!/usr/bin/env python3
"""
Makes and confirms planted bugs: tools/seed.py SPEC.py [ID..]

SPEC.py defines SEEDS, a list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
Each is made in a scratch copy of /repo; seeded/<id>/ is written only if the tests
still pass and the demonstration tells the two trees apart. Then the property's quick check runs against the copy.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache",
           PYTHONHASHSEED="0")
REPO = os.environ.get("SEED_REPO", "/repo")
DEMO = """#!/bin/sh
# exit 0: the property holds on the tree in the current directory
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=.
exec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw.pop("env", {})), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def stable(cwd, out):
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "4", "-p", "no:cacheprovider", "test"], cwd)
    return "320 passed" in r.stdout, r.stdout[-300:]


def one(s, check=True):
    d = "/tmp/seed_%s" % s["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit: %d occurrences of %r" % (t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(ROOT, "seeded", s["id"])
        tmp = d + ".out"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        patch = run(["git", "diff"], d).stdout
        if not patch:
            return "empty patch"
        open(tmp + "/patch.diff", "w").write(patch)
        open(tmp + "/demo.py", "w").write(s["demo"].strip() + "\n")
        open(tmp + "/demo.sh", "w").write(DEMO)
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(tmp + "/meta.json", "w"), indent=1)
        ok, msg = stable(d, tmp)
        if not ok:
            return "tests fail: " + msg
        a = run(["sh", tmp + "/demo.sh"], REPO)
        if a.returncode:
            return "demo fails on the unchanged tree: " + a.stdout[-500:]
        b = run(["sh", tmp + "/demo.sh"], d)
        if not b.returncode:
            return "demo passes with the change"
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
        if not check:
            return "kept"
        c = run([os.path.join(ROOT, "check"), s["property"], "quick"], ROOT, env=dict(VERIF_REPO=d))
        return "kept; check exits %d: %s" % (c.returncode, " / ".join(c.stdout.strip().split("\n")[-4:])[:600])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".out", ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
            print("%-12s %s" % (s["id"], one(s)), flush=True)
