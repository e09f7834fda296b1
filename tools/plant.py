#!/usr/bin/env python3
"""
Plant a bug: python3 tools/plant.py FILE...   FILE is a python file defining
ID, PROP, NEEDS, BREAKS, EDITS = [(path below src, old, new), ...] and DEMO (python 2 source; exits nonzero if broken).
Verifies everything the interface asks for, in a scratch worktree and (for the test suite) in /repo, which is restored.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export TZ=UTC LC_ALL=C.UTF-8
exec timeout 280 jython -Dpython.cachedir.skip=true -B "$here/demo.py" "$PWD/src"
"""
HEAD = """import sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
"""


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(json.load(open("/tmp/plant.json"))["passed"]))


def plant(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(VERIF, "seeded", g["ID"])
    w = "/tmp/plant_wt"
    sh("git", "-C", "/repo", "worktree", "remove", "--force", w)
    sh("git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD")
    try:
        for path, old, new in g["EDITS"]:
            p = os.path.join(w, "src", path)
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(HEAD + g["DEMO"].lstrip())
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
        orig = set()
        for path, _o, _n in g["EDITS"]:
            orig.update(sh("git", "-C", "/repo", "show", base + ":src/" + path).stdout.split("\n"))
        gone = [l[1:] for l in diff.decode("utf-8").split("\n") if l.startswith("-") and not l.startswith("---")]
        print(g["ID"], "original lines changed: %d of %d" % (len([l for l in gone if l in orig and l.strip()]), len(gone)))
        clean = sh("bash", d + "/demo.sh", cwd="/repo")
        bad = sh("bash", d + "/demo.sh", cwd=w)
        print(g["ID"], "clean", clean.returncode, "patched", bad.returncode)
        if clean.returncode or not bad.returncode:
            print(clean.stdout[-1500:], bad.stdout[-1500:])
            return False
        print("   patched says:", (bad.stdout.strip().split("\n") or [""])[-1][:200])
        assert sh("git", "-C", "/repo", "status", "--short").stdout == "", "dirty /repo"
        try:
            r = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
            assert r.returncode == 0, r.stdout
            b = sh("bash", "/opt/vp/build.sh")
            print("   build", b.returncode, "tests missing", tests())
            if len(sys.argv) > 2 and sys.argv[1] == "--check" or os.environ.get("CHECK"):
                c = sh("python3", "check.py", "run", g["PROP"], "quick", cwd=VERIF)
                rp = os.path.join(VERIF, "tools", "caught.json")
                res = json.load(open(rp)) if os.path.exists(rp) else {}
                res[g["ID"]] = "caught by %s quick" % g["PROP"] if c.returncode == 1 else "missed (exit %d)" % c.returncode
                json.dump(res, open(rp, "w"), indent=0, sort_keys=True)
                print("   check", c.returncode, [l[:160] for l in c.stdout.split("\n") if "VIOLATION" in l or "runs," in l or l.startswith("violation")])
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
    finally:
        sh("git", "-C", "/repo", "worktree", "remove", "--force", w)
        sh("bash", "-c", "find /repo -name '*$py.class' -delete")
    return True


for f in sys.argv[1:]:
    plant(f)
