#!/usr/bin/env python3
"""
Mutation sweep: python3 tools/sweep.py SECONDS SEED [PROP...]

Takes a random small change (an operator, a constant, a condition, a statement left out) in a random function of
the files a property names, keeps it if the existing tests still pass, and runs that property's quick check against
it, all in copies below /tmp.  What survives goes to /tmp/sweep.jsonl to be looked at by hand: it is either
no change of behaviour, not this property's matter, or something the check misses.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sweep_repo"
V = "/tmp/sweep_verif"
T = "/tmp/sweep_tests"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
SKIP = re.compile(r"^(__repr__|__str__|test|_)|sort_|Comparator|usage")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def source(path):
    s = open(path).read()
    return re.sub(r"\b0+(?=[1-9]\b)", lambda m: " " * len(m.group(0)), s)


def mutants(path, rnd):
    try:
        tree = ast.parse(source(path))
    except SyntaxError:
        return []
    text = open(path).read()
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def span(n):
        return (starts[n.lineno - 1] + len(lines[n.lineno - 1].encode()[:n.col_offset].decode()),
                starts[n.end_lineno - 1] + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode()))
    out = []

    def add(fn, n, new, what):
        a, b = span(n)
        if text[a:b] != new:
            out.append((fn, n.lineno, a, b, new, what))

    def seg(n):
        a, b = span(n)
        return text[a:b]
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or (SKIP.search(fn.name) and fn.name not in ("__init__", "__eq__", "__ne__", "_getTimezone")):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(fn.name, n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "compare")
            elif isinstance(n, ast.BoolOp):
                add(fn.name, n, seg(rnd.choice(n.values)), "one side only")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(fn.name, n, "(%s)" % seg(n.operand), "not dropped")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(fn.name, n, str(not n.value), "bool")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                add(fn.name, n, str(n.value + rnd.choice((1, -1))), "constant")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.right, ast.Constant):
                add(fn.name, n, "%s %s %s" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "sign")
            elif isinstance(n, ast.If):
                add(fn.name, n.test, "(%s) and False" % seg(n.test), "never")
                add(fn.name, n.test, "(%s) or True" % seg(n.test), "always")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(fn.name, n, "pass", "left out")
                add(fn.name, n, "pass", "left out")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "duplicate" and not n.args:
                add(fn.name, n, seg(n.func.value), "not copied")
                add(fn.name, n, seg(n.func.value), "not copied")
    return out


def tests():
    log = T + "/log"
    if os.path.exists(log):
        os.unlink(log)
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", TMPDIR=T)
    try:
        sh("timeout", "-k", "5", "60", "jython", "-B", T + "/jy_tests.py", log, cwd=T, env=env)
    except Exception:
        return False
    passed = set(l.split(None, 1)[1].strip() for l in open(log) if l.startswith("PASS "))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return base <= passed


def purge():
    sh("find", W, "-name", "*$py.class", "-delete")


def main():
    end = time.time() + float(sys.argv[1])
    rnd = random.Random(int(sys.argv[2]))
    for d in (W, V, T):
        shutil.rmtree(d, ignore_errors=True)
    sh("git", "clone", "-q", os.environ.get("BASE", "/repo"), W)
    shutil.copytree(VERIF, V, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    os.makedirs(T)
    s = open("/opt/vp/jy_tests.py").read().replace("/repo/src", W + "/src")
    open(T + "/jy_tests.py", "w").write(s)
    props = {}
    for l in open(VERIF + "/properties.jsonl"):
        d = json.loads(l)
        props[d["id"]] = [f for f in json.dumps(d).split('"') if f.startswith("src/") and f.endswith(".py")]
    want = sys.argv[3:] or sorted(props)
    n = 0
    assert tests(), "tests do not pass"
    while time.time() < end:
        prop = want[n % len(want)]
        path = os.path.join(W, rnd.choice(props[prop]))
        ms = mutants(path, rnd)
        if not ms:
            continue
        fn, line, a, b, new, what = rnd.choice(ms)
        old = open(path).read()
        try:
            open(path, "w").write(old[:a] + new + old[b:])
            purge()
            if not tests():
                continue
            n += 1
            purge()
            t0 = time.time()
            env = dict(os.environ, VSIM_REPO=W, VERIF_SEED="1")
            p = sh("nice", "timeout", "900", "python3", V + "/check.py", "run", prop, "quick", cwd=V, env=env)
            kind = re.search(r"kind (\S+)", p.stdout)
            r = {"prop": prop, "file": os.path.relpath(path, W), "function": fn, "line": line, "what": what, "old": old[a:b][:300], "new": new[:300],
                 "rc": p.returncode, "kind": kind and kind.group(1), "s": round(time.time() - t0)}
            with open("/tmp/sweep.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")
        finally:
            open(path, "w").write(old)


main()
