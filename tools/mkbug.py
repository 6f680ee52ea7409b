#!/usr/bin/env python3
"""
mkbug.py SPEC...   a SPEC is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO.
Makes /verif/seeded/<ID>/ and confirms: applies, stable tests pass, demo 0 without / nonzero with the patch; runs the check.
Everything happens in scratch copies of /repo under /tmp.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
BASE = "9a01272"
PRE = '''import os, sys, tempfile, atexit, shutil
_d = tempfile.mkdtemp()
atexit.register(lambda: shutil.rmtree(_d, ignore_errors=True))
os.chdir(_d)
os.environ["HOME"] = _d
for _k in [k for k in os.environ if k.startswith("BOOKTEST_")]:
    del os.environ[_k]
import booktest as bt

def report(books="books"):
    with open(books + "/.out/cases.txt") as f:
        return {l.split("\\t")[0]: l.split("\\t")[1] for l in f if l.strip()}
'''
SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def stable(repo, tag):
    work = tempfile.mkdtemp(prefix="vt-")
    s = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("/opt/booktest-work", work)
    p = os.path.join(work + ".sh")
    open(p, "w").write(s)
    o = work + ".json"
    sh(f"bash {p} {o}")
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open(o))
    passed = set(got["passed"])
    shutil.rmtree(work, ignore_errors=True)
    for x in (p, o):
        os.path.exists(x) and os.remove(x)
    return sorted(b - passed)


def main(spec, check=True):
    g = {}
    exec(open(spec).read(), g)
    bid = g["ID"]
    copy = f"/tmp/x-{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(f"cp -a /repo {copy}")
    for f, old, new in g["EDITS"]:
        p = f"{copy}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "NOT UNIQUE", f, s.count(old), repr(old[:60]))
            return
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    patch = sh(f"git -C {copy} diff").stdout
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(PRE + g["DEMO"])
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    a = sh(f"git -C /repo apply --check {d}/patch.diff")
    # lines of the original repository only
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1]
    mine = theirs = 0
    for f in {e[0] for e in g["EDITS"]}:
        blame = sh(f"git -C /repo blame -s -l --root {f}").stdout.split("\n")
        for l in sh(f"git -C {copy} diff -U0 -- {f}").stdout.split("\n"):
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                n = int(m.group(2)) if m.group(2) is not None else 1
                for i in range(int(m.group(1)), int(m.group(1)) + n):
                    if blame[i - 1].lstrip("^").startswith(BASE):
                        theirs += 1
                    else:
                        mine += 1
    if mine or not theirs:
        print(bid, f"WARNING: changes {theirs} original lines, {mine} of our own")
    missing = stable(copy, bid)
    good = subprocess.run(f"{d}/demo.sh", cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(f"{d}/demo.sh", cwd=copy, capture_output=True, text=True)
    ok = a.returncode == 0 and not missing and good.returncode == 0 and bad.returncode != 0
    print(bid, "confirmed" if ok else "NOT CONFIRMED", "apply", a.returncode, "failing", missing[:3], "demo", good.returncode,
          bad.returncode)
    if not ok:
        print(good.stdout[-800:], good.stderr[-1500:], "---", bad.stdout[-500:], bad.stderr[-800:])
    if check and ok:
        ev = f"/tmp/ev-{bid}"
        r = sh(f"VP_REPO={copy} VP_EVIDENCE={ev} {V}/run.sh {g['PROPERTY']}")
        print(bid, "CAUGHT" if r.returncode == 1 else f"MISSED ({r.returncode})",
              "\n".join(r.stdout.split("\n")[:4])[:600], r.stderr[-300:] if r.returncode not in (0, 1) else "")
        shutil.rmtree(ev, ignore_errors=True)
    shutil.rmtree(copy, ignore_errors=True)


for s in sys.argv[1:]:
    main(s)
