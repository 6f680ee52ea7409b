#!/usr/bin/env python3
"""
Systematic mutants of booktest, to find out what the checks don't see (not a check itself).

mutate.py list                     the mutants: number, file:line, what
mutate.py run OUT [FROM [STEP]]    for every STEP-th mutant: stable tests, then the checks of the file with a part of their
                                   cases, until one raises an alarm; a line for each in OUT
Works in copies below /tmp/mut.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import time

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "testcaserun.py": "C02 C01 C23 C03 C04 C05 C30 C29 C28 C21 C06 C07 C17 C27 C11 C08",
    "testrun.py": "C10 C07 C09 C06 C17 C05 C24 C31 C29 C19 C22 C21 C15 C08 C11 C13",
    "runs.py": "C11 C13 C12 C24 C07 C22 C08 C33 C09 C19 C29 C17 C10",
    "tests.py": "C18 C09 C20 C19 C07 C06 C33 C31 C10 C29 C27 C26 C11 C08",
    "testsuite.py": "C31 C18 C26 C09 C10 C11",
    "reports.py": "C07 C06 C08 C29 C24 C27 C13 C11",
    "review.py": "C06 C07 C29 C27 C24 C19 C05 C08 C21 C20 C13 C11 C22",
    "cache.py": "C10 C09 C11",
    "dependencies.py": "C31 C10 C12 C09 C11 C26 C17",
    "detection.py": "C26 C22 C31",
    "config.py": "C19 C27",
    "env.py": "C16 C17 C32 C11",
    "functions.py": "C15 C17 C32 C11",
    "requests.py": "C14 C25 C32 C17 C11",
    "httpx.py": "C14 C25 C32 C17 C11",
    "naming.py": "C26 C18 C31",
    "tokenizer.py": "C01 C02 C23",
    "utils.py": "C22 C31 C17",
    "coroutines.py": "C05 C17 C16",
    "testbook.py": "C26 C31 C10",
    "setup.py": "C19",
    "cli.py": "C26 C19 C22 C07",
}
COST = {"C01": 6, "C02": 25, "C03": 20, "C04": 10, "C05": 11, "C06": 30, "C07": 30, "C08": 90, "C09": 35, "C10": 40, "C11": 45,
        "C12": 50, "C13": 30, "C14": 45, "C15": 20, "C16": 20, "C17": 30, "C18": 20, "C19": 20, "C20": 20, "C21": 45, "C22": 30,
        "C23": 12, "C24": 30, "C25": 15, "C26": 20, "C27": 10, "C28": 30, "C29": 8, "C30": 7, "C31": 6, "C32": 32, "C33": 45}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
        ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def seg(lines, node):
    """ offsets of the node in the text """
    def off(line, col):
        return sum(len(x) for x in lines[:line - 1]) + len(lines[line - 1].encode()[:col].decode())
    return off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)


def mutants_of(name):
    src = open(f"{REPO}/booktest/{name}").read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    out = []

    def put(node, text, what):
        a, b = seg(lines, node)
        new = src[:a] + text + src[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append((node.lineno, what, new))

    def text(node):
        a, b = seg(lines, node)
        return src[a:b]
    for n in ast.walk(tree):
        doc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
        if doc:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f"(not ({text(n.test)}))", f"not ({text(n.test)[:50]})")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            top = isinstance(parents.get(n), (ast.If, ast.While, ast.IfExp))
            if not top or isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                op = SWAP[type(n.ops[0])]
                put(n, f"{text(n.left)} {op} {text(n.comparators[0])}", f"{op}: {text(n)[:50]}")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [f"({text(v)})" for j, v in enumerate(n.values) if j != i]
                word = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + word.join(rest) + ")", f"without {text(n.values[i])[:50]}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and not isinstance(parents.get(n), (ast.If, ast.While)):
            put(n, f"({text(n.operand)})", f"without not: {text(n)[:50]}")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            put(n, f"{text(n.left)}", f"only the left: {text(n)[:50]}")
        if isinstance(n, ast.Expr) or isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(n, "pass", f"delete {text(n)[:50]}")
        if isinstance(n, ast.Assign) and not isinstance(parents.get(n), (ast.Module, ast.ClassDef)):
            # most locals would be missing: only attributes, elements and repeated assignments
            put(n, "pass", f"delete {text(n)[:50]}")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, "return None", f"return None: {text(n)[:50]}")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), f"{not n.value} at col {n.col_offset}: {lines[n.lineno - 1].strip()[:50]}")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), f"{n.value + 1} at col {n.col_offset}: {lines[n.lineno - 1].strip()[:50]}")
        if isinstance(n, ast.Call) and n.args and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "reversed",
                                                                                              "str", "copy") and len(n.args) == 1:
            put(n, text(n.args[0]), f"without {n.func.id}: {text(n)[:50]}")
        if isinstance(n, ast.Try) and n.finalbody:
            pass
    seen = set()
    rv = []
    for line, what, new in sorted(out, key=lambda x: x[:2]):
        if new not in seen and new != src:
            seen.add(new)
            rv.append((name, line, what, new))
    return rv


def all_mutants():
    rv = []
    for f in FILES:
        rv.extend(mutants_of(f))
    random.Random(7).shuffle(rv)
    return rv


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                             **kw)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def one(i, m, base):
    name, line, what, new = m
    d = f"/tmp/mut/r{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    w = f"/tmp/mut/w{i}"
    t0 = time.time()
    try:
        with open(f"{d}/booktest/{name}", "w") as f:
            f.write(new)
        s = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/booktest-work", w).replace("timeout -k 10 600", "timeout -k 5 90")
        with open(f"/tmp/mut/t{i}.sh", "w") as f:
            f.write(s)
        sh(f"bash /tmp/mut/t{i}.sh /tmp/mut/o{i}.json", 120)
        try:
            passed = set(json.load(open(f"/tmp/mut/o{i}.json"))["passed"])
        except Exception:
            passed = set()
        if base - passed:
            return "tests", ""
        for c in FILES[name].split():
            env = dict(os.environ, VP_REPO=d, VP_EVIDENCE=f"/tmp/mut/e{i}", VP_JOBS="1", VP_CASE_TIMEOUT="60",
                       VP_STRIDE=str(max(1, COST[c] * 8 // 25)), VERIF_TIER="quick")
            rc, out = sh(f"bash {V}/run.sh {c}", 300, env=env)
            if rc != 0:
                return c, out.strip().splitlines()[1][:150] if rc == 1 and len(out.splitlines()) > 1 else f"rc {rc} {out[-200:]!r}"
        return "NONE", ""
    finally:
        for x in (d, w, f"/tmp/mut/e{i}"):
            shutil.rmtree(x, ignore_errors=True)
        for x in (f"/tmp/mut/t{i}.sh", f"/tmp/mut/o{i}.json"):
            if os.path.exists(x):
                os.remove(x)


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        for i, m in enumerate(ms):
            print(i, f"{m[0]}:{m[1]}", m[2].replace("\n", " "))
        return
    if sys.argv[1] == "show":
        i = int(sys.argv[2])
        with open("/tmp/mut.py", "w") as f:
            f.write(ms[i][3])
        print(subprocess.run(["diff", "-U2", f"{REPO}/booktest/{ms[i][0]}", "/tmp/mut.py"], capture_output=True, text=True).stdout)
        return
    outp = sys.argv[2]
    start, step = int(sys.argv[3]) if len(sys.argv) > 3 else 0, int(sys.argv[4]) if len(sys.argv) > 4 else 1
    done = set()
    if os.path.exists(outp):
        done = {int(x.split("\t")[0]) for x in open(outp)}
    os.makedirs("/tmp/mut", exist_ok=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    todo = [i for i in range(start, len(ms), step) if i not in done]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(one, i, ms[i], base): i for i in todo}
        for f in concurrent.futures.as_completed(fs):
            i = fs[f]
            try:
                res = f.result()
            except Exception as e:
                res = ("ERROR", repr(e))
            with open(outp, "a") as h:
                h.write("\t".join([str(i), f"{ms[i][0]}:{ms[i][1]}", ms[i][2].replace("\n", " ").replace("\t", " "), res[0],
                                   res[1].replace("\t", " ").replace("\n", " ")]) + "\n")


main()
