"""C32: accepted recordings stay as they are until the test changes."""
import base64
import itertools
import json
import os
import shutil
import sys
import types

import httpx
import requests

from booktest.env import snapshot_env
from booktest.functions import snapshot_functions
from booktest.httpx import snapshot_httpx
from booktest.requests import snapshot_requests
from checks.c14 import OPTIONS
from mc import http, inline, world

ID = "C32"
TITLE = "Accepted recordings stay as they are until the test changes"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of up to 2 out of 12 operations (requests and httpx of 4 kinds each, 3 function calls, an environment "
             "variable), recorded with -s or -S, followed by each of 14 commands while the network, the functions and the "
             "environment have changed (a program of one operation: by all sequences of two commands); 9 sets of options x programs of up to 2 out of 5 requests x 2 libraries x the commands; every pair of programs "
             "of up to 2 out of 6 operations, and of sets of 3 environment variables: the one recorded, then the other one "
             "completed",
    "thorough": "sequences of two commands after all programs, of three after programs of one operation; pairs of programs of up "
                "to 2 out of 12 and of up to 3 out of 4 operations"}
CASE_TIMEOUT = 200
CHUNK = 4

OPS = ["ra", "rp", "rr", "rbin", "xa", "xp", "xgz", "xc", "f1", "f2", "m1", "eA"]
PAIR = ["ra", "rp", "xa", "xc", "f1", "eA"]
OPTION_OPS = ["ra", "rh", "ri", "rp", "rJ", "xa", "xh", "xi", "xp", "xJ"]
LONG = ["ra", "xa", "f1", "f2"]
ENVS = ["eA", "eB", "eC"]
VERSION = [0]


def f(x, **kw):
    return {"f": x, "v": VERSION[0], "kw": sorted(kw)}


class Obj:
    def m(self, x):
        return ["m", x, VERSION[0]]


MOD = types.ModuleType("vpc32")
MOD.f = f
f.__module__ = "vpc32"
sys.modules["vpc32"] = MOD
OBJ = Obj()
NAME = "s/a"


class Project:
    """ one test whose operations can be changed, another one that stays, and the world around them """

    def __init__(self, books="books", option="default"):
        self.server, self.books, self.options = http.Server(), books, OPTIONS[option]
        self.ops, self.end = [], None

    def test(self, ops, end=None):
        def body(t):
            self.ran += 1
            t.h1("test")
            with requests.Session() as s, http.hx_client() as c:
                for o in ops:
                    if o[0] == "r":
                        t.tln(f"{o} {http.rq_call(s.request, o[1:])[0]}")
                    elif o[0] == "x":
                        t.tln(f"{o} {http.hx_call(c, o[1:])[0]}")
                    elif o == "m1":
                        OBJ.m("ä")
                    elif o[0] == "f":
                        MOD.f(int(o[1:]), **({"k": None} if o == "f2" else {}))
                    elif o[0] == "e":
                        t.iln(str(os.environ.get("VP_" + o[1:])))
            if end == "differ":
                t.tln(f"changed {VERSION[0]}")
            if end == "raise":
                raise ValueError("x")
            if end == "fail":
                t.fail()
        names = sorted({"VP_" + o[1:] for o in ops if o[0] == "e"})
        for d in (snapshot_httpx(**self.options), snapshot_requests(**self.options), snapshot_functions(MOD.f, OBJ.m), snapshot_env(*names)):
            body = d(body)
        return body

    def run(self, args, ops, version, end=None, answers=(), only=True):
        VERSION[0] = version
        for n in "ABC":
            os.environ["VP_" + n] = f"v{version}"
        self.server.reset(version)
        self.ran = 0
        tests = world.tests_of([("s/a", self.test(ops, end)), ("s/ab", self.test(["rb", "xa", "f3", "eA"]))])
        keep = MOD.f, dict(os.environ)
        with http.network(self.server):
            if any(a.startswith("-p") for a in args):
                with inline.pool():
                    out = world.execute(tests, self.books, list(args) + (["s/a"] if only else ["*"]), answers)
            else:
                out = world.execute(tests, self.books, list(args) + (["s/a"] if only else ["*"]), answers)
        if (MOD.f, dict(os.environ)) != keep:
            out.exc = "the function or the environment is not restored"
        return out

    def verdict(self, name=NAME):
        return world.report(self.books).get(name)


# command, how the test ends, answers; whether it may change what is stored
COMMANDS = [
    ([], None, ()), (["-s"], None, ()), (["-a"], None, ()), (["-u"], None, ()), (["-s", "-a", "-u"], None, ()),
    (["-p2"], None, ()), (["-p2", "-s", "-a"], None, ()), (["-i"], None, ()),
    ([], "differ", ()), (["-s"], "differ", ()), (["-i"], "differ", ("c",)), (["-i", "-s"], "differ", ("q",)),
    (["-s", "-a"], "raise", ()), (["-s", "-a", "-u"], "fail", ()),
]


def cases(tier):
    rv = []
    quick = tier == "quick"
    for k in range(3):
        for s in itertools.product(OPS, repeat=k):
            rv.append(["stable", list(s), (2 if k < 2 else 1) if quick else (3 if k < 2 else 2)])
    for option in OPTIONS:
        for k in (1, 2):
            for s in itertools.product(OPTION_OPS, repeat=k):
                if len({o[0] for o in s}) == 1:
                    rv.append(["stable", list(s), 1, option])
    for k in range(3):
        for s in itertools.product(PAIR if quick else OPS, repeat=k):
            rv.append(["change", list(s), "pair"])
    for k in range(4):
        for s in itertools.combinations(ENVS, k):
            rv.append(["change", list(s), "env"])
    if not quick:
        for s in itertools.product(LONG, repeat=3):
            rv.append(["change", list(s), "long"])
    return rv


def entries(books):
    """ every recording of the test by what it is a recording of """
    rv = {}
    base = os.path.join(books, NAME)
    for p, content in world.snapshots(base).items():
        top = p.split("/")[0]
        if not top.startswith("."):
            continue
        if "/" in p:
            rv[p] = json.loads(content)
        else:
            for k, v in json.loads(content).items():
                rv[f"{top}/{k}"] = v
    return rv


def proposed(books):
    """ the recordings of the last run """
    return {k: v for k, v in world.tree(os.path.join(books, ".out", NAME)).items() if v is not None and k.startswith(".")}


def stored(books):
    return {k: v for k, v in world.snapshots(os.path.join(books, NAME)).items() if k.startswith(".")}


def restore(books):
    shutil.rmtree("books", ignore_errors=True)
    shutil.copytree(books, "books")


def run_stable(case, ctx):
    ops, depth = case[1:3]
    p = Project(option=case[3] if len(case) > 3 else "default")
    first = None
    for flag in ("-s", "-S"):
        shutil.rmtree("books", ignore_errors=True)
        out = p.run([flag, "-a"], ops, 1, only=False)
        ctx.trace()
        ctx.step(len(ops))
        rec = world.snapshots("books")
        if out.exc or p.verdict() != "OK" or not stored("books"):
            ctx.bad(f"{ops}: recording with {flag}: {out.exc or p.verdict()}")
            return
        if first is not None and rec != first:
            ctx.bad(f"{ops}: recording the same again gives something else: {world.diff_tree(first, rec)}")
            return
        first = rec
        # refreshing what has not changed
        out = p.run(["-S"], ops, 1)
        if p.verdict() != "OK" or proposed("books") != stored("books") or world.snapshots("books") != rec:
            ctx.bad(f"{ops}: refreshing what is the same: {p.verdict()} "
                    f"{world.diff_tree(stored('books'), proposed('books'))} {world.diff_tree(rec, world.snapshots('books'))}")
            return
    shutil.rmtree("keep", ignore_errors=True)
    os.rename("books", "keep")
    for k in range(1, depth + 1):
        for seq in itertools.product(range(len(COMMANDS)), repeat=k):
            if k > 2 and len(set(seq)) < 2:
                continue
            restore("keep")
            for n, i in enumerate(seq):
                args, end, answers = COMMANDS[i]
                out = p.run(args, ops, 2 + n, end, answers)
                v = p.verdict()
                ctx.trace()
                ctx.step(len(ops) + 1)
                want = {"raise": "FAIL", "fail": "FAIL", "differ": "DIFF"}.get(end, "OK")
                ctx.outcome(f"{args} {end} {v}")
                msg = None
                if out.exc or v != want or p.ran != 1:
                    msg = f"{out.exc or v} instead of {want}, ran {p.ran} times"
                elif world.snapshots("books") != rec:
                    msg = f"what is stored changes: {world.diff_tree(rec, world.snapshots('books'))}"
                elif end in (None, "differ") and proposed("books") not in (stored("books"), {}):
                    msg = f"what is recorded differs: {world.diff_tree(stored('books'), proposed('books'))}"
                elif p.server.calls:
                    msg = f"{len(p.server.calls)} requests went out"
                if msg:
                    ctx.bad(f"{ops}: recorded, then {[COMMANDS[j] for j in seq[:n + 1]]}: {msg}")
                    return
            ctx.state([ops, seq])


def norm(e):
    return json.dumps(e, sort_keys=True)


def run_change(case, ctx):
    _, ops, which = case
    p = Project()
    shutil.rmtree("books", ignore_errors=True)
    p.run(["-s", "-a"], ops, 1, only=False)
    if p.verdict() != "OK":
        ctx.bad(f"{ops}: recording: {p.verdict()}")
        return
    old = entries("books")
    shutil.rmtree("keep", ignore_errors=True)
    os.rename("books", "keep")
    base = PAIR if ctx.tier == "quick" else OPS
    others = [list(s) for k in range(3) for s in itertools.product(base, repeat=k)] if which == "pair" else \
        [list(s) for k in range(4) for s in itertools.combinations(ENVS, k)] if which == "env" else \
        [list(s) for k in range(4) for s in itertools.product(LONG, repeat=k)]
    for now in others:
        # what the changed test alone records
        fresh = FRESH.get(tuple(now))
        if fresh is None:
            shutil.rmtree("fresh", ignore_errors=True)
            q = Project("fresh")
            q.run(["-s", "-a"], now, 2)
            fresh = FRESH[tuple(now)] = entries("fresh") if q.verdict() == "OK" else None
            if fresh is None:
                ctx.bad(f"{now}: recording: {q.verdict()}")
                return
        for args in ([["-s", "-a", "-u"], ["-a", "-u"]] if set(fresh) <= set(old) else [["-s", "-a", "-u"]]):
            if not changed(p, args, ops, now, old, fresh, ctx):
                return


def changed(p, args, ops, now, old, fresh, ctx):
    restore("keep")
    other = world.snapshots("books/s/ab")
    p.run(args, now, 2)
    ctx.trace()
    ctx.step(len(now))
    ctx.state([ops, now])
    new = entries("books")
    msg = None
    if p.verdict() != "OK":
        msg = p.verdict()
    elif set(new) != set(fresh):
        msg = f"recordings missing {sorted(set(fresh) - set(new))}, left over {sorted(set(new) - set(fresh))}"
    elif any(norm(new[k]) != norm(old[k]) for k in new if k in old):
        msg = f"changed {[(old[k], new[k]) for k in new if k in old and norm(new[k]) != norm(old[k])][:1]}"
    elif world.snapshots("books/s/ab") != other:
        msg = "the recordings of another test change"
    else:
        # new ones are of the present
        for k in new:
            if k not in old and ".env" not in k:
                text = norm(new[k])
                c = new[k].get("response", {}).get("content") if isinstance(new[k], dict) else None
                if k.startswith(".httpx") and c:
                    text += base64.b64decode(c).decode("utf-8", "replace")
                if "v1 " in text or '"v": 1' in text:
                    msg = f"{k} is of the past"
            elif k not in old and new[k] != "v2":
                msg = f"{k} is {new[k]}"
    if msg is None:
        p.run([], now, 3)
        if p.verdict() != "OK" or p.server.calls or norm(entries("books")) != norm(new):
            msg = f"the next run: {p.verdict()}, {len(p.server.calls)} requests"
    if msg:
        ctx.bad(f"recorded {ops}, then {args} {now}: {msg}")
    return msg is None


FRESH = {}


def run(case, ctx):
    ctx.state(case)
    old = dict(os.environ)
    try:
        globals()["run_" + case[0]](case, ctx)
    finally:
        os.environ.clear()
        os.environ.update(old)
