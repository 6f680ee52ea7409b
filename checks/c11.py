"""C11: a parallel run gives the results of a serial run."""
import argparse
import asyncio
import itertools
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import types

import booktest as bt
from booktest.detection import BookTestSetup
from mc import par, sched as S, world
from mc.core import REPO

ID = "C11"
TITLE = "A parallel run gives the results of a serial run"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "histories of two commands (8 combinations: plain, accepting, updating, continuing, refreshing, reviewing by name, verbose, "
             "snapshots) for all sequences of 2 tests out of 7 ways of ending and of 3 out of 4, with 4 dependency structures, run in "
             "different completion orders by 1-3 workers; 6 suites using files, logs, tables, measured values, snapshots, async tests, "
             "classes, set-up and dependencies x all completion orders of 4 tests; 10 families of 4 names that are alike or long; the main and scheduling threads delayed before every "
             "line they execute for 4 suites; projects run by real processes, with 12 ways of asking for a parallel run",
    "thorough": "all ways of ending for 3 tests, 4 tests, all completion orders"}
CASE_TIMEOUT = 400
CHUNK = 1
LIB = ["runs.py"]

ENDS = ["pass", "differ", "fail", "raise", "exit", "unpicklable", "new"]
SHAPES = {"free": lambda n: [[] for _ in range(n)],
          "chain": lambda n: [[i - 1] if i else [] for i in range(n)],
          "fan": lambda n: [[0] if i else [] for i in range(n)],
          "join": lambda n: [[] if i < n - 1 else list(range(n - 1)) for i in range(n)]}

# two commands in a row; after the first one the tests with an odd number end well
HISTORIES = [
    (([], ""), (["-c"], "")),
    ((["-a"], ""), (["-u"], "")),
    ((["-i"], {"a": (0, 2), "q": ()}), (["-c", "-a"], "")),
    (([], ""), (["-c", "-r", "s/t1"], "")),
    ((["-v", "-L"], ""), (["-v", "-c"], "")),
    ((["-I"], {"a": (1,), "q": ()}), (["-w", "-a"], "")),
    ((["s/t0"], ""), (["-r", "s/t1"], "")),
    ((["-s"], ""), (["-S", "-a"], "")),
]

# tests, whose names are alike, begin alike, or are long
X, Y = "x" * 100, "y" * 120
ALIKE = [
    ["a.b/c", "a/b.c", "a/b/c", "a.b.c"], [f"{X}/{X}/{X}", f"{X}/{X}/x", f"{Y}/{Y}", f"{X}.{X}"],
    ["s/t", "s/t.batch/cases", "s.batch/t", "s/t.d"], ["a-b/c", "a_b/c", "a/b_c", "a/b-c"], ["A/x", "a/X", "a/x", "A/X"],
    ["é/x", "e/x", "e/\u0301x", "E/é"], ["s/cases", "s/output", "cases/index", "s/metrics"], ["s/.batches/a", "s/a", "s/.a/a", "batches/a"],
    ["t", "t1", "t11", "t.1"], ["a:b/c", "a/b:c", "a,b", "a=b"]]
ALIKE_HISTORIES = [
    (([], ""), (["-c", "-a"], "")),
    ((["-a"], ""), (["-u"], "")),
    ((["-i"], {"a": (0, 2), "q": ()}), (["-c"], "")),
]


def cases(tier):
    rv = []
    for k in range(len(ALIKE)):
        for h in range(len(ALIKE_HISTORIES)):
            rv.append(["alike", k, h])
    for e in itertools.product(ENDS, repeat=2):
        for shape in ("free", "chain"):
            rv.append(["ends", list(e), shape])
    ends = ENDS[:4] if tier == "quick" else ENDS
    for e in itertools.product(ends, repeat=3):
        for shape in SHAPES:
            rv.append(["ends", list(e), shape])
    for k in range(len(RICH)):
        for h in range(len(HISTORIES)):
            rv.append(["rich", k, h])
    for k in (0, 1, 2, 4):
        for part in range(6):
            rv.append(["delay", k, part])
    for k in range(len(PROJECTS)):
        for args in PROJECT_ARGS:
            rv.append(["real", k, args])
    for how in HOWS[1:]:
        rv.append(["real", 0, PROJECT_ARGS[0], how])
    if tier != "quick":
        for e in itertools.product(ENDS[:4], repeat=4):
            for shape in SHAPES:
                rv.append(["ends", list(e), shape])
    return rv


# ------------------------------------------------------------------------------------------------------------ comparing

def masked(name, data):
    if name.endswith((".txt", ".log")):
        data = re.sub(rb"\d+(\.\d+)? ms", b"N ms", data)
        data = re.sub(rb'File "[^"]*", line \d+', b"File", data)
        data = re.sub(rb"0x[0-9a-f]+", b"0x", data)
    if name.endswith((".txt", ".md", ".log")):
        data = data.replace(b"'two/", b"'one/")
    if name.endswith((".txt", ".md")):
        # where an exception came from depends on the code around the test
        data = re.sub(rb"(?s)Traceback \(most recent call last\):.*?(?=\n\S)", b"Traceback", data)
    return data


def effects(books, out):
    """ what must be the same """
    rv = {}
    for k, v in world.tree(books).items():
        if v is None or k.startswith(".out/.batches") or k in (".out/metrics.json", ".out/output.txt"):
            continue
        if k == ".out/cases.txt":
            v = sorted((line.split("\t")[:2] for line in v.decode().splitlines()))
            names = [x[0] for x in v]
            if len(set(names)) != len(names):
                v = ["repeated"] + v
        else:
            v = masked(k, v)
        rv[k] = v
    rv["exit"] = bool(out.exit) if out.exc is None else out.exc_type
    rv["prompts"] = out.prompts
    tail = out.stdout
    rv["verdicts"] = sorted(re.findall(r"^(?:  |)(\S+?)(?:\.\.| )(?:log|.)*?(ok in|DIFFERED|FAILED|(?=\d+ ms$))", tail, re.M))
    m = re.search(r"^(\d+/\d+) test (failed|succeeded) in \d+ ms", tail, re.M)
    rv["summary"] = m and (m.groups(), sorted(re.findall(r"^  (\S+)$", tail[m.end():], re.M)))
    return rv


class Answers:
    def __init__(self, plan, names):
        self.plan, self.names = plan, names
        self.who = None

    def __call__(self, text, prompt):
        found = re.findall(r"^(?:  )?(\S+?)(?:\.\.| ok in | DIFFERED| FAILED)", text, re.M)
        found = [f for f in found if f in self.names]
        if found:
            self.who = found[-1]
        i = self.names.index(self.who) if self.who in self.names else -1
        if self.plan and i in self.plan["a"] and "(a)ccept" in prompt:
            return "a"
        return "c"


def execute(suite, books, args, plan, setup=None, parallel=None, **kw):
    names = suite.tests.all_names()
    args = list(args)
    if not any(a in names or a == "-w" for a in args) or "-w" in args:
        args = args + ["*"]
    ans = Answers(plan or None, names)
    if parallel is None:
        if setup is None:
            return world.execute(suite.tests, books, args, ans), None, None
        return world.call(lambda: par.command(suite.tests, books, args, setup), ans), None, None
    return par.run(suite, [f"--parallel-count={parallel}"] + args, books=books, answers=ans, setup=setup, **kw)


def compare(ctx, case, what, make, history, workers, prepare, fix=None, **kw):
    """ make() -> Suite; runs the history serially and in parallel from the same state """
    setup = kw.pop("setup", None)
    for d in ("one", "two"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    prepare("one")
    shutil.copytree("one", "two", dirs_exist_ok=True)
    s1, s2 = make(), make()
    steps = []
    first = None
    for k, (args, plan) in enumerate(history):
        if k and fix:
            fix(s1)
            fix(s2)
        review = "-w" in args
        a, _, _ = execute(s1, "one", args, plan, setup() if setup else None)
        b, s, hang = execute(s2, "two", args, plan, setup() if setup else None, None if review else workers, **kw)
        if k == 0:
            first = s
        ctx.trace()
        steps.append(args)
        label = f"{what}, {steps}, {workers} workers"
        if hang:
            ctx.bad(f"{label}: {hang}", case=case)
            return None
        ctx.step(s.steps if s else 1)
        if a.exc or b.exc:
            ctx.bad(f"{label}: serial {a.exc}\nparallel {b.exc}", case=case)
            return None
        x, y = effects("one", a), effects("two", b)
        ctx.state([label, repr(y)])
        ctx.outcome(f"exit {y['exit']}, {y['summary'] and y['summary'][0]}")
        if x != y:
            ctx.bad(f"{label}: serial and parallel run differ: {world.diff_tree(x, y)}\n{a.stdout[-800:]}\n----\n{b.stdout[-800:]}",
                    case=case)
            return None
    return first or True


# --------------------------------------------------------------------------------------------------------------- suites

def simple(ends, shape, durs):
    n = len(ends)
    deps = SHAPES[shape](n)

    def make():
        return par.Suite([{"name": f"s/t{i}", "deps": deps[i], "dur": durs[i], "end": ends[i], "log": i % 2 == 0, "file": i < 2}
                          for i in range(n)], body=None)
    return make


def prepare_simple(ends, shape):
    def prepare(books):
        su = simple(["pass"] * len(ends), shape, [0] * len(ends))()
        world.execute(su.tests, books, ["-a", "*"])
        shutil.rmtree(os.path.join(books, ".out"))
        for i, e in enumerate(ends):
            if e == "new":
                os.remove(f"{books}/s/t{i}.md")
                shutil.rmtree(f"{books}/s/t{i}", ignore_errors=True)
    return prepare


def fix_odd(su):
    for i, spec in enumerate(su.specs):
        if i % 2:
            spec["end"] = "pass"


mod = types.ModuleType("vpmod11")
exec("def f(x):\n    return [x, 1]\ndef g(x):\n    return x\n", mod.__dict__)
sys.modules["vpmod11"] = mod


def rich_writing(su):
    def t0(t):
        t.h1("title")
        t.tset(["a", "b", "c"])
        su.pause(su.durs[0])
        t.ttable({"x": [1, 2], "y": ["p", "q r"]})
        t.iln("free").keyvalueln("key:", "value")
        return {"k": [1, 2, None]}

    @bt.depends_on(t0)
    def t1(t, v):
        t.tln(repr(v))
        with open(t.file("a.txt"), "w") as f:
            f.write("file")
        with open(t.tmp_file("tmp.txt"), "w") as f:
            f.write("tmp")
        os.makedirs(t.file("sub/dir"))
        su.pause(su.durs[1])
        t.timage(t.file("a.txt"), "image")
        return None

    async def t2(t):
        t.tln("async")
        await asyncio.sleep(0)
        logging.getLogger().warning("warned")
        print("standard error ä", file=sys.stderr)
        su.pause(su.durs[2])
        logging.getLogger("x.y").error("later")
        t.assertln(True)
        t.it("list", [1, 2]).must_contain(1).must_equal([1, 2]).must_be_a(list)
        return ()

    @bt.depends_on(t1, t2)
    def t3(t, a, b):
        su.pause(su.durs[3])
        t.tln(f"{a!r} {b!r} äöü €")
        t.tdf(__import__("pandas").DataFrame({"a": [1.5, 2.5]}))
    return [t0, t1, t2, t3]


def rich_snapshots(su):
    @bt.snapshot_functions(mod.f)
    def t0(t):
        su.pause(su.durs[0])
        t.tln(str(mod.f(1)) + str(mod.f("a")))
        return mod.f(2)

    @bt.snapshot_env("VP11_A", "VP11_B")
    @bt.mock_env({"VP11_B": "mocked"})
    def t1(t):
        su.pause(su.durs[1])
        t.tln(f"{os.environ.get('VP11_A')} {os.environ.get('VP11_B')}")

    @bt.mock_functions({mod.g: lambda x: "mock"})
    @bt.snapshot_functions(mod.f)
    async def t2(t):
        t.tln(str(mod.g(1)) + str(mod.f(3)))
        su.pause(su.durs[2])
        t.tln(str(mod.f(4)))

    @bt.depends_on(t0)
    @bt.mock_missing_env({"VP11_C": "missing"})
    def t3(t, v):
        su.pause(su.durs[3])
        t.tln(f"{v} {os.environ.get('VP11_C')} {mod.g(5)}")
    return [t0, t1, t2, t3]


def rich_verdicts(su):
    def t0(t):
        su.pause(su.durs[0])
        t.tln("text").diff()
        t.tln("more")

    def t1(t):
        su.pause(su.durs[1])
        t.assertln(False, "no")
        t.tln("after")

    def t2(t):
        t.t("half a line")
        su.pause(su.durs[2])
        t.tlist(["a", "b"])
        t.anchorln("anchor")
        raise KeyError("key")

    def t3(t):
        su.pause(su.durs[3])
        t.h2("x").i("info ").tln("checked")
        t.must_equal = None
        t.tln(1.25)
    return [t0, t1, t2, t3]


def rich_resources(su):
    p, q = bt.port(1), bt.Resource({"conf": 1}, "q")

    @bt.depends_on(p)
    def t0(t, port):
        su.pause(su.durs[0])
        t.tln(str(port))
        return [port]

    @bt.depends_on(p, t0, q)
    def t1(t, port, v, conf):
        su.pause(su.durs[1])
        t.tln(f"{port} {v} {conf}")
        return v + [2]

    @bt.depends_on(q, t0)
    def t2(t, conf, v):
        su.pause(su.durs[2])
        t.tln(f"{conf} {v}")
        return v + [3]

    @bt.depends_on(t2, t1, p)
    def t3(t, a, b, port):
        su.pause(su.durs[3])
        t.tln(f"{a} {b} {port}")
    return [t0, t1, t2, t3]


def rich_setup(su):
    def t0(t):
        su.pause(su.durs[0])
        t.tln(os.environ.get("VP11_SETUP", "none"))
        logging.getLogger().info("info")
        logging.getLogger().debug("debug")

    def t1(t):
        su.pause(su.durs[1])
        t.tln(os.environ.get("VP11_SETUP", "none"))
        with open(t.file("x"), "wb") as f:
            f.write(bytes(range(256)))

    def t2(t):
        su.pause(su.durs[2])
        t.tln("x" * 20000)
        t.tln("ä" * 5000)

    def t3(t):
        t.tln("a\n\nb\n")
        su.pause(su.durs[3])
    return [t0, t1, t2, t3]


def project_setup():
    def gen():
        os.environ["VP11_SETUP"] = "set"
        yield
        os.environ.pop("VP11_SETUP", None)
    return BookTestSetup(gen)


def rich_class(su):
    class Book(bt.TestBook):
        def __init__(self, k):
            self.k = k
            super().__init__(f"s/b{k}")

        def test_a(self, t):
            su.pause(su.durs[self.k])
            t.tln(f"a{self.k}")
            return self.k

        @bt.depends_on(test_a)
        def test_b(self, t, a):
            su.pause(su.durs[2 + self.k])
            t.tln(f"b{self.k} {a}")
            with open(t.file("n"), "w") as f:
                f.write(str(a))
    return Book(0).cases + Book(1).cases


RICH = [rich_writing, rich_snapshots, rich_verdicts, rich_resources, rich_setup, rich_class]


class Rich:
    def __init__(self, k, durs):
        self.durs = durs
        self.sched = None
        self.specs = []
        fns = RICH[k](self)
        self.tests = bt.Tests(fns if isinstance(fns[0], list) else [[f"s/t{i}", f] for i, f in enumerate(fns)])

    def pause(self, seconds):
        if self.sched is not None and self.sched.me() is not None:
            self.sched.sleep(seconds)


def names_in(history, names):
    """ the histories name tests s/t0 and s/t1 """
    return [([names[int(a[3:])] if a.startswith("s/t") else a for a in args], plan) for args, plan in history]


def run(case, ctx):
    kind = case[0]
    S.SHARED[:] = [mod]
    os.environ["VP11_A"] = "a"
    for e in ("VP11_B", "VP11_C", "VP11_SETUP"):
        os.environ.pop(e, None)
    if kind == "ends":
        ends, shape = case[1], case[2]
        n = len(ends)
        vectors = [(0.001, 0.004, 0.009, 0.002)[:n], (0.009, 0.002, 0.0005, 0.001)[:n]]
        k = sum(ENDS.index(e) * 7 ** i for i, e in enumerate(ends)) + list(SHAPES).index(shape)
        hs = HISTORIES if n == 2 or ctx.tier != "quick" and n == 3 else [HISTORIES[k % 8], HISTORIES[(k * 3 + 1) % 8]]
        if ctx.tier != "quick" and n == 3:
            vectors = list(itertools.permutations((0.001, 0.004, 0.009)))
        prep = prepare_simple(ends, shape)
        prep("base")
        for j, h in enumerate(hs):
            for m, durs in enumerate(vectors):
                if compare(ctx, case, f"tests ending {ends}, {shape}, durations {durs}", simple(ends, shape, durs), h,
                           1 + (k + j + m) % 3, lambda d: shutil.copytree("base", d, dirs_exist_ok=True), fix_odd) is None:
                    return
    elif kind == "alike":
        names, h = ALIKE[case[1]], ALIKE_HISTORIES[case[2]]
        allow = ctx.tier != "quick"
        for ends in itertools.product(("pass", "differ", "raise"), repeat=4) if allow else \
                (("differ", "pass", "raise", "pass"), ("pass", "fail", "pass", "differ")):
            for deps in ([[], [], [], []], [[], [0], [1], [2]]):
                for durs in ((0.001, 0.004, 0.009, 0.002), (0.009, 0.002, 0.0005, 0.001)):
                    def make(e=ends):
                        return par.Suite([{"name": n, "deps": deps[i], "dur": durs[i], "end": e[i], "log": i % 2 == 0}
                                          for i, n in enumerate(names)])

                    def prepare(d):
                        world.execute(make(["pass"] * 4).tests, d, ["-a", "*"])
                        shutil.rmtree(os.path.join(d, ".out"))
                    if compare(ctx, case, f"tests {names} ending {ends}, dependencies {deps}, durations {durs}", make, h, 2,
                               prepare, fix_odd) is None:
                        return
    elif kind == "rich":
        k = case[1]
        orders = list(itertools.permutations((0.0005, 0.004, 0.009, 0.015)))
        base = Rich(k, (0,) * 4)
        for j, durs in enumerate(orders):
            for accepted in ((True, False) if j % 4 == 0 else (bool(j % 2),)):
                for w in ((1, 2, 4) if j == 0 else (2 + j % 3,)):
                    def prepare(d):
                        if accepted:
                            world.call(lambda: par.command(base.tests, d, ["-a", "-s", "*"], project_setup() if k == 4 else None))
                            shutil.rmtree(d + "/.out")
                    if compare(ctx, case, f"suite {RICH[k].__name__}, {'accepted' if accepted else 'new'}, durations {durs}",
                               lambda: Rich(k, durs), names_in(HISTORIES[case[2]], base.tests.all_names()), w, prepare,
                               setup=project_setup if k == 4 else None) is None:
                        return
    elif kind == "delay":
        k, part = case[1], case[2]
        durs = (0.003, 0.001, 0.004, 0.002)
        h = [(["-a"] if k % 2 else [], "")]
        opts = dict(setup=project_setup if k == 4 else None, trace_files=LIB)
        first = compare(ctx, case, RICH[k].__name__, lambda: Rich(k, durs), h, 2, lambda d: None, **opts)
        if first is None:
            return
        points = [(a, p, where) for a, ps in first.points.items() for p, where in ps]
        for a, p, where in points[part::6]:
            for d in (0.002, 0.4):
                if compare(ctx, case, f"{RICH[k].__name__}, {a} delayed by {d} before {where}", lambda: Rich(k, durs), h, 2,
                           lambda x: None, delays={(a, p): d}, **opts) is None:
                    return
    elif kind == "real":
        real(case, ctx)


# ------------------------------------------------------------------------------------------------------- real processes

PROJECTS = [{
    "book/a_book.py": '''
import os, time, logging, sys
import booktest as bt
class ABook(bt.TestBook):
    def test_one(self, t):
        t.h1("one")
        time.sleep(0.05)
        logging.getLogger().warning("warned")
        print("stderr", file=sys.stderr)
        with open(t.file("f.txt"), "w") as f:
            f.write("f")
        return [1, 2]
    @bt.depends_on(test_one)
    def test_two(self, t, v):
        t.tln(str(v))
        return None
    @bt.depends_on(test_two, test_one)
    async def test_three(self, t, n, v):
        t.tln(f"{n} {v}")
        t.tln(os.environ.get("SETUP", "none"))
    def test_four(self, t):
        t.assertln(False)
    def test_five(self, t):
        raise ValueError("five")
    def test_six(self, t):
        return lambda: 1
''', "book/__booktest__.py": '''
import os
def process_setup_teardown():
    os.environ["SETUP"] = "set"
    yield
    os.environ.pop("SETUP", None)
'''}, {
    "book/b_test.py": '''
import booktest as bt
import helper
@bt.snapshot_functions(helper.now)
def test_functions(t):
    t.tln(str(helper.now(1)))
    return helper.now(2)
@bt.depends_on(test_functions, bt.port(1))
@bt.snapshot_env("VP_ENV")
def test_env(t, v, port):
    import os
    t.tln(f"{port} {os.environ['VP_ENV']}")
@bt.mock_functions({helper.now: lambda x: "mocked"})
async def test_mock(t):
    t.tln(helper.now(3))
def test_exit(t):
    raise SystemExit(2)
''', "helper.py": '''
def now(x):
    return ["now", x]
''', "book/sub/c_book.py": '''
import booktest as bt
class Base(bt.TestBook):
    def test_a(self, t):
        t.tln(type(self).__name__)
        return type(self).__name__
    @bt.depends_on(test_a)
    def test_b(self, t, a):
        t.tln(a)
class CBook(Base):
    def test_c(self, t):
        t.tset({"x", "y"})
        t.ttable({"a": [1, 2]})
'''}]
PROJECT_ARGS = [["-s"], ["-a", "-s"], ["-c"]]
# the ways of asking for a parallel run
HOWS = ["-p2", "-p", "-p1", "-p16", "--parallel-count=3", "--parallel-count=1", "BOOKTEST_PARALLEL=True", "BOOKTEST_PARALLEL=1",
        "BOOKTEST_PARALLEL=2", "parallel=True", "parallel=1", "parallel=4"]


def real(case, ctx):
    project, args = PROJECTS[case[1]], case[2]
    how = case[3] if len(case) > 3 else "-p2"
    for name, text in list(project.items()) + [(".booktest", "test_paths=book\n")]:
        for d in ("one", "two"):
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
    history = [args, ["-c", "-s"], ["-v", "-L", "-a"]] if args == ["-s"] else [["-a", "-s"], args]
    for k, a in enumerate(history):
        got = []
        for d, extra in (("one", []), ("two", [how] if how[0] == "-" else [])):
            env = dict(os.environ, PYTHONPATH=REPO + ":" + os.path.abspath(d), HOME=ctx.dir, VP_ENV="value", PYTHONHASHSEED="0")
            if d == "two" and how.startswith("BOOKTEST_"):
                env.update([how.split("=")])
            if d == "two" and how.startswith("parallel"):
                with open("two/.booktest", "w") as f:
                    f.write(f"test_paths=book\n{how}\n")
            r = subprocess.run([sys.executable, "-B", "-m", "booktest"] + extra + a, cwd=d, env=env, capture_output=True, text=True,
                               timeout=120, stdin=subprocess.DEVNULL)
            out = world.Out()
            out.exit, out.stdout = r.returncode, r.stdout
            e = effects(os.path.join(d, "books"), out)
            got.append((e, r))
        ctx.trace()
        ctx.state([case, k])
        ctx.outcome(f"real, exit {got[0][0]['exit']}")
        if got[0][0] != got[1][0]:
            ctx.bad(f"project {case[1]}, {history[:k + 1]}, {how}: serial and parallel run differ: {world.diff_tree(got[0][0], got[1][0])}\n"
                    f"{got[0][1].stdout[-1000:]}{got[0][1].stderr[-1000:]}\n----\n{got[1][1].stdout[-1000:]}{got[1][1].stderr[-1000:]}",
                    case=case)
            return
        if not got[0][0]["summary"]:
            raise RuntimeError("the project did not run: " + got[0][1].stdout + got[0][1].stderr)
