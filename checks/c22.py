"""C22: set-up and tear-down bracket every run exactly once."""
import argparse
import asyncio
import itertools
import os
import shutil
import subprocess
import sys

import booktest as bt
from booktest.detection import BookTestSetup
from mc import inline, interrupt, world
from mc.core import REPO

ID = "C22"
TITLE = "Set-up and tear-down bracket every run exactly once"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of up to 2 tests out of 10 ways of ending x 10 run modes, of 3 tests x 4 of them (serial, interactive with each answer, fail "
             "fast, continue, accept, parallel with 1 and 2 workers); the set-up decorator: all nestings of up to 3 out of 6 "
             "decorators x 10 ways of ending x function, async, method; an interrupt at every executed line of a run; all "
             "layouts of the project set-up in 2 directories found by the command line; real processes, serial and parallel",
    "thorough": "sequences of up to 4 tests; nestings of 4"}
CASE_TIMEOUT = 240
CHUNK = 2

ENDS = ["pass", "differ", "fail", "raise", "exit", "interrupt", "value", "cancel", "assert", "stop"]
MODES = [[], ["-a"], ["-f"], ["-c"], ["-p1"], ["-p2"], ["-p2", "-f"], ["-i", "c"], ["-i", "q"], ["-i", "a"]]
MODES3 = [[], ["-f"], ["-p2", "-f"], ["-i", "q"]]
DECS = ["s1", "s2", "s3", "mock", "bad", "same"]
KINDS = ["function", "async", "method"]


def cases(tier):
    rv = []
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for ends in itertools.product(ENDS if k < 3 else ENDS[:8], repeat=k):
            rv.append(["run", list(ends)])
    for kind in KINDS:
        for k in range(1, n + 1):
            for s in itertools.permutations(DECS, k):
                if kind == "function" or k < 3:
                    rv.append(["nest", kind, list(s)])
    for part in range(48):
        rv.append(["sigint", part, 48])
    for i in range(len(LAYOUTS)):
        rv.append(["layout", i])
    for args in ([], ["-p2"], ["-p1"], ["-f"]):
        rv.append(["real", args])
    return rv


class Suite:
    def __init__(self, ends, extra=lambda f: f):
        self.log = []
        self.names = [f"s/t{i}" for i in range(len(ends))]
        self.tests = world.tests_of([(n, extra(self.make(n, e))) for n, e in zip(self.names, ends)])

    def make(self, name, end):
        def test(t):
            self.log.append(name)
            return finish(t, end)
        if end == "cancel":
            async def test2(t):
                await asyncio.sleep(0)
                return test(t)
            return test2
        return test

    def setup(self):
        def gen():
            self.log.append("setup")
            yield
            self.log.append("teardown")
        return BookTestSetup(gen)

    def run(self, args, answers=(), default="c", setup=None):
        parser = argparse.ArgumentParser()
        self.tests.setup_parser(parser)
        parsed = parser.parse_args(args)
        self.log.clear()
        return world.call(lambda: self.tests.exec_parsed("books", parsed, setup=setup or self.setup()), answers, default)


def finish(t, end):
    t.tln("bad" if end == "differ" else "good")
    if end == "fail":
        t.fail()
    if end == "raise":
        raise ValueError("raised")
    if end == "assert":
        assert False, "asserted"
    if end == "stop":
        raise StopIteration()
    if end == "exit":
        sys.exit(1)
    if end == "interrupt":
        raise KeyboardInterrupt()
    if end == "cancel":
        raise asyncio.CancelledError()
    if end == "value":
        return lambda: 0


VERDICT = {"pass": "OK", "differ": "DIFF", "fail": "FAIL", "raise": "FAIL", "exit": "FAIL", "value": "FAIL",
           "interrupt": None, "cancel": "FAIL", "assert": "FAIL", "stop": "FAIL"}


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_run(case, ctx):
    ends = case[1]
    s = Suite(ends)
    for mode in MODES if len(ends) < 3 or ctx.tier != "quick" else MODES3:
        shutil.rmtree("books", ignore_errors=True)
        os.makedirs("books/s")
        for n in s.names:
            with open(f"books/{n}.md", "w") as f:
                f.write("good\n")
        if mode == ["-c"] and s.names:
            os.makedirs("books/.out")
            with open("books/.out/cases.txt", "w") as f:
                f.write(f"{s.names[0]}\tOK\t1.0\n")
        answer = mode[1] if mode[:1] == ["-i"] else "c"
        args = [m for m in mode if m.startswith("-")] + ["*"]
        with inline.pool():
            out = s.run(args, lambda text, prompt: answer if answer != "a" or "(a)ccept" in prompt else "c")
        ctx.trace()
        ctx.step(len(s.log))
        ctx.state([ends, mode])
        log = s.log
        parallel = mode[:1] in (["-p1"], ["-p2"])
        msg = None
        if parallel:
            # every test's execution has its own
            ran = [x for x in log if x not in ("setup", "teardown")]
            if log != [y for x in ran for y in ("setup", x, "teardown")]:
                msg = "not every test is bracketed once"
            if "-f" not in mode and sorted(ran) != sorted(s.names):
                msg = f"tests executed: {ran}"
        else:
            want = []
            for n, e in zip(s.names, ends):
                if mode == ["-c"] and n == s.names[0]:
                    continue
                want.append(n)
                if VERDICT[e] is None:
                    break
                bad = VERDICT[e] != "OK"
                if answer == "a" and VERDICT[e] == "DIFF" or "-a" in mode and VERDICT[e] == "DIFF":
                    bad = False
                if bad and ("-f" in mode or answer == "q"):
                    break
            if log != ["setup", *want, "teardown"] and not (not want and log == []):
                msg = f"expected set-up, {want}, tear-down"
        ctx.outcome(f"{'parallel' if parallel else 'serial'} {len(log)}")
        if out.exc and not (set(ends) & {"interrupt"} and not parallel):
            msg = out.exc
        if msg:
            ctx.bad(f"tests ending {ends}, {mode}: {log}: {msg}", case=case)
            return


def run_nest(case, ctx):
    _, kind, stack = case
    log = []

    def gen(name, bad=False):
        def g():
            log.append("+" + name)
            if bad:
                raise ValueError("the set-up fails")
            yield
            log.append("-" + name)
        return g
    shared = gen("same")
    decs = {"s1": bt.setup_teardown(gen("s1")), "s2": bt.setup_teardown(gen("s2")), "s3": bt.setup_teardown(gen("s3")),
            "mock": bt.mock_env({"VP_M": "m"}), "bad": bt.setup_teardown(gen("bad", True)),
            "same": bt.combine_decorators(bt.setup_teardown(shared), bt.setup_teardown(shared))}
    for end in ENDS:
        def body(t):
            log.append("body " + str(os.environ.get("VP_M")))
            return finish(t, end)
        if kind == "async":
            async def fn(t):
                await asyncio.sleep(0)
                try:
                    return body(t)
                finally:
                    await asyncio.sleep(0)
        elif kind == "method":
            fn = lambda self, t: body(t)
        else:
            fn = lambda t: body(t)
        for d in reversed(stack):
            fn = decs[d](fn)
        if kind == "method":
            class SetupBook(bt.TestBook):
                def __init__(self):
                    super().__init__("s")
                test_a = fn
            tests = bt.Tests(SetupBook().cases)
        else:
            tests = world.tests_of([("s/a", fn)])
        want = []
        undo = []
        for d in stack:
            if d == "mock":
                continue
            for name in (["same", "same"] if d == "same" else [d]):
                want.append("+" + name)
                undo.insert(0, "-" + name)
            if d == "bad":
                undo.pop(0)
                break
        else:
            want.append("body " + ("m" if "mock" in stack else "None"))
        want += undo
        for args in ([], ["-p1"], []):
            log.clear()
            with inline.pool():
                out = world.execute(tests, "books", args + ["*"])
            ctx.trace()
            ctx.step(len(log))
            ctx.state([case, end, args])
            ctx.outcome(end)
            if log != want or (out.exc and end != "interrupt"):
                ctx.bad(f"{kind} with {stack} ending {end}, {args}: {log}, expected {want} {out.exc or ''}", case=case)
                return


def run_sigint(case, ctx):
    _, part, parts = case[:3]
    ends = ["pass", "pass", "differ", "raise", "pass"]
    s = Suite(ends, bt.setup_teardown(lambda: iter([1])))
    files = tuple(f"{REPO}/booktest/{x}.py" for x in ("testrun", "testcaserun", "review", "reports", "tokenizer", "dependencies"))
    match = lambda c: c.co_filename in files or c.co_filename == __file__ and c.co_name in ("test", "finish")
    with interrupt.Points(match) as p:
        s.run(["*"])
    n = p.count
    k = case[3] if len(case) > 3 else part
    outside = 0
    while k < n + parts:
        shutil.rmtree("books", ignore_errors=True)
        with interrupt.Points(match, k) as p:
            out = s.run(["*"])
        ctx.trace()
        ctx.step()
        ctx.state(p.where)
        log = s.log
        ctx.outcome(f"{out.exc_type or 'ended'} {len(log)}")
        names = [x for x in log if x not in ("setup", "teardown")]
        ok = log == ["setup", *names, "teardown"] and names == s.names[:len(names)]
        if not ok and not (log == [] and out.exc_type == "KeyboardInterrupt"):
            ctx.bad(f"interrupted at line event {k} ({p.where}): {log}", case=[*case[:3], k])
            return
        if len(case) > 3:
            break
        k += parts


SETUP = """
def process_setup_teardown():
    with open({log!r}, "a") as f:
        f.write("setup {name}\\n")
    yield
    with open({log!r}, "a") as f:
        f.write("teardown {name}\\n")
"""
TEST = """
def test_x(t):
    with open({log!r}, "a") as f:
        f.write("{name}\\n")
    t.tln("x")
"""
# where the set-up is: (files, expected name or None)
LAYOUTS = [({}, None), ({"ta/__booktest__.py": "a"}, "a"), ({"tb/__booktest__.py": "b"}, "b"),
           ({"tb/sub/__booktest__.py": "bs"}, "bs"), ({"tc/__booktest__.py": "c"}, None), ({"__booktest__.py": "r"}, None),
           ({"ta/booktest.py": "n"}, None), ({"ta/__booktest__.py": "a:imported"}, "a"), ({"ta/__booktest__.py": "a:default"}, "a"),
           ({"ta/__booktest__.py": "a:wrapped"}, "a"), ({"ta/__booktest__.py": "a:others"}, "a"), ({"tb/__booktest__.py": "b:others"}, "b"),
           ({"ta/__booktest__.py": ":none"}, None)]
FORMS = {
    "imported": ("from lib import process_setup_teardown\n", True),
    "default": ("from lib import process_setup_teardown as original\n"
                "def process_setup_teardown(a=1, *, b=2):\n    yield from original()\n", True),
    "wrapped": ("import functools, contextlib, lib\n@functools.wraps(lib.process_setup_teardown)\n"
                "def process_setup_teardown():\n    yield from lib.process_setup_teardown()\n", True),
    "others": ("from lib import process_setup_teardown as zz_other\ndef a_setup():\n    yield\n"
               "class Before:\n    def process_setup_teardown(self):\n        yield\n"
               "def process_setup_teardown():\n    yield from zz_other()\n"
               "def setup_teardown():\n    yield\ndef zz_process_setup_teardown():\n    yield\nprocess_setup = 1\n", True),
    "none": ("process_setup = 1\ndef setup_teardown():\n    yield\n", False),
}


def make_project(files, log):
    for d in ("ta", "tb", "tb/sub", "tc"):
        os.makedirs(d, exist_ok=True)
    for f, name in files.items():
        name, form = name.split(":") if ":" in name else (name, None)
        with open(f, "w") as h:
            h.write(FORMS[form][0] if form else SETUP.format(log=log, name=name))
        if form:
            with open("lib.py", "w") as h:
                h.write(SETUP.format(log=log, name=name))
    for f, name in (("ta/x_test.py", "ta"), ("tb/y_test.py", "tb"), ("tb/sub/z_test.py", "tbs")):
        with open(f, "w") as h:
            h.write(TEST.format(log=log, name=name))


def run_layout(case, ctx):
    files, name = LAYOUTS[case[1]]
    log = os.path.abspath("log")
    make_project(files, log)
    for args in ([], ["-p1"], ["-f", "-a"], ["ta"], ["tb/sub"], ["-l"]):
        def go():
            # a process that has read no configuration yet
            for m in [m for m in sys.modules if m.split(".")[0] == "booktest"]:
                del sys.modules[m]
            import booktest.cli
            os.environ["BOOKTEST_TEST_PATHS"] = "ta,tb"
            os.environ["BOOKTEST_DEFAULT_TESTS"] = "ta,tb"
            with inline.pool():
                out = world.call(lambda: booktest.cli.main(args))
            return out.exc
        if os.path.exists(log):
            os.remove(log)
        shutil.rmtree("books", ignore_errors=True)
        kind, exc = ctx.forked(go)
        got = (world.read(log) or b"").decode().split()
        text = (world.read(log) or b"").decode().split("\n")[:-1]
        tests = {"ta": ["ta"], "tb/sub": ["tbs"], "-l": []}.get(args[-1] if args else "", ["ta", "tb", "tbs"])
        ran = [x for x in text if not x.startswith(("setup", "teardown"))]
        if args == ["-p1"]:
            want = [y for x in ran for y in ([f"setup {name}", x, f"teardown {name}"] if name else [x])]
        elif args == ["-l"]:
            want = []
        else:
            want = ([f"setup {name}"] if name else []) + ran + ([f"teardown {name}"] if name else [])
        ctx.trace()
        ctx.step(len(text))
        ctx.state([case, args])
        if kind != "ok" or exc or text != want or sorted(ran) != sorted(tests):
            ctx.bad(f"set-up files {sorted(files)}, arguments {args}: {text}, expected {want} around {tests} {exc or kind}",
                    case=case)
            return


def run_real(case, ctx):
    """ real processes """
    log = os.path.abspath("log")
    make_project({"ta/__booktest__.py": "a"}, log)
    with open("ta/w_test.py", "w") as f:
        f.write(f"import sys\ndef test_f(t):\n    open({log!r}, 'a').write('f\\n')\n    t.fail()\n"
                f"def test_g(t):\n    open({log!r}, 'a').write('g\\n')\n    raise ValueError('r')\n"
                f"def test_h(t):\n    open({log!r}, 'a').write('h\\n')\n    sys.exit(3)\n")
    env = dict(os.environ, BOOKTEST_TEST_PATHS="ta,tb", BOOKTEST_DEFAULT_TESTS="ta,tb", HOME=os.getcwd())
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "booktest"] + case[1], stdin=subprocess.DEVNULL, capture_output=True,
                           text=True, timeout=100, env=env)
    except subprocess.TimeoutExpired:
        ctx.bad(f"booktest {case[1]} in a process of its own: no end", case=case)
        return
    text = (world.read(log) or b"").decode().split("\n")[:-1]
    ran = [x for x in text if not x.startswith(("setup", "teardown"))]
    ups, downs = text.count("setup a"), text.count("teardown a")
    parallel = "-p2" in case[1] or "-p1" in case[1]
    n = len(ran) if parallel else 1
    ok = ups == downs == n and (ran and "-f" in case[1] or sorted(ran) == sorted(["ta", "tb", "tbs", "f", "g", "h"]))
    if ok and not parallel:
        ok = text[0] == "setup a" and text[-1] == "teardown a"
    if ok and "-p1" in case[1]:
        ok = text == [y for x in ran for y in ("setup a", x, "teardown a")]
    ctx.trace()
    ctx.step(len(text))
    ctx.state(case)
    if not ok:
        ctx.bad(f"booktest {case[1]} in a process of its own: {text}\n{p.stderr[-600:]}", case=case)
