"""C13: parallel runs always finish and account for every test."""
import itertools
import os
import re
import shutil
import signal
import subprocess
import sys
import time

from booktest.detection import BookTestSetup
from mc import par, world
from mc.core import REPO

ID = "C13"
TITLE = "Parallel runs always finish and account for every test"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of up to 3 tests out of 8 ways of ending x independent, chained and fanned dependencies x 7 sets "
             "of options with the quit answer at every prompt; interrupts (main process, or also busy workers) at 30 moments and "
             "at every executed line of the runner; delays of the main and scheduling threads before every line they execute; "
             "6 failures of the set-up; tests ending together; workers killed; interrupts of real processes",
    "thorough": "4 tests, pairs of delays, interrupts with delays"}
CASE_TIMEOUT = 400
CHUNK = 1
LIB = ["runs.py"]

ENDS = ["pass", "differ", "fail", "raise", "exit", "interrupt", "unpicklable", "asyncdiff"]
FAILS = ("fail", "raise", "exit", "interrupt", "unpicklable")
SHAPES = {"free": lambda n: [[] for _ in range(n)],
          "chain": lambda n: [[i - 1] if i else [] for i in range(n)],
          "fan": lambda n: [[0] if i else [] for i in range(n)],
          "back": lambda n: [[i + 1] if i + 1 < n else [] for i in range(n)]}
RUNS = [([], ""), (["-f"], ""), (["-a"], ""), (["-i"], "q"), (["-i"], "cq"), (["-I"], "ccq"), (["-f", "-i"], "ac")]


def cases(tier):
    rv = []
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        ends = ENDS if k < 3 or tier != "quick" else ENDS[:6]
        for e in itertools.product(ends, repeat=k):
            rv.append(["ends", list(e)])
    for k in range(len(PLANS)):
        for part in range(6):
            rv.append(["delay", k, part])
        for part in range(2):
            rv.append(["interrupt", k, part])
        for part in range(2):
            rv.append(["sigint", k, part])
        rv.append(["setup", k])
        rv.append(["torn", k])
        if tier != "quick":
            for part in range(24):
                rv.append(["pairs", k, part])
                rv.append(["sigint+delay", k, part])
    for k in range(4):
        rv.append(["die", k])
    for when in ("loading", "test", "queued", "prompt"):
        rv.append(["real", when])
    return rv


# structures for the deeper explorations: shape, ends, durations, resources, options, answers
PLANS = [
    ("free", ["pass", "differ", "raise"], (0.004, 0.001, 0.006), ["", "", ""], [], ""),
    ("free", ["differ", "pass", "fail"], (0.003, 0.003, 0.003), ["", "", ""], ["-f"], ""),
    ("fan", ["pass", "differ", "exit"], (0.002, 0.004, 0.001), ["", "p", "p"], ["-i"], "acc"),
    ("chain", ["pass", "interrupt", "pass"], (0.002, 0.001, 0.004), ["", "", ""], [], ""),
    ("free", ["differ", "differ", "pass"], (0.001, 0.02, 0.001), ["p", "p", "p"], ["-i"], "qq"),
    ("back", ["pass", "pass", "fail"], (0.001, 0.002, 0.001), ["", "", ""], ["-a"], ""),
    ("free", ["pass", "pass", "pass", "differ"], (0.012, 0.0005, 0.0005, 0.002), ["", "p", "p", ""], ["-f", "-v", "-L"], ""),
]


class Bench:
    def __init__(self, shape, ends, durs, res, ctx, case):
        self.n = len(ends)
        self.deps = SHAPES[shape](self.n)
        self.ends, self.durs, self.res = list(ends), durs, res
        self.ctx, self.case = ctx, case
        self.names = [f"s/t{i}" for i in range(self.n)]
        self.prepare()

    def suite(self, ends=None):
        ends = ends or self.ends
        specs = [{"name": self.names[i], "deps": self.deps[i], "res": list(self.res[i]), "dur": self.durs[i],
                  "end": "differ" if ends[i] == "asyncdiff" else ends[i]} for i in range(self.n)]
        return par.Suite(specs, body=None)

    def prepare(self):
        """ the accepted documents are those of passing tests """
        shutil.rmtree("base", ignore_errors=True)
        os.makedirs("base")
        world.execute(self.suite(["pass"] * self.n).tests, "base", ["-a", "*"])
        self.docs = {n: world.read(f"base/{n}.md") for n in self.names}
        shutil.rmtree("base/.out")

    def verdicts(self, args):
        """ before acceptance """
        v, value = {}, {}

        def of(i):
            if i not in v:
                e = self.ends[i]
                bad = False
                for j in self.deps[i]:
                    of(j)
                    bad = bad or not value[j]
                v[i] = "FAIL" if bad or e in FAILS else "DIFF" if e in ("differ", "asyncdiff") else "OK"
                value[i] = v[i] != "FAIL"
        for i in range(self.n):
            of(i)
        return {self.names[i]: v[i] for i in v}

    def start(self):
        shutil.rmtree("books", ignore_errors=True)
        shutil.copytree("base", "books")

    def execute(self, what, args, script="", stopped=False, complete=None, keep=False, setup=None, verdicts=None, **kw):
        """
        stopped: the run may end early; complete: it must not; -> Sched or None
        """
        ctx, case = self.ctx, self.case
        if not keep:
            self.start()
        answered = []

        def answers(text, prompt):
            k = len(answered)
            a = script[min(k, len(script) - 1)] if script else "c"
            if a == "a" and "(a)ccept" not in prompt:
                a = "c"
            # "  s/t1..DIFFERED in 3 ms"
            name = re.findall(r"^(?:  )?(s/t\d)(?:\.\.| )", text, re.M)
            answered.append((name[-1] if name else None, a))
            return a
        out, s, hang = par.run(self.suite(), args + ["*"], answers=answers, setup=setup, **kw)
        ctx.trace()
        ctx.step(s.steps)
        what = f"tests {self.ends}, dependencies {self.deps}, resources {self.res}, {args} {script}: {what}"
        if hang:
            ctx.bad(f"{what}: {hang}", case=case)
            return None
        if out is None:
            ctx.bad(f"{what}: the main process ended without a result", case=case)
            return None
        if out.exc and not (out.exc_type == "KeyboardInterrupt" and stopped):
            ctx.bad(f"{what}: {out.exc}", case=case)
            return None
        for a in s.actors:
            if a.error is not None:
                ctx.bad(f"{what}: {a.name} ended with {a.error!r}", case=case)
                return None
        rep = world.report("books")
        raw = verdicts or self.verdicts(args)
        want = dict(raw)
        accepted = {n for n, a in answered if a == "a"}
        for n in want:
            if want[n] == "DIFF" and ("-a" in args or n in accepted):
                want[n] = "OK"
        quit_ = any(a == "q" for _, a in answered)
        early = quit_ or stopped or "-f" in args and any(v != "OK" for v in want.values())
        msg = None
        for n, v in rep.items():
            if v in ("DUP", "BAD"):
                msg = f"entry {n} is {'repeated' if v == 'DUP' else 'damaged'}"
            elif n not in want:
                msg = f"unknown entry {n}"
            elif v != want[n] and not (early and v == raw[n]):
                msg = f"{n} is recorded as {v} instead of {want[n]}"
        if not msg and not early and set(rep) != set(want):
            msg = f"tests {sorted(set(want) - set(rep))} are not recorded"
        if not msg and "-f" in args and not stopped and early and not quit_ and not any(v != "OK" for v in rep.values()):
            msg = "the test that stopped the run is not recorded"
        if not msg and out.exc is None:
            bad = [n for n in rep if rep[n] != "OK"]
            if not stopped and bool(out.exit) != bool(bad):
                msg = f"exit status {out.exit}"
            if stopped and bad and not out.exit:
                msg = f"exit status {out.exit} although {bad} failed"
            if stopped and s.interrupted and set(rep) != set(want) and not out.exit:
                msg = f"exit status {out.exit} of an interrupted run"
            tail = out.stdout[out.stdout.rfind("# test results:"):]
            # an interrupt may fall between recording and counting
            m = None if kw.get("interrupt_at") else re.search(r"^(\d+)/(\d+) test (failed|succeeded) in \d+ ms", tail, re.M)
            if kw.get("interrupt_at"):
                pass
            elif not m:
                msg = msg or "no summary was printed"
            else:
                counts = (len(bad) if bad else len(rep), len(rep))
                if (int(m.group(1)), int(m.group(2))) != counts or (m.group(3) == "failed") != bool(bad):
                    msg = msg or f"the summary says {m.group()!r}, the report has {rep}"
                listed = re.findall(r"^  (\S+)$", tail[m.end():], re.M)
                if sorted(listed) != sorted(bad):
                    msg = msg or f"the summary lists {listed} instead of {bad}"
        both = set(re.findall(r"^  (\S+)\.\.interrupted$", out.stdout, re.M)) & set(rep)
        if not msg and stopped and both and "-c" not in args:
            msg = f"{sorted(both)} are shown as interrupted and recorded"
        if not msg:
            for n in self.names:
                d = world.read(f"books/{n}.md")
                fine = d == self.docs[n] or raw[n] == "DIFF" and (want[n] == "OK" or "-a" in args) and d == \
                    self.docs[n].replace(b"good", b"bad")
                if not fine:
                    msg = f"the accepted document of {n} is {d}"
        ctx.state([what, sorted(rep.items()), [e[2:] for e in s.log if e[1] in ("begin", "finish")]])
        ctx.outcome(f"{len(rep)} of {self.n} recorded, exit {out.exit if out.exc is None else out.exc_type}")
        if msg:
            ctx.bad(f"{what}: {msg}\nreport {rep}, expected {want}\n{out.stdout[-1500:]}\nevents {s.log}", case=case)
            return None
        return s


def run(case, ctx):
    kind = case[0]
    if kind == "ends":
        ends = case[1]
        n = len(ends)
        shapes = ["free"] if n == 1 else ["free", "chain"] if n == 2 else ["free", "fan", "chain"]
        for shape in shapes:
            b = Bench(shape, ends, (0.004, 0.0005, 0.002, 0.001)[:n], [""] * n, ctx, case)
            runs = RUNS if n < 3 or shape == "free" else RUNS[:2]
            if n == 3 and ctx.tier == "quick":
                k = ENDS.index(ends[0]) * 64 + ENDS.index(ends[1]) * 8 + ENDS.index(ends[2])
                runs = RUNS[:2] + [RUNS[2 + k % 5]] if shape == "free" else RUNS[k % 2:k % 2 + 1]
            for args, script in runs:
                for w in ((1, 2) if n < 3 else (2,)):
                    if b.execute(f"{w} workers", [f"-p{w}"] + args, script) is None:
                        return
    elif kind == "setup":
        setup_failures(case, ctx)
    elif kind == "die":
        dying(case, ctx)
    elif kind == "real":
        real(case, ctx)
    else:
        shape, ends, durs, res, args, script = PLANS[case[1]]
        b = Bench(shape, ends, durs, res, ctx, case)
        args = ["-p2"] + args
        think = 0.01
        if kind == "torn":
            torn(b, case, ctx, args, script)
            return
        s = b.execute("undisturbed", args, script, trace_files=LIB, think=think)
        if s is None:
            return
        part = case[2]
        points = [(a, k, where) for a, ps in s.points.items() for k, where in ps]
        if kind == "delay":
            for a, k, where in points[part::6]:
                for d in (0.0015, 0.5):
                    if b.execute(f"{a} delayed by {d} before {where}", args, script, trace_files=LIB, think=think,
                                 delays={(a, k): d}) is None:
                        return
        elif kind == "pairs":
            for p, q in list(itertools.combinations(points[::3], 2))[part::24]:
                if b.execute(f"{p} and {q} delayed", args, script, trace_files=LIB, think=think,
                             delays={p[:2]: 0.0015, q[:2]: 0.012}) is None:
                    return
        elif kind == "interrupt":
            for j in range(30):
                at = j * 0.0007 if j < 24 else (j - 20) * 0.005
                for who in ("main", "all"):
                    if b.execute(f"interrupt of {who} at {at}", args, script, think=think, interrupt=(at, who), stopped=True,
                                 verdicts=None if who == "main" else Either(b.verdicts(args)),
                                 worker_delay=0.003 * part) is None:
                        return
        elif kind == "sigint":
            for a, k, where in [p for p in points if p[0] == "main"][part::2]:
                if b.execute(f"interrupt before {where}", args, script, think=think, trace_files=LIB, interrupt_at=(a, k),
                             stopped=True) is None:
                    return
        elif kind == "sigint+delay":
            main = [p for p in points if p[0] == "main"]
            for p, q in list(itertools.product(main[::2], points[::6]))[part::24]:
                if p[:2] != q[:2] and b.execute(f"interrupt before {p[2]}, {q} delayed", args, script, think=think, trace_files=LIB,
                                                interrupt_at=p[:2], delays={q[:2]: 0.003}, stopped=True) is None:
                    return


class Either(dict):
    """ verdicts of tests that may have been interrupted, too """

    class V(str):
        def __eq__(self, other):
            return str(other) in (str(self), "FAIL")

        def __ne__(self, other):
            return not self == other
        __hash__ = str.__hash__

    def __init__(self, d):
        super().__init__({k: Either.V(v) for k, v in d.items()})


def setup_failures(case, ctx):
    """ the set-up of some or all jobs fails """
    shape, ends, durs, res, args, script = PLANS[case[1]]
    b = Bench(shape, ends, durs, res, ctx, case)
    n = b.n
    for exc in (ValueError, SystemExit, KeyboardInterrupt):
        for where in ("before", "after"):
            for which in [[i] for i in range(n)] + [list(range(n))]:
                count = [0]

                def gen():
                    k = count[0]
                    count[0] += 1
                    if where == "before" and k in which:
                        raise exc("set-up")
                    yield
                    if where == "after" and k in which:
                        raise exc("tear-down")
                # which tests hit it depends on the schedule: they fail or their dependents do
                v = b.verdicts(args)
                plan = ["-p2"] + [a for a in args if a not in ("-i", "-I", "-a")]
                if b.execute(f"{exc.__name__} {where} test {which}", plan, "", setup=BookTestSetup(gen),
                             verdicts=SetupVerdicts(v, where, which == list(range(n))), stopped=False) is None:
                    return


class SetupVerdicts(Either):
    def __init__(self, d, where, every):
        if where == "before" and every:
            dict.__init__(self, {k: "FAIL" for k in d})
        else:
            super().__init__(d)


def torn(b, case, ctx, args, script):
    """ the output of a running test is cut inside a character when the run stops early """
    import booktest as bt
    for filler in range(0, 4):
        for end in ("raise", "interrupt"):
            def writer(i, spec, t, a):
                if i == 0:
                    for k in range(700):
                        t.tln("x" * (filler if k == 0 else 0) + "äöü€" * 4)
                    su.pause(0.02)
                    t.tln("good")
                else:
                    su.pause(0.003)
                    raise ValueError("stop")
            su = par.Suite([{"name": f"s/t{i}", "dur": 0} for i in range(2)], body=writer)
            shutil.rmtree("books", ignore_errors=True)
            os.makedirs("books")
            kw = {} if end == "raise" else {"interrupt": (0.01, "main")}
            out, s, hang = par.run(su, ["-p2", "-f", "-v", "*"] if end == "raise" else ["-p2", "-v", "*"], **kw)
            ctx.trace()
            ctx.step(s.steps)
            rep = world.report("books")
            if hang or out.exc or rep != {"s/t1": "FAIL"} or not out.exit or "1/1 test failed" not in out.stdout:
                ctx.bad(f"stopped ({end}) while a test had written {filler} + non-ASCII text: {hang or out.exc or (rep, out.exit)}",
                        case=case)
                return


def dying(case, ctx):
    """ a worker process dies """
    k = case[1]
    ends = ["pass", "pass", "pass"]
    if k < 3:
        ends[k] = "die"
    else:
        ends = ["die", "differ", "die"]
    b = Bench("free", ends, (0.004, 0.002, 0.003), [""] * 3, ctx, case)
    for w in (1, 2):
        b.start()
        out, s, hang = par.run(b.suite(), [f"-p{w}", "*"])
        ctx.trace()
        ctx.step(s.steps)
        rep = world.report("books")
        if hang:
            ctx.bad(f"tests {ends}, {w} workers, one dies: {hang}, report {rep}", key="worker-killed", case=case)
        elif out.exc or not out.exit or set(rep) != set(b.names) or any(rep[n] == "OK" for n, e in zip(b.names, ends) if e == "die"):
            ctx.bad(f"tests {ends}, {w} workers, one dies: {rep}, {out.exit}, {out.exc}", case=case)


BOOK = '''
import multiprocessing, os, time
import booktest as bt

child = multiprocessing.parent_process() is not None

def meet(what):
    """ tells that the moment has come, goes on when told """
    open(f"at.{what}.{os.getpid()}", "w").close()
    end = time.time() + 20
    while not os.path.exists("go") and time.time() < end:
        time.sleep(0.01)

WHEN = os.environ["WHEN"]
if child and WHEN == "loading":
    meet("loading")

class ABook(bt.TestBook):
    def test_a(self, t):
        t.tln("a")
        if child and WHEN in ("test", "queued"):
            meet("test")
    def test_b(self, t):
        t.tln("b")
        if child and WHEN == "test":
            meet("test")
    def test_c(self, t):
        t.tln("c")
'''


def real(case, ctx):
    """ an interrupt from the keyboard reaches the process and its workers """
    when = case[1]
    for w in ((1, 2) if when != "test" else (2,)):
        d = ctx.fresh()
        os.mkdir("book")
        with open("book/a_book.py", "w") as f:
            f.write(BOOK)
        with open(".booktest", "w") as f:
            f.write("test_paths=book\n")
        env = dict(os.environ, PYTHONPATH=REPO, WHEN=when, HOME=d)
        out = open("out.txt", "w")
        args = [f"-p{w}"] + (["-i"] if when == "prompt" else [])
        p = subprocess.Popen([sys.executable, "-B", "-m", "booktest"] + args, start_new_session=True, env=env, stdout=out,
                             stderr=subprocess.STDOUT, stdin=subprocess.PIPE)
        try:
            end = time.monotonic() + 40

            def ready():
                if when == "prompt":
                    return "(q)uit" in open("out.txt").read()
                return len([f for f in os.listdir(".") if f.startswith("at.")]) >= (w if when != "queued" else 1)
            while not ready() and time.monotonic() < end and p.poll() is None:
                time.sleep(0.02)
            if not ready():
                raise RuntimeError(f"the run did not get to the interrupt ({when}): {open('out.txt').read()[-2000:]}")
            os.killpg(p.pid, signal.SIGINT)
            time.sleep(0.1)
            open("go", "w").close()
            try:
                p.wait(30)
            except subprocess.TimeoutExpired:
                ctx.bad(f"interrupt while {when}, {w} workers: the run does not end\n{open('out.txt').read()[-1500:]}", case=case)
                return
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.stdin.close()
            p.wait()
        ctx.trace()
        ctx.state([when, w])
        rep = world.report("books")
        ctx.outcome(f"real interrupt, exit {p.returncode}")
        if p.returncode == 0 or any(v != "DIFF" and not (v == "FAIL" and when in ("test", "queued")) for v in rep.values()):
            ctx.bad(f"interrupt while {when}, {w} workers: exit status {p.returncode}, report {rep}\n{open('out.txt').read()[-1500:]}",
                    case=case)
            return
