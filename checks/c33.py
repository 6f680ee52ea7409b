"""C33: measuring coverage changes no result and finds what the tests run."""
import io
import itertools
import os
import re
import runpy
import shutil
import subprocess
import sys

from mc import inline, world

ID = "C33"
TITLE = "Measuring coverage changes no result"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "two tests x 6 ways of ending each x 8 commands, and 3 programs x all sequences of two commands, each run twice, "
             "with and without --cov, from the same state; 5 coverage configurations; data files left by earlier "
             "measurements; 4 command lines with real worker processes",
    "thorough": "two tests x 7 ways of ending x all sequences of two commands; 3 programs x all sequences of three commands; "
                "12 command lines with real worker processes"}
CASE_TIMEOUT = 200
CHUNK = 2

LIB = '''
def p():
    x = 1
    return x


def q():
    for i in range(2):
        x = i
    return x


def r():
    return "r"


def never():
    return "never"
'''
LINES = {"p": {3, 4}, "q": {8, 9, 10}, "r": {14}, "never": {18}}
ENDS = ["ok", "differ", "fail", "raise", "exit", "interrupt", "call"]
COMMANDS = [([], ()), (["-a"], ()), (["-f"], ()), (["-c"], ()), (["-v"], ()), (["-i"], ("c", "c", "c")), (["-i"], ("q",)),
            (["-p2"], ()), (["t/a"], ()), (["-w"], ()), (["-s", "-u"], ()), (["-p2", "-a"], ())]
PROGRAMS = [[["p", "ok"], ["q", "ok"]], [["p", "differ"], ["r", "ok"]], [["q", "fail"], ["p", "differ"]]]
CONFIGS = ["[run]\nsource=.\n", "", "[run]\nsource=.\nbranch=True\n", "[run]\nsource=.\nparallel=True\n",
           "[run]\nsource=.\nrelative_files=True\n[report]\nshow_missing=true\n"]


def cases(tier):
    rv = []
    n = len(COMMANDS)
    quick = tier == "quick"
    for a, b in itertools.product(ENDS[:6] if quick else ENDS, repeat=2):
        prog = [["p", a], ["q", b]]
        if quick:
            rv.extend(["seq", prog, [k], 0] for k in (0, 1, 2, 4, 5, 6, 7, 11))
        else:
            rv.extend(["seq", prog, list(k), 0] for k in itertools.product(range(n), repeat=2))
    for prog in PROGRAMS:
        rv.extend(["seq", prog, list(k), 0] for k in itertools.product(range(n), repeat=2 if quick else 3))
        rv.extend(["seq", prog, [k, 3], c] for c in range(1, len(CONFIGS)) for k in range(n))
    for prog in PROGRAMS:
        rv.append(["stale", prog, 0])
        rv.append(["stale", prog, 3])
    for args in ([], ["-p2"], ["-p2", "-a"], ["-p2", "-f"]) if quick else \
            itertools.product(["-p2", "-p1", "-p4"], ["-v", "-a", "-f", "-u"]):
        rv.append(["real", list(args)])
    return rv


class Lib:
    """ the code whose lines are counted """

    def __init__(self):
        with open("lib.py", "w") as f:
            f.write(LIB)
        self.path = os.path.abspath("lib.py")
        self.ns = {}
        exec(compile(LIB, self.path, "exec"), self.ns)
        self.called = []

    def tests(self, prog, changed):
        rv = []
        for i, (call, end) in enumerate(prog):
            def test(t, call=call, end=end):
                self.called.append(call)
                t.h1("test")
                t.tln(str(self.ns[call]()))
                if end == "differ":
                    t.tln(f"changed {changed}")
                elif end == "fail":
                    t.fail()
                elif end == "raise":
                    raise ValueError("x")
                elif end == "exit":
                    sys.exit(3)
                elif end == "interrupt":
                    raise KeyboardInterrupt()
                elif end == "call":
                    self.called.append("r")
                    t.tln(self.ns["r"]())
            rv.append((f"t/{'ab'[i]}", test))
        return world.tests_of(rv)


def data(path):
    """ the lines of the file in all data files """
    import coverage
    rv = set()
    for f in os.listdir("."):
        if f == ".coverage" or f.startswith(".coverage."):
            d = coverage.CoverageData(f)
            d.read()
            for m in d.measured_files():
                if os.path.abspath(m) == path:
                    rv |= set(d.lines(m) or ())
    return rv


def norm_text(s):
    return re.sub(r"\d+ ms|\d+\.\d+ s\b", "N ms", s)


def norm(books, parallel):
    rv = {}
    for k, v in world.tree(books).items():
        if k.endswith("cases.txt") and v:
            v = re.sub(rb"\t[\d.]+\n", b"\tN\n", v)
        elif k.endswith("metrics.json") and v:
            v = re.sub(rb"[\d.]+", b"N", v)
        elif v is not None and (k.endswith(".log") or k.endswith(".txt")):
            v = norm_text(v.decode("utf-8", "replace")).encode()
        if parallel and v is not None and ".out/" in k:
            v = b"\n".join(sorted(v.split(b"\n")))
        rv[k] = v
    return rv


def run_seq(case, ctx):
    _, prog, seq, conf = case

    def go():
        lib = Lib()
        if CONFIGS[conf]:
            with open(".coveragerc", "w") as f:
                f.write(CONFIGS[conf])
        base = lib.tests(prog, 0)
        world.execute(base, "books", ["-a", "*"])
        os.makedirs("off")
        os.makedirs("on")
        shutil.copytree("books", "off/books", dirs_exist_ok=True)
        shutil.rmtree("books", ignore_errors=True)
        if os.path.exists("off/books"):
            shutil.copytree("off/books", "on/books")
        for n, i in enumerate(seq):
            args, answers = COMMANDS[i]
            args = args if "t/a" in args else args + ["*"]
            before = {k: world.read(k) for k in os.listdir(".") if os.path.isfile(k)}
            res = []
            for cov in (False, True):
                d = "on" if cov else "off"
                lib.called.clear()
                os.rename(d + "/books", "books") if os.path.exists(d + "/books") else None
                tests = lib.tests(prog, n + 1)
                a = (["--cov"] if cov else []) + args
                if any(x.startswith("-p") for x in args):
                    with inline.pool():
                        out = world.execute(tests, "books", a, answers)
                else:
                    out = world.execute(tests, "books", a, answers)
                par = any(x.startswith("-p") for x in args)
                text = norm_text(out.stdout)
                called = list(lib.called)
                if par:
                    # in any order
                    called.sort()
                    if not cov:
                        text = "".join(sorted(text.splitlines(True)))
                    else:
                        i = re.search(r"(?m)^Name  ", text)
                        k = i.start() if i else len(text)
                        text = "".join(sorted(text[:k].splitlines(True))) + text[k:]
                res.append((out.exit, out.exc_type, out.prompts, norm("books", par), called, text, norm_text(out.stderr)))
                if not cov and {k: world.read(k) for k in os.listdir(".") if os.path.isfile(k)} != before:
                    return f"{args} without --cov writes {os.listdir('.')}"
                os.rename("books", d + "/books") if os.path.exists("books") else None
            off, on = res
            what = f"{[COMMANDS[j][0] for j in seq[:n + 1]]}"
            for name, x, y in zip(("exit status", "exception", "prompts"), off, on):
                if x != y:
                    return f"{what}: {name} {x}, with coverage {y}"
            if off[3] != on[3]:
                return f"{what}: files differ: {world.diff_tree(off[3], on[3])}"
            if off[4] != on[4]:
                return f"{what}: runs {off[4]}, with coverage {on[4]}"
            if not on[5].startswith(off[5]) or off[6] != on[6] and off[6] not in on[6]:
                return f"{what}: shows {off[5:]}, with coverage {on[5:]}"
            if "-w" in args:
                # nothing is run
                continue
            want = set().union(*[LINES[c] for c in on[4]]) if on[4] else set()
            have = data(lib.path)
            if have != want:
                return f"{what}: lines {sorted(have)} instead of {sorted(want)} of {on[4]}"
            if not os.path.exists("coverage.xml"):
                return f"{what}: no coverage.xml"
            with open("coverage.xml") as f:
                xml = f.read()
            m = re.search(r'<class name="lib.py".*?</class>', xml, re.S)
            hits = {int(a) for a in re.findall(r'<line number="(\d+)" hits="1"', m.group(0))} if m else set()
            if hits != want:
                return f"{what}: coverage.xml has {sorted(hits)} instead of {sorted(want)}"
            if on[1] is None and ("TOTAL" in on[5][len(off[5]):]) is not True:
                return f"{what}: no summary of the coverage"
        return None
    kind, res = ctx.forked(go, 100)
    ctx.trace(2 * len(seq))
    ctx.step(len(seq))
    ctx.outcome(f"{prog[0][1]} {prog[1][1]}")
    if kind != "ok" or res:
        ctx.bad(f"{prog}, {CONFIGS[conf]!r}: {res if kind == 'ok' else (kind, res)}")


def run_stale(case, ctx):
    """ what earlier measurements left does not count, what is not theirs stays """
    _, prog, conf = case

    def go():
        import coverage
        lib = Lib()
        if CONFIGS[conf]:
            with open(".coveragerc", "w") as f:
                f.write(CONFIGS[conf])
        for name in (".coverage", ".coverage.host.1.123456", ".coverage.other"):
            d = coverage.CoverageData(name)
            d.add_lines({lib.path: [18]})
            d.write()
        with open("coverage.xml", "w") as f:
            f.write("old")
        for name in (".coveragex", "x.coverage", "x.coverage.1"):
            with open(name, "w") as f:
                f.write("mine")
        out = world.execute(lib.tests(prog, 1), "books", ["--cov", "*"])
        want = set().union(*[LINES[c] for c in lib.called])
        if out.exc or data(lib.path) != want:
            return f"{out.exc}: lines {sorted(data(lib.path))} instead of {sorted(want)}"
        for name in (".coveragex", "x.coverage", "x.coverage.1"):
            if world.read(name) != b"mine":
                return f"{name} is gone"
    kind, res = ctx.forked(go, 100)
    ctx.trace()
    ctx.step()
    if kind != "ok" or res:
        ctx.bad(f"{prog}, after earlier measurements: {res if kind == 'ok' else (kind, res)}")


TEST = '''
import lib

def test_a(t):
    t.tln(str(lib.p()))

def test_b(t):
    t.tln(str(lib.q()))

def test_c(t):
    t.tln(str(lib.r()))
'''


def run_real(case, ctx):
    """ worker processes are measured, too """
    args = case[1]
    with open("lib.py", "w") as f:
        f.write(LIB)
    os.mkdir("book")
    with open("book/cov_test.py", "w") as f:
        f.write(TEST)
    with open(".coveragerc", "w") as f:
        f.write("[run]\nsource=.\nconcurrency=multiprocessing\n")
    env = {k: v for k, v in os.environ.items() if not k.startswith("COV")}
    env["COVERAGE_PROCESS_START"] = ".coveragerc"
    env["PYTHONPATH"] = os.pathsep.join([os.environ.get("VP_REPO", "/repo"), os.getcwd()])
    env["HOME"] = os.getcwd()
    cmd = [sys.executable, "-m", "booktest"]
    subprocess.run([*cmd, "-a"], env=env, capture_output=True, text=True, timeout=100)
    r = subprocess.run([*cmd, "--cov", *args], env=env, capture_output=True, text=True, timeout=100)
    ctx.trace(2)
    ctx.step(2)
    want = set().union(*[LINES[c] for c in "pqr"])
    have = {x for x in data(os.path.abspath("lib.py")) if x in set().union(*LINES.values())}
    verdicts = world.report("books")
    if r.returncode or have != want or set(verdicts.values()) != {"OK"} or len(verdicts) != 3:
        ctx.bad(f"--cov {args} with worker processes: exit status {r.returncode}, {verdicts}, lines {sorted(have)} instead of "
                f"{sorted(want)}\n{r.stdout[-500:]}{r.stderr[-1500:]}")


def run(case, ctx):
    ctx.state(case)
    globals()["run_" + case[0]](case, ctx)
