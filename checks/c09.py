"""C09: selected tests run exactly once, after what they depend on."""
import itertools
import os
import shutil

import booktest as bt
from mc import inline, prog, world

ID = "C09"
TITLE = "Selected tests run exactly once, after what they depend on"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "3 tests: all dependency graphs x registration orders x selections (by names, by leaving out) x stored values x recorded results x 6 modes "
             "(plain, refresh, continue, both, accept, parallel); 4 tests: all graphs x orders x single-test and full selections "
             "x no, all or all but one stored value; 5 tests: all graphs whose last test needs 3 or 4 others, in both orders, x 3 "
             "registration orders x 6 plans; methods of one or two instances of a class and of its subclass",
    "thorough": "3 and 4 tests: all dependency graphs x registration orders x selections x stored values; for 3 tests x "
                "recorded results x 5 modes; 5 tests: all graphs whose last test needs 2 or more others; methods of one or two instances of a class and of its subclass"}
CASE_TIMEOUT = 120


def graphs(n):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        yield [[j for (a, j), b in zip(pairs, bits) if b and a == i] for i in range(n)]


def subsets(n):
    for bits in itertools.product((0, 1), repeat=n):
        yield [i for i in range(n) if bits[i]]


def cases(tier):
    rv = []
    for g in graphs(3):
        for order in itertools.permutations(range(3)):
            rv.append(["graph", g, list(order), "full"])
    for g in graphs(4):
        for order in itertools.permutations(range(4)):
            rv.append(["graph", g, list(order), "some" if tier == "quick" else "all"])
    for g in graphs(5):
        if len(g[4]) > (1 if tier == "thorough" else 2):
            for order in ([0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1]):
                rv.append(["graph", g, order, "five"])
                rv.append(["graph", [x[::-1] for x in g], order, "five"])
    for k in range(4):
        for m in range(len(CLASS_DEPS)):
            rv.append(["class", k, m])
    return rv


def name(i):
    return f"s/t{i}"


def plans(n, how):
    """ (selection, stored, recorded OK, recorded other, args) """
    if how == "full":
        for sel in subsets(n):
            if not sel:
                continue
            for stored in subsets(n):
                yield sel, stored, [], [], []
                yield sel, stored, stored, [], ["-r"]
                yield sel, stored, stored[1:], stored[:1], ["-c"]
                if len(stored) > 1:
                    yield sel, stored, stored[:1], stored[1:], ["-c"]
                yield sel, stored, stored, [], ["-c", "-a"]
                yield sel, stored, stored[:1], stored[1:], ["-r", "-c"]
                if len(sel) < n:
                    yield sel, stored, [], [], ["SKIP"]
                    yield sel, stored, stored, [], ["SKIP", "-r"]
                    yield sel, stored, stored[:1], stored[1:], ["SKIP", "-c"]
                    yield sel, stored, [], [], ["SKIP", "-p2"]
                if len(sel) != 2:
                    yield sel, stored, [], [], ["-p2"]
                    yield sel, stored, stored, [], ["-p2", "-c"]
                    yield sel, stored, stored, [], ["-p2", "-r"]
                    yield sel, stored, stored[1:], stored[:1], ["-p2", "-c", "-r"]
    elif how == "five":
        yield [4], [], [], [], []
        yield [4], list(range(5)), [], [], []
        yield [4], list(range(5)), [], [], ["-r"]
        yield [4], [2], [], [], []
        yield [1, 4], [0, 2, 3], [], [], []
        yield list(range(5)), [], [], [], []
    else:
        sels = [[i] for i in range(n)] + [list(range(n))] if how == "some" else [s for s in subsets(n) if s]
        some = [[], list(range(n))] + [[j for j in range(n) if j != i] for i in range(n)]
        for sel in sels:
            for stored in (some if how == "some" else subsets(n)):
                yield sel, stored, [], [], []


def expected(g, sel, stored, ok, args):
    """ the tests a run executes """
    run = set()

    def need(i):
        for d in g[i]:
            if d in sel or "-r" in args or d not in stored:
                run.add(d)
                need(d)

    for i in sel:
        run.add(i)
        need(i)
    if "-c" in args:
        run -= set(ok)
    return run


def check(ctx, names, deps, sel, out, log, want, label, case):
    rep = world.report("books")
    msg = None
    if out.exc:
        msg = out.exc
    elif sorted(log) != sorted(want):
        msg = f"executed {log}, expected each of {sorted(want)} once"
    else:
        for i, x in enumerate(log):
            for d in deps[x]:
                if d in log[i:]:
                    msg = f"{x} ran before {d}, which it depends on: {log}"
        for x in want:
            if rep.get(names[x]) not in ("OK", "DIFF"):
                msg = f"{names[x]} recorded as {rep.get(names[x])}"
    if msg:
        ctx.bad(f"{label}\n{msg}", case=case)
        return False
    return True


def run(case, ctx):
    if case[0] == "graph":
        run_graph(case, ctx)
    else:
        run_class(case, ctx)


def run_graph(case, ctx):
    _, g, order, how = case[:4]
    n = len(g)
    log = []
    fns = []
    for i in range(n):
        def make(i):
            def fn(t, *values):
                log.append(i)
                t.tln(f"{i} {list(values)}")
                return i * 11
            fn.__name__ = fn.__qualname__ = f"t{i}"
            return fn
        f = make(i)
        if g[i]:
            f = bt.depends_on(*[fns[d] for d in g[i]])(f)
        fns.append(f)
    tests = world.tests_of([(name(i), fns[i]) for i in order])
    names = {i: name(i) for i in range(n)}
    # all values stored
    world.execute(tests, "template", ["*"])
    bins = {i: world.read(f"template/.out/{name(i)}.bin") for i in range(n)}
    for plan in ([case[4]] if len(case) > 4 else plans(n, how)):
        sel, stored, ok, other, args = plan
        shutil.rmtree("books", ignore_errors=True)
        os.makedirs("books/.out/s")
        for i in stored:
            if bins[i] is not None:
                with open(f"books/.out/{name(i)}.bin", "wb") as f:
                    f.write(bins[i])
        with open("books/.out/cases.txt", "w") as f:
            for i in ok:
                f.write(f"{name(i)}\tOK\t1.0\n")
            for i in other:
                f.write(f"{name(i)}\tDIFF\t1.0\n")
        log.clear()
        with inline.pool():
            # selected by name, or everything else left out
            chosen = ["s"] + [f"skip:{name(i)}" for i in range(n) if i not in sel] if "SKIP" in args else \
                [name(i) for i in sel]
            out = world.execute(tests, "books", [a for a in args if a != "SKIP"] + chosen)
        want = expected(g, sel, stored, ok, args)
        ctx.step(len(log))
        ctx.trace()
        ctx.state([g, order, plan])
        ctx.outcome(f"{args} {len(want)} run")
        label = f"dependencies {g}, registered {order}, selected {sel}, stored {stored}, recorded OK {ok}, arguments {args}"
        if not check(ctx, names, g, sel, out, log, want, label, case[:4] + [list(plan)]):
            return


CLASS_DEPS = ["own", "own chain", "parent", "other class", "function", "shared", "shared by the subclass"]


def run_class(case, ctx):
    """ methods of classes: k = number and order of instances """
    _, k, m = case
    kind = CLASS_DEPS[m]
    log = []

    def rec(x, t):
        log.append(x)
        t.tln(x)
        return x

    def fn(t):
        return rec("f", t)

    class Base(bt.TestBook):
        def __init__(self, path, tag):
            super().__init__(path)
            self.tag = tag

        def test_a(self, t):
            return rec(self.tag + "a", t)

        @bt.depends_on(test_a)
        def test_b(self, t, a):
            return rec(self.tag + "b", t)

        @bt.depends_on(test_b, test_a)
        def test_c(self, t, b, a):
            return rec(self.tag + "c", t)

    class Sub(Base):
        @bt.depends_on(Base.test_b)
        def test_d(self, t, b):
            return rec(self.tag + "d", t)

    class Other(bt.TestBook):
        def __init__(self, path, tag):
            super().__init__(path)
            self.tag = tag

        @bt.depends_on(Base.test_a)
        def test_e(self, t, a):
            return rec(self.tag + "e", t)

        @bt.depends_on(fn, test_e)
        def test_g(self, t, f, e):
            return rec(self.tag + "g", t)

    class Shares(Base):
        test_a = Base.test_a
        test_b = Base.test_b

    if k == 3:
        shares = Shares("z/shares", "h")        # before its base
    b1 = Base("m/one", "1")
    suites = [b1]
    if k in (1, 2, 3):
        suites.append(Base("m/two", "2"))
    suites.append(Sub("z/sub", "s"))
    if k != 3:
        shares = Shares("z/shares", "h")
    suites.append(shares)
    suites.append(Other("o/other", "o"))
    suites.append(bt.Tests([["f/f", fn]]))
    if k == 2:
        suites = suites[::-1]
    if k == 3:
        suites = suites[2:] + suites[:2]
    tests = bt.merge_tests(suites)
    base = "1"
    if k > 1:
        base = "h"       # the first registered instance
    deps = {"1a": [], "1b": ["1a"], "1c": ["1b", "1a"], "2a": [], "2b": ["2a"], "2c": ["2b", "2a"],
            "sd": [base + "b"], "oe": [base + "a"], "og": ["f", "oe"], "f": [],
            "ha": [], "hb": ["ha"]}
    names = {"1a": "m/one/a", "1b": "m/one/b", "1c": "m/one/c", "2a": "m/two/a", "2b": "m/two/b", "2c": "m/two/c",
             "sd": "z/sub/d", "oe": "o/other/e", "og": "o/other/g", "f": "f/f",
             "ha": "z/shares/a", "hb": "z/shares/b"}
    all_ = [x for x in names if k or not x.startswith("2")]
    sel = {"own": ["1b"], "shared by the subclass": ["hb"], "own chain": ["2c"] if k else ["1c"], "parent": ["sd"], "other class": ["oe"], "function": ["og"],
           "shared": all_}[kind]
    for args in ([], ["-r"], ["-p2"]):
        for stored in ([], all_):
            shutil.rmtree("books", ignore_errors=True)
            if stored:
                world.execute(tests, "books", ["*"])
            log.clear()
            with inline.pool():
                out = world.execute(tests, "books", args + [names[x] for x in sel])
            want = expected(deps, sel, stored, [], args)
            ctx.step(len(log))
            ctx.trace()
            ctx.state([case, args, stored])
            ctx.outcome(f"class {kind}")
            if not check(ctx, names, deps, sel, out, log, want,
                         f"class case {case} ({kind}), arguments {args}, stored {stored}", case):
                return
