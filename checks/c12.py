"""C12: parallel runs respect resources and dependencies in every schedule."""
import itertools
import os
import shutil

import booktest as bt
from mc import par, world

ID = "C12"
TITLE = "Parallel runs respect resources and dependencies in every schedule"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all dependency graphs of 3 tests x assignments of 2 exclusive resources (up to symmetry) x 2 and 3 workers x "
             "durations out of 2 values, at once or workers starting late; 4 tests: chosen structures x all vectors of durations out of 3 "
             "values x 1-4 workers; the main and scheduling threads delayed before every line of the runner they execute "
             "(one delay out of 2 lengths) for 6 structures; resources of every kind; subsets, continued and reviewed runs",
    "thorough": "all vectors of durations out of 3 values for 3 tests, 4 tests with all graphs, pairs of delays"}
CASE_TIMEOUT = 400
CHUNK = 1
LIB = ["runs.py"]

SLACK = 0.006


def graphs(n, all_orders):
    """ dependency graphs over 0..n-1; registration order is index order; with all_orders also on later ones """
    pairs = [(i, j) for i in range(n) for j in range(n) if (i > j if not all_orders else i != j)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        deps = [[] for _ in range(n)]
        for (i, j), b in zip(pairs, bits):
            if b:
                deps[i].append(j)
        # acyclic?
        left = set(range(n))
        while left:
            free = [i for i in left if not any(j in left for j in deps[i])]
            if not free:
                break
            left -= set(free)
        if not left:
            yield deps


def resources(n):
    """ assignments of subsets of {p, q}, up to exchanging p and q """
    seen = set()
    for a in itertools.product(("", "p", "q", "pq"), repeat=n):
        other = tuple({"": "", "p": "q", "q": "p", "pq": "pq"}[x] for x in a)
        if other not in seen:
            seen.add(a)
            yield a


FOUR = [
    ([[], [], [], []], ["p", "p", "q", "q"]),
    ([[], [], [], []], ["pq", "p", "q", ""]),
    ([[], [], [], []], ["p", "pq", "q", "pq"]),
    ([[], [0], [0], [1, 2]], ["", "p", "p", ""]),
    ([[], [0], [0], [1, 2]], ["p", "q", "q", "p"]),
    ([[], [], [0, 1], []], ["p", "q", "pq", "p"]),
    ([[], [0], [1], []], ["p", "p", "p", "p"]),
    ([[], [], [1], [0]], ["p", "q", "p", "q"]),
    ([[3], [3], [], []], ["", "p", "p", ""]),
    ([[1], [2], [3], []], ["", "", "", ""]),
    ([[], [0], [0], [0]], ["", "p", "pq", "q"]),
    ([[], [], [], []], ["p", "p", "p", "p"]),
]

MIXED = [
    # (resource of each test, pairs in conflict)
    ("ports", lambda: [bt.port(1), bt.port(1), bt.Resource(1), bt.port(2)], [(0, 1)]),
    ("same identifier", lambda: [bt.Resource("x", "id"), bt.Resource("y", "id"), bt.Resource("id"), bt.Resource("z", "id2")],
     [(0, 1), (0, 2), (1, 2)]),
    ("same value", lambda: [bt.Resource("v", "a"), bt.Resource("v", "b"), bt.Resource("v"), bt.Resource("v")], [(2, 3)]),
    ("falsy", lambda: [bt.Resource(0), bt.Resource(0), bt.Resource(""), bt.Resource("")], [(0, 1), (2, 3)]),
    ("port and its name", lambda: [bt.port(7), bt.Resource("port=7"), bt.Resource(7), bt.port(7)], [(0, 1), (0, 3), (1, 3)]),
    ("hash codes", lambda: [bt.Resource(-1), bt.Resource(-2), bt.Resource("-1", -1), bt.Resource(-1, -2)], [(0, 2), (1, 3)]),
    ("tuples", lambda: [bt.Resource(None, ("a", 1)), bt.Resource(None, ("a", 1)), bt.Resource(None, ("a", 2)), bt.Resource("a")],
     [(0, 1)]),
]


def cases(tier):
    rv = []
    thorough = tier != "quick"
    for deps in graphs(3, True):
        rv.append(["three", deps])
    for k in range(len(FOUR)):
        for w in (1, 2, 3, 4):
            rv.append(["four", k, w])
    for k in range(len(MIXED)):
        for w in (2, 4):
            rv.append(["mixed", k, w])
    for k in (0, 2, 3, 5, 7, 9):
        for w in (2, 3):
            for part in range(4):
                rv.append(["delay", k, w, part])
    for k in range(len(FOUR)):
        rv.append(["part", k])
    for k in range(len(FOUR)):
        rv.append(["modes", k])
    rv.append(["class"])
    if thorough:
        for deps in graphs(4, False):
            rv.append(["all4", deps])
        for k in range(len(FOUR)):
            for part in range(16):
                rv.append(["pairs", k, 2, part])
    return rv


def conflicts(res):
    return {(i, j) for i in range(len(res)) for j in range(len(res)) if i != j and set(res[i]) & set(res[j])}


def judge(ctx, case, what, m, s, n, deps, conf, selected=None, waiting=True):
    """ conf: set of ordered pairs in conflict """
    selected = set(range(n)) if selected is None else set(selected)
    for i, j in m.running_overlaps:
        if (i, j) in conf:
            ctx.bad(f"{what}: tests {i} and {j} of the same resource overlap: {m.events}", case=case)
            return False
    for i in sorted(selected):
        for j in deps[i]:
            if i in m.begin and j in selected:
                if j not in m.finish or m.finish[j] > m.begin[i] or \
                        m.events.index((m.finish[j], "finish", j)) > m.events.index((m.begin[i], "begin", i)):
                    ctx.bad(f"{what}: test {i} started before test {j}, which it depends on, had ended: {m.events}", case=case)
                    return False
    for i in range(n):
        if m.count.get(i, 0) != (i in selected):
            ctx.bad(f"{what}: test {i} ran {m.count.get(i, 0)} times: {m.events}", case=case)
            return False
    if not waiting:
        return True
    # nothing that could run waits while a worker is free
    up = 0
    running, done, started = set(), set(), set()
    since = {}
    log = [e for e in s.log if e[1] in ("up", "begin", "finish")]
    for k, e in enumerate(log):
        if e[1] == "up":
            up += 1
        elif e[1] == "begin":
            running.add(e[2])
            started.add(e[2])
        else:
            running.discard(e[2])
            done.add(e[2])
        for i in selected:
            free = i not in started and up > len(running) and all(j in done or j not in selected for j in deps[i]) and \
                not any((i, j) in conf for j in running)
            if not free:
                since.pop(i, None)
            else:
                since.setdefault(i, e[0])
        if k + 1 < len(log):
            for i, t in since.items():
                if log[k + 1][0] - t > SLACK:
                    ctx.bad(f"{what}: test {i} could run from {t} on and a worker was free, but it had not started at "
                            f"{log[k + 1][0]}: {m.events}", case=case)
                    return False
    return True


def suite(deps, res, durs, ends=None):
    n = len(deps)
    return par.Suite([{"name": f"s/t{i}", "deps": deps[i], "res": list(res[i]), "dur": durs[i],
                       "end": ends[i] if ends else "pass"} for i in range(n)])


def runnable(su, deps):
    """ tests whose dependencies leave a value """
    good = {i for i in range(len(deps)) if su.specs[i].get("end", "pass") in ("pass", "differ")}
    rv = set(range(len(deps)))
    while True:
        less = {i for i in rv if all(j in rv and j in good for j in deps[i])}
        if less == rv:
            return rv
        rv = less


def one(ctx, case, what, su, n, deps, conf, args, selected=None, keep=False, waiting=True, judged=True, **kw):
    if not keep:
        shutil.rmtree("books", ignore_errors=True)
        os.makedirs("books")
    out, s, hang = par.run(su, args, **kw)
    ctx.trace()
    ctx.step(s.steps)
    if hang:
        ctx.bad(f"{what}: {hang}", case=case)
        return None
    if out.exc:
        ctx.bad(f"{what}: {out.exc}", case=case)
        return None
    m = par.Monitor(s, su.specs)
    if judged:
        ctx.state([what, m.order, m.events])
        ctx.outcome("order " + "".join(map(str, m.order)) + f", {len(m.running_overlaps)} overlaps")
        if not judge(ctx, case, what, m, s, n, deps, conf, selected, waiting):
            return None
    return m, s


def run(case, ctx):
    kind = case[0]
    thorough = ctx.tier != "quick"
    if kind in ("three", "all4"):
        deps = case[1]
        n = len(deps)
        for res in (resources(n) if n == 3 else [f[1] for f in FOUR]):
            conf = conflicts(res)
            for w in (2, 3):
                values = (0.0005, 0.004, 0.02) if thorough else (0.0005, 0.01)
                vectors = list(itertools.product(values, repeat=n))
                if not thorough and not (conf or any(deps)):
                    vectors = vectors[:2]
                if not thorough and w == 3:
                    vectors = vectors[1::5]
                for k, durs in enumerate(vectors):
                    late = 0.05 if k % 2 else 0.0
                    if one(ctx, case, f"dependencies {deps}, resources {list(res)}, {w} workers, durations {durs}, start {late}",
                           suite(deps, res, durs), n, deps, conf, [f"-p{w}", "*"], worker_delay=late) is None:
                        return
    elif kind == "four":
        deps, res = FOUR[case[1]]
        w = case[2]
        for durs in itertools.product((0.0005, 0.004, 0.02) if thorough or w == 2 else (0.001, 0.012), repeat=4):
            if one(ctx, case, f"dependencies {deps}, resources {res}, {w} workers, durations {durs}",
                   suite(deps, res, durs), 4, deps, conflicts(res), ["--parallel-count", str(w), "*"]) is None:
                return
    elif kind == "mixed":
        label, make, pairs = MIXED[case[1]]
        conf = set(pairs) | {(j, i) for i, j in pairs}
        for durs in itertools.product((0.001, 0.01), repeat=4):
            rs = make()
            given = []

            def body(i, spec, t, args):
                given.append((i, args))
                su.pause(spec["dur"])
            su = par.Suite([{"name": f"s/t{i}", "res": [rs[i]], "dur": durs[i]} for i in range(4)], body=body)
            if one(ctx, case, f"resources: {label}, {case[2]} workers, durations {durs}", su, 4, [[]] * 4, conf,
                   [f"-p{case[2]}", "*"]) is None:
                return
            for i, a in given:
                if a != (rs[i].value,):
                    ctx.bad(f"resources: {label}: test {i} was given {a}", case=case)
                    return
    elif kind in ("delay", "pairs"):
        deps, res = FOUR[case[1]]
        w, part = case[2], case[3]
        conf = conflicts(res)
        durs = (0.004, 0.001, 0.006, 0.002)
        got = one(ctx, case, f"{deps} {res}", suite(deps, res, durs), 4, deps, conf, [f"-p{w}", "*"], trace_files=LIB)
        if got is None:
            return
        points = [(a, k, where) for a, ps in got[1].points.items() for k, where in ps]
        if kind == "delay":
            jobs = [[p] for p in points[part::4]]
        else:
            jobs = [[p, q] for p, q in itertools.combinations(points[::5], 2)][part::16]
        for ps in jobs:
            for d in ((0.0025, 0.03) if kind == "delay" and w == 2 else (0.03,) if kind == "delay" else (0.003,)):
                if one(ctx, case, f"dependencies {deps}, resources {res}, {w} workers, durations {durs}, "
                       f"{[(a, where) for a, _, where in ps]} delayed by {d}",
                       suite(deps, res, durs), 4, deps, conf, [f"-p{w}", "*"], trace_files=LIB, waiting=False,
                       delays={(a, k): d for a, k, _ in ps}) is None:
                    return
    elif kind == "part":
        # a part of the tests, with the others run before
        deps, res = FOUR[case[1]]
        conf = conflicts(res)
        for k in range(1, 15):
            sel = [i for i in range(4) if k >> i & 1]
            for durs in ((0.004, 0.001, 0.006, 0.002), (0.001, 0.008, 0.002, 0.004)):
                shutil.rmtree("books", ignore_errors=True)
                os.makedirs("books")
                su = suite(deps, res, durs)
                world.execute(su.tests, "books", ["-a", "*"])
                if one(ctx, case, f"{deps} {res}, only {sel}, durations {durs}", su, 4, deps, conf,
                       ["-p2"] + [f"s/t{i}" for i in sel], selected=sel, keep=True) is None:
                    return
                # the others are to be run again
                rep = "".join(f"s/t{i}\t{'DIFF' if i in sel else 'OK'}\t1\n" for i in range(4))
                with open("books/.out/cases.txt", "w") as f:
                    f.write(rep)
                if one(ctx, case, f"{deps} {res}, -c for {sel}, durations {durs}", su, 4, deps, conf, ["-p2", "-c", "*"],
                       selected=sel, keep=True) is None:
                    return
    elif kind == "modes":
        # durations of earlier runs, accepting, questions that take long, verdicts of any kind
        deps, res = FOUR[case[1]]
        conf = conflicts(res)
        for ends in (["pass"] * 4, ["differ", "fail", "raise", "pass"], ["exit", "differ", "differ", "fail"],
                     ["fail", "exit", "pass", "differ"]):
            for durs in ((0.004, 0.001, 0.006, 0.002), (0.001, 0.008, 0.002, 0.004), (0.02, 0.01, 0.005, 0.0005)):
                for args, answers, think in ((["-p2"], "", 0), (["-p2", "-a"], "", 0), (["-p3", "-i"], "cacac", 0.1),
                                             (["-p2", "-I", "-u"], "cacacacac", 0.04), (["-p2", "-v", "-L"], "", 0)):
                    shutil.rmtree("books", ignore_errors=True)
                    os.makedirs("books")
                    su = suite(deps, res, durs, ends)
                    for again in range(2):
                        # dependents of tests without a value still start after them
                        # tests whose dependency left no value fail before they run
                        if one(ctx, case, f"{deps} {res} {ends} {args}, durations {durs}, run {again + 1}", su, 4, deps, conf,
                               args + ["*"], answers=list(answers), think=think, keep=True, selected=runnable(su, deps)) is None:
                            return
    elif kind == "class":
        for durs in itertools.product((0.001, 0.008), repeat=3):
            su = class_suite(durs)
            deps = [[], [0], [0], [], [3], [3]]
            conf = {(1, 2), (2, 1), (4, 5), (5, 4), (1, 5), (5, 1), (2, 4), (4, 2), (1, 4), (4, 1), (2, 5), (5, 2)}
            for w in (2, 4):
                if one(ctx, case, f"two instances of a class, {w} workers, durations {durs}", su, 6, deps, conf,
                       ["--parallel-count", str(w), "*"]) is None:
                    return


class ClassSuite:
    specs = []
    sched = None


def class_suite(durs):
    su = ClassSuite()

    class Book(bt.TestBook):
        def __init__(self, k):
            self.k = k
            super().__init__(f"s/b{k}")

        def go(self, i):
            su.sched.event("begin", 3 * self.k + i)
            su.sched.sleep(durs[i])
            su.sched.event("finish", 3 * self.k + i)
            return (self.k, i)

        def test_a(self, t):
            return self.go(0)

        @bt.depends_on(test_a, bt.port(9))
        def test_b(self, t, a, port):
            assert a == (self.k, 0) and port == 9
            return self.go(1)

        @bt.depends_on(bt.port(9), test_a)
        def test_c(self, t, port, a):
            assert a == (self.k, 0) and port == 9
            return self.go(2)
    import booktest as b
    su.tests = b.Tests(Book(0).cases + Book(1).cases)
    return su
