"""C31: suites made of suites hold exactly the tests of their parts."""
import itertools
import os
import shutil

import booktest as bt
from booktest.testsuite import cases_of, decorate_tests
from mc import inline, world

ID = "C31"
TITLE = "Suites made of suites hold exactly the tests of their parts"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all expressions of up to 2 of 24 operations (naming, merging, dropping of prefixes, decorating with 10 decorators) over 8 suites "
             "of functions, coroutines, test books, dependencies and resources: names, order, what runs, with which decorations, in which "
             "order, with which values, serially and in parallel, and the parts as they were; all nested lists of up to 4 suites",
    "thorough": "expressions of up to 3 operations"}
CASE_TIMEOUT = 240

LOG = []
ENV = ("VP_A", "VP_B", "VP_C")


def note(t, leaf, *values):
    LOG.append([leaf, *[os.environ.get(k) for k in ENV], list(values)])
    t.tln(leaf)


def fa(t):
    note(t, "fa")
    return "of fa"


@bt.depends_on(fa)
def fb(t, a):
    note(t, "fb", a)
    return a + ", fb"


@bt.depends_on(fb, fa, bt.Resource("r"))
def fc(t, b, a, r):
    note(t, "fc", b, a, r)


async def co(t):
    note(t, "co")
    return 7


@bt.mock_env({"VP_A": "own"})
@bt.depends_on(co)
async def dco(t, v):
    note(t, "dco", v)


class Book(bt.TestBook):
    def __init__(self, name, tag):
        self.tag = tag
        super().__init__(name)

    def test_make(self, t):
        note(t, self.tag + "make")
        return self.tag

    @bt.depends_on(test_make)
    def test_use(self, t, x):
        note(t, self.tag + "use", x)

    @bt.depends_on(test_make, fa)
    async def test_more(self, t, x, a):
        note(t, self.tag + "more", x, a)

    # defined again
    test_more = bt.mock_env({"VP_Z": "z"})(test_more)


one, two = Book("b/one", "1"), Book("b/two", "2")
FA, FB, FC, CO, DCO = ("fa", []), ("fb", ["fa"]), ("fc", ["fb", "fa", "=r"]), ("co", []), ("dco", ["co"])


def book(tag):
    return [(tag + "make", []), (tag + "use", [tag + "make"]), (tag + "more", [tag + "make", "fa"])]


# suite, its tests as (name, leaf, decorations)
LEAVES = [
    ("functions", bt.Tests([["s/a", fa], ["s/b", fb], ["s/c", fc]]), [("s/a", "fa"), ("s/b", "fb"), ("s/c", "fc")]),
    ("reversed", bt.Tests([["q/c", fc], ["q/b", fb], ["q/a", fa]]), [("q/c", "fc"), ("q/b", "fb"), ("q/a", "fa")]),
    ("coroutines", bt.TestSuite("s", [["co", co], ["dco", dco]]), [("s/co", "co"), ("s/dco", "dco")]),
    ("book", one, [("b/one/make", "1make"), ("b/one/use", "1use"), ("b/one/more", "1more")]),
    ("other book", two, [("b/two/make", "2make"), ("b/two/use", "2use"), ("b/two/more", "2more")]),
    ("empty", bt.Tests([]), []),
    ("one", bt.Tests([["s/a", fa]]), [("s/a", "fa")]),
    ("repeating", bt.Tests([["s/t/s/a", fa], ["s/s/b", fb], ["s/ss/c", fc], ["q/s/a", co], ["ss/co", dco]]),
     [("s/t/s/a", "fa"), ("s/s/b", "fb"), ("s/ss/c", "fc"), ("q/s/a", "co"), ("ss/co", "dco")]),
]
DEPENDS = dict([FA, FB, FC, CO, DCO] + book("1") + book("2"))
VALUE = {"fa": "of fa", "fb": "of fa, fb", "co": 7, "1make": "1", "2make": "2"}


def set_up():
    os.environ["VP_B"] = "up"
    yield
    os.environ.pop("VP_B", None)


DECORATORS = {
    "mock": (bt.mock_env({"VP_A": "mocked"}), {"VP_A": "mocked"}),
    "missing": (bt.mock_missing_env({"VP_A": "missing"}), None),
    "both": (bt.combine_decorators(bt.mock_env({"VP_A": "a of both"}), bt.mock_env({"VP_B": "b of both"})),
             {"VP_A": "a of both", "VP_B": "b of both"}),
    "three": (bt.combine_decorators(*[bt.mock_env({k: "three"}) for k in ENV]), {k: "three" for k in ENV}),
    "setup": (bt.setup_teardown(set_up), {"VP_B": "up"}),
    # these leave the environment alone; the last four write about it in the document
    "functions": (bt.mock_functions({}), {}),
    "calls": (bt.snapshot_functions(), {}), "requests": (bt.snapshot_requests(), {}), "httpx": (bt.snapshot_httpx(), {}),
    "env": (bt.snapshot_env(), {}),
}


# operations: name, (suite operation, model operation)
def op_suite(name):
    return lambda s: bt.TestSuite(name, s.cases), lambda m: [(os.path.join(name, n), leaf, d) for n, leaf, d in m]


def op_drop(prefix):
    p = prefix.rstrip("/") + "/"
    return lambda s: bt.testsuite.drop_prefix(prefix, s), lambda m: [(n[len(p):], leaf, d) for n, leaf, d in m if n.startswith(p)]


def op_decorate(name):
    # the new decoration is the outermost
    return lambda s: decorate_tests(DECORATORS[name][0], s), lambda m: [(n, leaf, [name] + d) for n, leaf, d in m]


def merged(m):
    rv, seen_before = [], set()
    for n, leaf, d in m:
        # two decorations of a test are different tests
        key = (n, leaf, id(d) if d else None)
        if key not in seen_before:
            seen_before.add(key)
            rv.append((n, leaf, d))
    return rv


def op_merge(i, how):
    leaf = LEAVES[i]
    other = [(n, x, []) for n, x in leaf[2]]
    if how == "after":
        return lambda s: bt.merge_tests([s, leaf[1]]), lambda m: merged(m + other)
    if how == "before":
        return lambda s: bt.merge_tests([leaf[1], [s]]), lambda m: merged(other + m)
    return lambda s: bt.Tests(cases_of([[leaf[1]], s])), lambda m: other + m


OPS = {
    "suite n": op_suite("n"), "suite n/m": op_suite("n/m"), "suite s2": op_suite("s2"), "suite ''": op_suite(""),
    "drop s": op_drop("s"), "drop s/": op_drop("s/"), "drop b/one": op_drop("b/one"), "drop n": op_drop("n"), "drop q/c": op_drop("q/c"),
    "decorate mock": op_decorate("mock"), "decorate missing": op_decorate("missing"), "decorate both": op_decorate("both"),
    "decorate setup": op_decorate("setup"), "decorate three": op_decorate("three"),
    **{f"decorate {k}": op_decorate(k) for k in ("functions", "calls", "requests", "httpx", "env")},
    "merge itself": (lambda s: bt.merge_tests([s, s, [s]]), merged),
    "merge functions": op_merge(0, "after"), "before book": op_merge(3, "before"), "merge other book": op_merge(4, "after"),
    "list reversed": op_merge(1, "list"),
}


def cases(tier):
    rv = []
    for leaf in range(len(LEAVES)):
        for a in [None] + list(OPS):
            rv.append([leaf, a, 1 if tier == "quick" else 2])
    for n in range(5 if tier == "quick" else 6):
        rv.append(["nested", n])
    return rv


def seen(decorations, leaf):
    """ the environment a test sees: decorations from the outside to the inside """
    env = dict.fromkeys(ENV)
    for d in decorations + (["own"] if leaf == "dco" else []):
        if d == "own":
            env["VP_A"] = "own"
        elif d == "missing":
            if env["VP_A"] is None:
                env["VP_A"] = "missing"
        else:
            env.update(DECORATORS[d][1])
    return env


def describe(suite):
    return [(c[0], c[1]) for c in suite.cases]


def nestings(names, depth=3):
    """ all lists of these suites in this order, with lists in lists and empty lists """
    if not names:
        return [[]] if depth == 0 else [[], [[]]]
    rv = []
    for k in range(1, len(names) + 1):
        for rest in (nestings(names[k:], depth) if k < len(names) else [[]]):
            heads = [names[0]] if k == 1 else []
            if depth:
                heads += nestings(names[:k], depth - 1)
            rv.extend([h, *rest] for h in heads)
    return rv


def run_nested(case, ctx):
    n = case[1]
    fns = [(lambda t, i=i: t.tln(str(i))) for i in range(n)]
    seen_before = set()
    # the last one is a part again
    for names in ([*range(n)], [*range(n - 1), 0] if n > 2 else None):
        for shape in nestings(names) if names is not None else []:
            if str(shape) in seen_before:
                continue
            seen_before.add(str(shape))
            suites = [bt.Tests([[f"s/{i}", fns[i]], [f"s/{i}x", fa]]) for i in range(n)]

            def build(x):
                return [build(y) for y in x] if isinstance(x, list) else suites[x]
            want = [(f"s/{i}{p}", fa if p else fns[i]) for i in names for p in ("", "x")]
            made = build(shape)
            got = [(c[0], c[1]) for c in cases_of(made)]
            merged_ = [(c[0], c[1]) for c in bt.merge_tests(made).cases]
            once = list(dict.fromkeys(want))
            decorated = [c[0] for c in decorate_tests(DECORATORS["functions"][0], made).cases]
            ctx.step(1)
            ctx.trace()
            ctx.state(["nested", shape])
            ctx.outcome("nested")
            if got != want or merged_ != once or decorated not in ([x for x, _ in want], [x for x, _ in once]):
                ctx.bad(f"suites of two tests in the list {shape}: it holds {[x for x, _ in got]}, merged {[x for x, _ in merged_]}, "
                        f"decorated {decorated}; expected {[x for x, _ in want]}")
                return
            if [describe(x) for x in suites] != [[(f"s/{i}", fns[i]), (f"s/{i}x", fa)] for i in range(n)]:
                ctx.bad(f"suites in the list {shape}: the parts changed")
                return


def run(case, ctx):
    if case[0] == "nested":
        return run_nested(case, ctx)
    leaf, first, more = case[:3]
    label0, base, model = LEAVES[leaf]
    only = case[3] if len(case) > 3 else None
    lists = [[]] if first is None else [[first, *rest] for k in range(more + 1) for rest in itertools.product(OPS, repeat=k)]
    parts = [(x[1], describe(x[1])) for x in LEAVES]
    for ops in lists:
        if only is not None and ops != only:
            continue
        suite, m = base, [(n, x, []) for n, x in model]
        for o in ops:
            suite, m = OPS[o][0](suite), OPS[o][1](m)
        what = f"{label0} after {ops}"
        ctx.trace()
        ctx.step(len(ops))
        ctx.state([leaf, ops])
        msg = check(suite, m, ctx) or next((f"a part changed: {s.cases}" for s, c in parts if describe(s) != c), None)
        if msg:
            ctx.bad(f"{what}: {msg}", case=[leaf, first, more, ops])
            return


def check(suite, m, ctx):
    names = [n for n, _, _ in m]
    if [c[0] for c in suite.cases] != names:
        return f"the tests are {[c[0] for c in suite.cases]}, expected {names}"
    if len(set(names)) != len(names) or any(a != b and b.startswith(a + "/") for a in names for b in names):
        ctx.outcome("names clash")
        return None                 # what is run is another matter
    there = {leaf for _, leaf, _ in m}
    for args in (["-a"], ["-p2"]):
        LOG.clear()
        shutil.rmtree("books/.out", ignore_errors=True)
        for k in ENV:
            os.environ.pop(k, None)
        with inline.pool():
            if not isinstance(suite, bt.Tests):
                suite = bt.Tests(suite.cases)
            out = world.execute(suite, "books", args + ["*"] if names else args)
        if out.exc:
            return out.exc
        rep = world.report("books")
        # a test without a dependency fails before it begins
        begins = {n: all(d in there or d[0] == "=" for d in DEPENDS[leaf]) for n, leaf, _ in m}
        # a test fails too, if what it depends on failed
        ok = {leaf: True for leaf in there}
        changed = True
        while changed:
            changed = False
            for leaf in there:
                good = all(d[0] == "=" or d in there and ok[d] for d in DEPENDS[leaf])
                if ok[leaf] and not good:
                    ok[leaf] = False
                    changed = True
        want = {n: "OK" if ok[leaf] else "FAIL" for n, leaf, _ in m}
        ctx.outcome(sorted(set(want.values())))
        if rep != want:
            return f"run {args}: {rep}, expected {want}: {(world.read('books/.out/' + next(n for n in want if rep.get(n) != want[n]) + '.md') or b'').decode()[-600:]}"
        expected = []
        for n, leaf, d in m:
            if ok[leaf]:
                env = seen(d, leaf)
                expected.append([leaf, *[env[k] for k in ENV],
                                 [x[1:] if x[0] == "=" else VALUE[x] for x in DEPENDS[leaf]]])
        if sorted(LOG, key=repr) != sorted(expected, key=repr):
            return f"run {args}: these ran {LOG}, expected {expected}"
        order = [x[0] for x in LOG]
        for i, x in enumerate(order):
            for d in DEPENDS[x]:
                if d[0] != "=" and d not in order[:i]:
                    return f"run {args}: {x} ran before {d}: {order}"
        for n, leaf, d in m:
            doc = world.read(f"books/{n}.md")
            if ok[leaf] and (doc is None or not doc.startswith(f"{leaf}\n".encode()) or
                             doc != f"{leaf}\n".encode() and not {"calls", "requests", "httpx", "env"} & set(d)):
                return f"run {args}: the document of {n} is {doc}"
    shutil.rmtree("books")
    return None
