"""C15: function results are replayed as recorded."""
import copy
import itertools
import math
import os
import shutil
import sys
import types

import booktest as bt
from mc import world

ID = "C15"
TITLE = "Function results are replayed as recorded"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all recorded and current call sequences of up to 2 out of 7 calls x plain, -s, -S, followed by a plain run; all "
             "sequences of up to 3 out of 13 calls (functions of two modules of the same name, method, class method, "
             "built-in; positional and keyword arguments; modification of arguments and results) recorded with -s or -S "
             "and replayed; mocks: all sets of up to 2 of 6 functions, stacked, x 4 ways of ending",
    "thorough": "recorded and current sequences of up to 3 calls out of 8, sequences of up to 4 calls out of 13 replayed"}
CASE_TIMEOUT = 300

VERSION = [0]
CALLS = []

SRC = """
def f(x=0, **kw):
    return work("%s.f", [x], kw)

def g(*args):
    return work("%s.g", list(args), {})

class K:
    def __init__(self, name):
        self.name = name
    def m(self, x):
        return work("%s.m." + self.name, [x], {})
    @classmethod
    def c(cls, x):
        return work("%s.c." + cls.__name__, [x], {})
    @staticmethod
    def s(x):
        return x

class Sub(K):
    pass
"""


def work(name, args, kw):
    """ every value shows the function, the arguments and the time of the call; values of all kinds """
    CALLS.append(copy.deepcopy([name, args, kw]))
    if args and isinstance(args[0], str) and args[0] in FALSY:
        return copy.copy(FALSY[args[0]])
    return {"by": name, "args": repr(args), "kw": repr(sorted(kw.items())), "v": VERSION[0], "list": [1, [2.5, None, "ä"]]}


FALSY = {"none": None, "false": False, "zero": 0, "empty": "", "list": [], "dict": {}}

MODS = {}
for _n in ("vpm1", "vpm2"):
    _m = types.ModuleType(_n)
    _m.work = work
    exec(SRC.replace("%s", _n), _m.__dict__)
    sys.modules[_n] = _m
    MODS[_n] = _m
M1, M2 = MODS["vpm1"], MODS["vpm2"]
OBJ = M1.K("o")
OBJ2 = M1.K("p")
ORIG = {"f": M1.f, "g": M1.g, "f2": M2.f, "m": OBJ.m, "m2": OBJ2.m, "c": M1.K.c, "gcd": math.gcd}


def mutate(v):
    if isinstance(v, dict):
        v["list"][1][0] = "changed"
        v["list"].append("changed")
        v["more"] = v["by"] = 1
    elif isinstance(v, list):
        v.append("changed")


def mutated_arg():
    a = [1]
    r = M1.f(a)
    a.append(2)
    return r


OPS = {
    "f1": (lambda: M1.f(1), ["vpm1.f", [1], {}]),
    "f2": (lambda: M1.f("1"), ["vpm1.f", ["1"], {}]),
    "fm": (lambda: M1.f([1]), ["vpm1.f", [[1]], {}]),
    "fa": (mutated_arg, ["vpm1.f", [[1]], {}]),
    "kw": (lambda: M1.f(1, k="ä"), ["vpm1.f", [1], {"k": "ä"}]),
    "kn": (lambda: M1.f(1, k=None), ["vpm1.f", [1], {"k": None}]),
    "none": (lambda: M1.f("none"), ["vpm1.f", ["none"], {}]),
    "list": (lambda: M1.f("list"), ["vpm1.f", ["list"], {}]),
    "g0": (lambda: M1.g(), ["vpm1.g", [], {}]),
    "g1": (lambda: M1.g(1), ["vpm1.g", [1], {}]),
    "g2": (lambda: M1.g({"a": 1, "b": None}, True), ["vpm1.g", [{"a": 1, "b": None}, True], {}]),
    "o1": (lambda: M2.f(1), ["vpm2.f", [1], {}]),
    "m1": (lambda: OBJ.m(1), ["vpm1.m.o", [1], {}]),
    "p1": (lambda: OBJ2.m(1), ["vpm1.m.p", [1], {}]),
    "c1": (lambda: M1.K.c(1), ["vpm1.c.K", [1], {}]),
    "zero": (lambda: M1.g("zero"), ["vpm1.g", ["zero"], {}]),
}
PAIR = ["f1", "fm", "kw", "none", "g0", "g1", "o1", "p1"]
LONG = ["f1", "kn", "f2", "fm", "fa", "kw", "none", "list", "g2", "o1", "m1", "p1", "c1"]
FUNCS = ["f", "g", "f2", "m", "m2", "c"]


def seqs(ops, n):
    for k in range(n + 1):
        yield from (list(x) for x in itertools.product(ops, repeat=k))


def cases(tier):
    rv = []
    ops = PAIR[:7] if tier == "quick" else PAIR
    for r in seqs(ops, 2):
        rv.append(["pair", r, 2 if tier == "quick" else 3])
    for a in LONG:
        rv.append(["replay", [a], 3 if tier == "quick" else 4])
    for a in seqs(["f1", "g1", "zero", "o1"], 2):
        rv.append(["replay", a, 0])
    for k in (1, 2):
        for s in itertools.combinations(MOCKS, k):
            rv.append(["mock", list(s)])
    if tier == "thorough":
        for s in itertools.product(MOCKS, repeat=3):
            rv.append(["mock", list(s)])
    return rv


class Test:
    """ a test that makes the calls, looks at the values and modifies them """

    def __init__(self):
        self.calls = []
        self.values = []
        self.error = None
        self.look = False

        @bt.snapshot_functions(*[ORIG[n] for n in FUNCS])
        def test(t):
            for c in self.calls:
                try:
                    v = OPS[c][0]()
                except BaseException as e:
                    self.error = e
                    raise
                self.values.append(repr(v))
                if self.look:
                    t.tln(repr(v))
                mutate(v)

        self.tests = world.tests_of([("s/f", test)])

    def run(self, calls, version, args):
        self.calls, self.values, self.error = calls, [], None
        VERSION[0] = version
        CALLS.clear()
        return world.execute(self.tests, "books", args + ["*"])


def value(op, version):
    VERSION[0] = version
    v = repr(work(*OPS[op][1]))
    CALLS.pop()
    return v


def key(op):
    return repr(OPS[op][1])


def restored():
    now = {"f": M1.f, "g": M1.g, "f2": M2.f, "m": OBJ.m, "m2": OBJ2.m, "c": M1.K.c, "gcd": math.gcd}
    bad = [n for n in now if now[n] != ORIG[n]]
    if M1.Sub.c(5)["by"] != "vpm1.c.Sub":
        bad.append("Sub.c")
    CALLS.clear()
    return bad


def put_back():
    M1.f, M1.g, M2.f, math.gcd = ORIG["f"], ORIG["g"], ORIG["f2"], ORIG["gcd"]
    OBJ.__dict__.pop("m", None)
    OBJ2.__dict__.pop("m", None)
    M1.K.c = classmethod(ORIG["c"].__func__)


def check_run(t, out, calls, recorded, version, mode, label):
    """ recorded: {call: version}. Returns (message, the new recording) """
    fresh = {} if "-S" in mode else dict(recorded)
    missing = [c for c in calls if key(c) not in fresh]
    verdict = world.report("books").get("s/f")
    if out.exc:
        return out.exc, None
    bad = restored()
    if bad:
        return f"not restored after the test: {bad}", None
    made = {repr(c) for c in t.made}
    if not mode:
        if made:
            return f"really called: {sorted(made)}", None
        if missing:
            n = calls.index(missing[0])
            want = [value(c, fresh[key(c)]) for c in calls[:n]]
            if verdict != "FAIL" or t.values != want:
                return f"the unrecorded call {missing[0]} gives verdict {verdict}, values {t.values}, expected {want}", None
            return None, None
    else:
        if made != {key(c) for c in missing}:
            return f"really called {sorted(made)}, expected {sorted({key(c) for c in missing})}", None
    new = {key(c): fresh.get(key(c), version) for c in calls}
    want = [value(c, new[key(c)]) for c in calls]
    if t.values != want:
        return f"values {t.values}, expected {want}", None
    if verdict == "FAIL":
        return f"verdict {verdict}", None
    return None, new


def step(t, ctx, calls, recorded, version, mode, label, case):
    out = t.run(calls, version, mode)
    t.made = list(CALLS)
    ctx.trace()
    ctx.step(len(calls))
    ctx.outcome(f"{mode} {world.report('books').get('s/f')}")
    ctx.state([calls, sorted(recorded.items()), mode])
    msg, new = check_run(t, out, calls, recorded, version, mode, label)
    if msg:
        put_back()
        ctx.bad(f"{label}: {msg}", case=case)
        return None
    return new if new is not None else {}


def run(case, ctx):
    if case[0] == "mock":
        return run_mock(case, ctx)
    t = Test()
    if case[0] == "replay":
        n = case[2]
        for tail in seqs(LONG, max(0, n - 1)):
            calls = case[1] + tail
            for mode in (["-s"], ["-S"]):
                t.look = True
                shutil.rmtree("books", ignore_errors=True)
                label = f"calls {calls}, recorded with {mode}"
                rec = step(t, ctx, calls, {}, 1, mode + ["-a"], label, case)
                if rec is None:
                    return
                got = step(t, ctx, calls, rec, 2, [], label + ", replayed", case)
                if got is None:
                    return
                if world.report("books") != {"s/f": "OK"}:
                    ctx.bad(f"{label}: the replay gives {world.report('books')}", case=case)
                    return
        return
    recorded, n = case[1], case[2]
    t.look = False
    os.mkdir("store")
    label = f"recorded {recorded}"
    rec = step(t, ctx, recorded, {}, 1, ["-S", "-a"], label, case)
    if rec is None:
        return
    shutil.copytree("books", "store/books")
    for current in seqs(PAIR[:5] + PAIR[6:7] if n == 3 else PAIR[:7], n):
        for mode in ([], ["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s", "-S", "-a", "-u"]):
            shutil.rmtree("books")
            shutil.copytree("store/books", "books")
            label = f"recorded {recorded}, current {current}, {mode}"
            new = step(t, ctx, current, rec, 2, mode, label, case)
            if new is None:
                return
            if not mode:
                if current == recorded and world.report("books") != {"s/f": "OK"}:
                    ctx.bad(f"{label}: the replay gives {world.report('books')}", case=case)
                    return
                continue
            again = step(t, ctx, current, new, 3, [], label + ", then plain", case)
            if again is None:
                return
            if world.report("books") != {"s/f": "OK"}:
                ctx.bad(f"{label}: the following plain run gives {world.report('books')}", case=case)
                return


MOCKS = ["f", "g", "f2", "m", "c", "gcd"]


def run_mock(case, ctx):
    names = case[1]

    def look():
        return {"f": M1.f, "g": M1.g, "f2": M2.f, "m": OBJ.m, "m2": OBJ2.m, "c": M1.K.c, "gcd": math.gcd}

    for how in ("one", "stacked", "with snapshots", "method"):
        for end in ("pass", "raise", "exit", "interrupt"):
            mocks = [(n, (lambda *a, n=n, i=i: f"mock {n} {i}")) for i, n in enumerate(names)]
            seen = []

            def body(t):
                seen.append(look())
                if "f" in names:
                    t.tln(M1.f(3))
                if end == "raise":
                    raise ValueError()
                if end == "exit":
                    raise SystemExit(0)
                if end == "interrupt":
                    raise KeyboardInterrupt()

            fn = body
            want = dict(ORIG)
            for n, m in mocks:
                want[n] = m
            if how == "one":
                fn = bt.mock_functions({ORIG[n]: m for n, m in mocks})(fn)
            elif how == "with snapshots":
                for n, m in reversed(mocks):
                    fn = bt.mock_functions({ORIG[n]: m})(fn)
                others = [ORIG[n] for n in FUNCS if n not in names]
                fn = bt.snapshot_functions(*others)(fn)
            else:
                for n, m in reversed(mocks):
                    fn = bt.mock_functions({ORIG[n]: m})(fn)
            if how == "method":
                class MockBook(bt.TestBook):
                    def __init__(self):
                        super().__init__("s")
                    test_m = (lambda f: lambda self, t: f(t))(body)
                inner = MockBook.test_m
                for n, m in reversed(mocks):
                    inner = bt.mock_functions({ORIG[n]: m})(inner)
                MockBook.test_m = inner
                tests = bt.Tests(MockBook().cases)
            else:
                tests = world.tests_of([("s/m", fn)])
            shutil.rmtree("books", ignore_errors=True)
            world.execute(tests, "books", ["-S", "-a", "*"])
            out = world.execute(tests, "books", ["*"])
            ctx.trace()
            ctx.step()
            ctx.state([names, how, end])
            bad = restored()
            msg = None
            if bad:
                msg = f"not restored after the test: {bad}"
            elif len(seen) != 2:
                msg = f"the test was reached {len(seen)} times"
            else:
                for s in seen:
                    for n in ORIG:
                        mocked = how != "with snapshots" or n in names or n not in FUNCS
                        if mocked and s[n] != want[n]:
                            msg = f"during the test {n} is {s[n]!r}"
            if end == "pass" and not msg and world.report("books") != {"s/m": "OK"}:
                msg = f"verdict {world.report('books')} {out.exc or ''}"
            if msg:
                put_back()
                ctx.bad(f"mocks of {names}, {how}, {end}: {msg}", case=case)
                return
