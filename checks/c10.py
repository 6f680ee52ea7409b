"""C10: dependents receive the value their dependency returned."""
import itertools
import os
import shutil

import booktest as bt
from checks import c09
from mc import inline, prog, world

ID = "C10"
TITLE = "Dependents receive the value their dependency returned"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "three tests with 6 dependency shapes; all histories of up to 2 of 9 steps (selections, new values, failures, "
             "continued, parallel) x 5 value pairs x 9 memory caches (kept or renewed between runs); all histories of 3 "
             "steps for 1 value pair and 3 caches; class instances; dependents that modify what they receive; all operation sequences of length 5 on LRU caches of "
             "size 0 to 3",
    "thorough": "three tests with 6 dependency shapes; all histories of up to 3 of 9 steps (selections, new values, failures, "
                "continued, parallel) x 6 value pairs x 9 memory caches (kept or renewed between runs); class instances; "
                "all operation sequences of length 7 on LRU caches of size 0 to 3"}
CASE_TIMEOUT = 120

VALUES = {
    "none": None, "false": False, "zero": 0, "empty": "", "list": [], "dict": {}, "one": 1, "text": "x\n\u00e9", "nested": [1, [None, {"a": (1, 2)}]],
    "bytes": b"\x00\xff", "set": {1, 2}, "big": "y" * 100000, "exc": ValueError, "float": -2.5, "true": True, "tuple": (),
}
PAIRS = [("none", "one"), ("one", "none"), ("zero", "false"), ("text", "empty"), ("list", "nested"), ("false", "none"),
         ("bytes", "set"), ("big", "dict"), ("exc", "float"), ("tuple", "true")]
SHAPES = [["A"], ["B"], ["A", "B"], ["B", "A"], ["B", "R", "A"], ["R", "A", "P"]]
STEPS = [
    ("ABC", "11", []), ("ABC", "22", []), ("ABC", "2f", []), ("A", "2f", []), ("A", "f1", []), ("C", "11", []),
    ("BC", "12", []), ("ABC", "21", ["-c"]), ("ABC", "12", ["-p2"]),
]
CACHES = ["default", "dict", "dict kept", "lru0", "lru1", "lru1 kept", "lru2 kept", "none", "none kept"]


def make_cache(kind):
    from booktest.cache import LruCache, NoCache
    kind = kind.split()[0]
    if kind == "default":
        return None
    if kind == "dict":
        return {}
    if kind == "none":
        return NoCache()
    return LruCache(int(kind[3:]))


def cases(tier):
    rv = []
    for s in range(len(SHAPES)):
        for c in CACHES:
            for h in itertools.product(range(len(STEPS)), repeat=2):
                rv.append(["history", s, c, list(h), PAIRS[:5] if tier == "quick" else PAIRS])
    caches3 = ["dict kept", "lru1 kept", "none"] if tier == "quick" else CACHES
    for s in range(len(SHAPES)):
        for c in caches3:
            for h in itertools.product(range(len(STEPS)), repeat=3):
                rv.append(["history", s, c, list(h), PAIRS[:1] if tier == "quick" else PAIRS[:6]])
    for size in range(4):
        for first in itertools.product(range(len(LRU_OPS)), repeat=2):
            rv.append(["lru", size, list(first), 3 if tier == "quick" else 5])
    for v in VALUES:
        for c in CACHES:
            rv.append(["class", v, c])
    for c in CACHES:
        for how in MODIFY:
            for again in ([], ["-c"], ["-p2"], ["s/C"]):
                rv.append(["modify", c, how, again])
    return rv


def run(case, ctx):
    {"history": run_history, "lru": run_lru, "class": run_class, "modify": run_modify}[case[0]](case, ctx)


MODIFY = {
    "append": ([1], lambda x: x.append(2)),
    "clear": ({"k": [1]}, lambda x: x.clear()),
    "deep": ([{"k": [1]}], lambda x: x[0]["k"].append(2)),
    "set": ({1, 2}, lambda x: x.add(3)),
}


def run_modify(case, ctx):
    """ a dependent changes the value it has received; another one receives what was returned all the same """
    import copy
    _, cache_kind, how, again = case
    value, change = MODIFY[how]
    changed = copy.deepcopy(value)
    change(changed)
    got = []

    def test_a(t):
        t.tln("a")
        return copy.deepcopy(value)

    @bt.depends_on(test_a)
    def test_b(t, a):
        got.append(("B", copy.deepcopy(a)))
        change(a)
        t.tln("b")

    @bt.depends_on(test_a)
    def test_c(t, a):
        got.append(("C", copy.deepcopy(a)))
        t.tln("c")

    tests = world.tests_of([("s/A", test_a), ("s/B", test_b), ("s/C", test_c)])
    cache = make_cache(cache_kind)
    for k, args in enumerate((["*"], again + (["*"] if again[:1] != ["s/C"] else []))):
        if not cache_kind.endswith("kept"):
            cache = make_cache(cache_kind)
        got.clear()
        with inline.pool():
            out = world.execute(tests, "books", args, cache=cache)
        if out.exc or not got:
            ctx.bad(f"cache {cache_kind}, arguments {args}: {out.exc or 'nothing ran'}")
            return
        ctx.step(3)
        ctx.trace()
        ctx.state([case, k])
        ctx.outcome("modified")
        for n, v in got:
            if not same(v, value):
                # the value goes on as one object as long as it is in memory
                kept = same(v, changed) and n == "C" and cache_kind not in ("none", "none kept", "lru0")
                ctx.bad(f"cache {cache_kind}, arguments {args}, run {k}: {n} received {v}, the test returned {value}, which "
                        f"a dependent changed afterwards", key="modified-value" if kept else None)
                return


def same(a, b):
    return type(a) is type(b) and a == b


class Stop(Exception):
    pass


def run_history(case, ctx):
    _, shape, cache_kind, history, pairs = case
    shape = SHAPES[shape]
    got = {}
    plan = {}

    def behave(n, t):
        t.tln(f"{n}")
        v = plan[n]
        if v == "f":
            t.fail()
            return "never"
        return VALUES[v]

    def test_a(t):
        got["A"] = []
        return behave("A", t)

    @bt.depends_on(test_a)
    def test_b(t, a):
        got["B"] = [a]
        return behave("B", t)

    deps = [{"A": test_a, "B": test_b, "R": bt.Resource(0, "zero"), "P": bt.port(8080)}[x] for x in shape]

    @bt.depends_on(*deps)
    def test_c(t, *values):
        got["C"] = list(values)
        t.tln("C")

    tests = world.tests_of([("s/A", test_a), ("s/B", test_b), ("s/C", test_c)])
    dep_of = {"A": [], "B": ["A"], "C": [x for x in shape if x in "AB"]}
    for pair in pairs:
        value = {"1": pair[0], "2": pair[1], "f": "f"}
        shutil.rmtree("books", ignore_errors=True)
        cache = make_cache(cache_kind)
        stored, rec, touched = {}, {}, False
        for k, s in enumerate(history):
            sel, beh, args = STEPS[s]
            if not cache_kind.endswith("kept"):
                cache = make_cache(cache_kind)
            if touched:
                cache = make_cache(cache_kind)     # other processes have run the tests: the cache is not used any longer
            touched = touched or "-p2" in args
            plan.update(A=value[beh[0]], B=value[beh[1]])
            got.clear()
            with inline.pool():
                out = world.execute(tests, "books", args + [f"s/{x}" for x in sel], cache=cache)
            g = {"A": [], "B": [0], "C": [{"A": 0, "B": 1}[d] for d in dep_of["C"]]}
            want = c09.expected([g["A"], g["B"], g["C"]], ["ABC".index(x) for x in sel],
                                ["ABC".index(x) for x in stored],
                                ["ABC".index(x) for x, v in rec.items() if v == "OK"], args)
            rep = world.report("books")
            label = f"dependencies {shape}, cache {cache_kind}, values {pair}, " \
                    f"history {[STEPS[i] for i in history[:k + 1]]}"
            one = case[:4] + [[pair]]
            if out.exc:
                ctx.bad(f"{label}\n{out.exc}", case=one)
                return
            for x in "ABC":
                if "ABC".index(x) not in want:
                    if x in got:
                        ctx.bad(f"{label}\n{x} ran although it was not to run", case=one)
                        return
                    continue
                if all(d in stored for d in dep_of[x]):
                    expect = [stored[d][0] if d in stored else 0 if d == "R" else 8080
                              for d in ({"A": [], "B": ["A"]}.get(x, shape))]
                    if x not in got:
                        ctx.bad(f"{label}\n{x} was not run ({rep.get('s/' + x)}), although all values were there\n"
                                f"{(world.read(f'books/.out/s/{x}.md') or b'').decode()[-800:]}", case=one)
                        return
                    if len(got[x]) != len(expect) or not all(same(a, b) for a, b in zip(got[x], expect)):
                        ctx.bad(f"{label}\n{x} received {world.short(got[x])}, expected {world.short(expect)}", case=one)
                        return
                    b = plan.get(x, "none")
                    if b == "f":
                        verdict = "FAIL"
                    else:
                        verdict = "DIFF"
                        stored[x] = [VALUES[b] if x != "C" else None]
                else:
                    verdict = "FAIL"
                    if x in got:
                        ctx.bad(f"{label}\n{x} ran with {got[x]} although a value is missing", case=one)
                        return
                rec[x] = verdict
                if rep.get("s/" + x) != verdict:
                    ctx.bad(f"{label}\n{x} recorded as {rep.get('s/' + x)}, expected {verdict}", case=one)
                    return
            ctx.step(len(want))
            ctx.trace()
            ctx.outcome(f"{len(want)} run")
            ctx.state([shape, cache_kind, pair, history[:k + 1]])


LRU_OPS = [("set", k, v) for k in "abc" for v in (0, 1)] + [("get", k, None) for k in "abc"]


def run_lru(case, ctx):
    """ a cached value is the last one stored; a cache never holds more than its size """
    from booktest.cache import LruCache
    _, size, first, more = case
    for rest in itertools.product(range(len(LRU_OPS)), repeat=more):
        c = LruCache(size)
        last = {}
        seq = first + list(rest)
        for o in seq:
            op, k, v = LRU_OPS[o]
            if op == "set":
                c[k] = v
                last[k] = v
                if size and k not in c:
                    ctx.bad(f"LruCache({size}): the value stored last is not there, operations {[LRU_OPS[i] for i in seq]}")
                    return
            if k in c and (k not in last or c[k] != last[k]):
                ctx.bad(f"LruCache({size}): {k} is {c[k]}, stored was {last.get(k)}, operations {[LRU_OPS[i] for i in seq]}")
                return
            if len(c) > size:
                ctx.bad(f"LruCache({size}) holds {len(c)} values, operations {[LRU_OPS[i] for i in seq]}")
                return
        ctx.step(len(seq))
        ctx.trace()
    ctx.state(case)
    ctx.outcome("lru")


def run_class(case, ctx):
    """ every instance of a class gets its own values """
    _, v, cache_kind = case
    v = VALUES[v]
    got = {}

    class Base(bt.TestBook):
        def __init__(self, path, tag):
            super().__init__(path)
            self.tag = tag

        def test_a(self, t):
            t.tln("a")
            return [self.tag, v]

        def test_p(self, t):
            """ the plain value for one instance, other ones for the others """
            t.tln("p")
            return v if self.tag == "2" else self.tag

        @bt.depends_on(test_p)
        def test_e(self, t, p):
            got[self.tag + "e"] = [p]

        @bt.depends_on(bt.Resource(v if isinstance(v, (int, str)) else "r", "res"), test_a)
        def test_b(self, t, r, a):
            got[self.tag + "b"] = [r, a]
            return (self.tag, "b")

        @bt.depends_on(test_b, test_a)
        async def test_c(self, t, b, a):
            got[self.tag + "c"] = [b, a]

    class Sub(Base):
        def __init__(self, path, tag):
            super().__init__(path, tag)

        def test_own(self, t):
            return self.tag + "own"

        @bt.depends_on(test_own, Base.test_a)
        def test_d(self, t, own, a):
            got[self.tag + "d"] = [own, a]

    class Shares(Base):
        test_a = Base.test_a
        test_b = Base.test_b

    r = v if isinstance(v, (int, str)) else "r"
    want = {"hb": [r, ["h", v]]}
    shares = Shares("a/shares", "h")        # before its base
    for x in "12":
        want[x + "e"] = [v if x == "2" else x]
    for x in "12":
        want[x + "b"] = [r, [x, v]]
        want[x + "c"] = [(x, "b"), [x, v]]
    for x in "st":
        want[x + "d"] = [x + "own", ["1", v]]
    suites = [Base("m/one", "1"), Base("m/one/two", "2"), Sub("z/s", "s"), Sub("z/t", "t"), shares]
    for args in ([], ["-p2"], ["-p1"]):
        for order in (suites, [suites[i] for i in (2, 4, 0, 3, 1)]):
            for x in "st":
                want[x + "d"] = [x + "own", ["1" if order is suites else "h", v]]   # of the first instance
            tests = bt.merge_tests(order)
            shutil.rmtree("books", ignore_errors=True)
            cache = make_cache(cache_kind)
            for sel in (["a/shares/b"], ["m/one/b"], ["*"], ["m/one/two/c", "z/t/d", "m/one/b", "m/one/two/e"], ["m/one/c", "z/s"]):
                if not cache_kind.endswith("kept") or "-p" in "".join(args):
                    cache = make_cache(cache_kind)
                got.clear()
                with inline.pool():
                    out = world.execute(tests, "books", args + sel, cache=cache)
                ctx.step(10)
                ctx.trace()
                ctx.state([case, args, sel])
                ctx.outcome("class")
                need = {"*": list(want), "m/one/c": ["1c", "sd"], "a/shares/b": ["hb"], "m/one/b": ["1b"]}.get(sel[0], ["2c", "td", "1b", "2e"])
                for k in need:
                    if out.exc or k not in got or not all(same(a, b) for a, b in zip(got[k], want[k])):
                        ctx.bad(f"instances, value {world.short(v)}, cache {cache_kind}, arguments {args + sel}: {k} received "
                                f"{world.short(got.get(k))}, expected {world.short(want[k])}\n{out.exc or ''}")
                        return
