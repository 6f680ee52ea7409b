"""C18: selecting tests means what the names say."""
import itertools
import os
import shutil

import booktest as bt
from mc import inline, world

ID = "C18"
TITLE = "Selecting tests means what the names say"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sets of 1 to 3 of 12 hierarchical names (prefixes, extensions, other letter case, dots) with all lists of 1 "
             "and 2 selectors (every name and suite, *, skip:) listed, and one list of each kind run, forgotten and reviewed; "
             "6 sets of 5 names with all lists of up to 3 selectors; all default selections of 1 and 2 selectors and some of 3 and more; a "
             "dependency on a test that is selected or not, skipped or not, with a stored value or not",
    "thorough": "all sets of 1 to 4 of 12 names with lists of 1 to 3 selectors listed and of 1 and 2 run"}
CASE_TIMEOUT = 240

POOL = ["a", "a/b", "a/b/c", "ab", "a/bc", "ab/c", "b", "b/a", "a.b", "A/b", "a/skip", "a/b/c/d/e"]
BIG = [["a/b/c", "a/b/d", "a/bc/c", "ab/b/c", "b/a/b"], ["a", "ab", "abc", "b", "a/b"],
       ["x/a/b", "x/ab", "x/a/bc", "a/x", "xa"], ["a/b", "a/b/c", "a/b.c", "a/bc", "ab"],
       ["s/t1", "s/t10", "s/t1/x", "s/t11", "st1"], ["a/b/c/d/e", "a/b/c/de", "a/b/cd/e", "b/c/d/e", "a/b/c/x"]]


def cases(tier):
    rv = []
    if tier == "quick":
        for n in (1, 2, 3):
            for names in itertools.combinations(POOL, n):
                rv.append(["set", list(names), 2, 1])
        for names in BIG:
            for k in range(8):
                rv.append(["part", names, 3, k, 8])
    else:
        for n in (1, 2, 3, 4):
            for names in itertools.combinations(POOL, n):
                rv.append(["set", list(names), 2, 2])
                if n > 1:
                    for k in range(4):
                        rv.append(["part", list(names), 3, k, 4])
        for names in BIG:
            for k in range(8):
                rv.append(["part", names, 3, k, 8])
    for names in BIG + [["a/b", "ab"], ["test/a", "tests/b", "book"], ["test", "book/x", "run/x", "testing"]]:
        rv.append(["default", names])
    for stored in (0, 1):
        for i in range(len(DEPS)):
            rv.append(["deps", i, stored])
    return rv


def covers(selector, name):
    """ whole leading path components """
    s, n = selector.split("/"), name.split("/")
    return n[:len(s)] == s


def selected(name, selectors):
    excluded = [s[5:] for s in selectors if s.startswith("skip:")]
    included = [s for s in selectors if not s.startswith("skip:")]
    if any(covers(s, name) for s in excluded):
        return False
    return not included or any(s == "*" or covers(s, name) for s in included)


def choices(names):
    prefixes = []
    for n in names:
        p = n.split("/")
        for i in range(len(p)):
            x = "/".join(p[:i + 1])
            if x not in prefixes:
                prefixes.append(x)
    return prefixes + ["*"] + ["skip:" + p for p in prefixes]


class Suite:
    def __init__(self, names, deps=None):
        self.log = []
        self.names = names
        fns = {}

        def make(n, dep):
            if dep is None:
                def test(t):
                    self.log.append(n)
                    t.tln(n)
                    return n
                return test

            @bt.depends_on(fns[dep])
            def test2(t, v):
                self.log.append(n)
                t.tln(n + v)
                return n
            return test2
        for n in names:
            fns[n] = make(n, (deps or {}).get(n))
        self.tests = bt.Tests([[n, fns[n]] for n in names])

    def run(self, args, **kw):
        self.log.clear()
        return world.execute(self.tests, "books", args, **kw)


def listing(out):
    return [l[2:] for l in out.stdout.split("\n") if l.startswith("  ")]


def nested(names):
    return any(a != b and covers(a, b) for a in names for b in names)


def check_list(ctx, s, sel, case):
    want = [n for n in s.names if selected(n, sel)]
    out = s.run(["-l"] + sel)
    ctx.step()
    ctx.trace()
    ctx.state([s.names, sorted(set(sel))])
    ctx.outcome(f"{len(want)} of {len(s.names)} selected")
    if out.exc or out.exit or listing(out) != want or s.log:
        ctx.bad(f"tests {s.names}: -l {' '.join(sel)} lists {listing(out)}, expected {want} {out.exc or ''}", case=case)
        return False
    return True


def check_run(ctx, s, sel, case):
    want = sorted(n for n in s.names if selected(n, sel))
    shutil.rmtree("books", ignore_errors=True)
    for args in ([], ["-c", "-a"], ["-p2"]):
        with inline.pool():
            out = s.run(args + sel)
        ctx.trace()
        ctx.step(len(want))
        if out.exc or sorted(s.log) != want:
            ctx.bad(f"tests {s.names}: run {args + sel} executed {s.log}, expected {want} {out.exc or ''}", case=case)
            return False
    # commands that work on the selection
    s.run(["-a", "*"])
    before = world.report("books")
    out = s.run(["--path"] + sel)
    got = sorted(l for l in out.stdout.split("\n") if l)
    if got != sorted(f"books/{n}.md" for n in want):
        ctx.bad(f"tests {s.names}: --path {sel} prints {got}", case=case)
        return False
    out = s.run(["--forget"] + sel)
    after = world.report("books")
    if out.exc or after != {k: v for k, v in before.items() if k not in want}:
        ctx.bad(f"tests {s.names}: --forget {sel} leaves {after} of {before} {out.exc or ''}", case=case)
        return False
    shutil.rmtree("books")
    s.run(["*"])
    out = s.run(["-w", "-a"] + sel)
    after = world.report("books")
    if out.exc or after != {n: "OK" if n in want else "DIFF" for n in s.names}:
        ctx.bad(f"tests {s.names}: -w -a {sel} leaves {after} {out.exc or ''}", case=case)
        return False
    return True


def lists(names, n):
    for k in range(1, n + 1):
        yield from itertools.product(choices(names), repeat=k)


def run(case, ctx):
    kind = case[0]
    if kind == "set":
        _, names, n, m = case
        s = Suite(names)
        for i, sel in enumerate(lists(names, n)):
            if not check_list(ctx, s, list(sel), case):
                return
        if not nested(names):
            for i, sel in enumerate(lists(names, m)):
                if not check_run(ctx, s, list(sel), case):
                    return
    elif kind == "part":
        _, names, n, part, parts = case
        s = Suite(names)
        for i, sel in enumerate(lists(names, n)):
            if i % parts == part:
                if not check_list(ctx, s, list(sel), case):
                    return
                if i < 300 and not nested(names) and not check_run(ctx, s, list(sel), case):
                    return
    elif kind == "default":
        run_default(case, ctx)
    else:
        run_deps(case, ctx)


def run_default(case, ctx):
    import argparse
    names = case[1]
    few = [c for c in choices(names) if c != "*"]
    many = [list(c) for c in itertools.combinations(few, 3)] + [few, few[::-1]] if len(names) < 5 else [few, few[::-1], few[:3], few[-3:]]
    for sel in list(lists(names, 2)) + many + [None]:
        s = Suite(names)
        parser = argparse.ArgumentParser()
        s.tests.setup_parser(parser)
        sel_ = ["test", "book"] if sel is None else list(sel)
        extra = {} if sel is None else {"default_tests": ",".join(sel)}
        for args in ([], [names[0]]):
            want = [n for n in names if selected(n, args or sel_)]
            out = world.call(lambda: s.tests.exec_parsed("books", parser.parse_args(["-l"] + args),
                                                         extra_default_config=extra))
            ctx.trace()
            ctx.state([names, extra, args])
            if out.exc or listing(out) != want:
                ctx.bad(f"tests {names}, default_tests {extra}, arguments {args}: listed {listing(out)}, expected {want} "
                        f"{out.exc or ''}", case=case)
                return
            if not nested(names) and len(sel_) < 3 or sel in many:
                s.log.clear()
                out = world.call(lambda: s.tests.exec_parsed("books", parser.parse_args(args),
                                                             extra_default_config=extra))
                if out.exc or s.log != want:
                    ctx.bad(f"tests {names}, default_tests {extra}, arguments {args}: ran {s.log}, expected {want}",
                            case=case)
                    return


DEPS = [(["a/x", "a/y", "b/z"], {"a/y": "a/x", "b/z": "a/x"}),
        (["a", "ab", "abc"], {"ab": "a", "abc": "ab"}),
        (["s/b", "s/a", "t/c"], {"s/a": "s/b", "t/c": "s/a"})]


def run_deps(case, ctx):
    names, deps = DEPS[case[1]]
    for sel in lists(names, 2):
        s = Suite(names, deps)
        shutil.rmtree("books", ignore_errors=True)
        if case[2]:
            s.run(["-a", "*"])
            values = {n: world.read(f"books/.out/{n}.bin") for n in names}
        sel = list(sel)
        want = {n for n in names if selected(n, sel)}
        todo = list(want)
        while todo:
            d = deps.get(todo.pop())
            if d and d not in want and not case[2]:
                want.add(d)
                todo.append(d)
        out = s.run(sel)
        ctx.trace()
        ctx.state([names, sorted(sel), case[2]])
        if out.exc or sorted(s.log) != sorted(want):
            ctx.bad(f"tests {names} with dependencies {deps}, stored values: {case[2]}: run {sel} executed {s.log}, "
                    f"expected {sorted(want)} {out.exc or ''}", case=case)
            return
