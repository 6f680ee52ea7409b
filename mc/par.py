"""Parallel runs of small suites under the controlled scheduler (mc.sched), with a monitor of their execution."""
import logging
import os

import booktest as bt
from booktest.runs import ParallelRunner  # noqa: F401 (loaded before anything is replaced)
from mc import sched as S
from mc import world


class Suite:
    """
    tests: list of dicts {"name", "deps": [index], "res": [index of a resource], "end": how it ends, "dur": virtual seconds,
    "log", "file"}; every test depends on earlier or later ones of the list
    """

    def __init__(self, tests, resources=("p", "q"), body=None, kind="closure"):
        self.specs = tests
        self.sched = None
        self.current = {}
        fns = [None] * len(tests)

        def make(i):
            if fns[i] is not None:
                return fns[i]
            spec = tests[i]

            def test(t, *args):
                return self.execute(i, t, args)
            test.__name__ = f"t{i}"
            deps = [make(j) for j in spec.get("deps", ())]
            res = [r if isinstance(r, bt.Resource) else bt.Resource(f"value of {r}", r) for r in spec.get("res", ())]
            fns[i] = bt.depends_on(*deps, *res)(test) if deps or res else test
            return fns[i]
        self.tests = bt.Tests([[s["name"], make(i)] for i, s in enumerate(tests)])
        self.body = body

    def execute(self, i, t, args):
        spec = self.specs[i]
        s = self.sched
        if s is not None and s.me() is not None:
            s.event("begin", i)
        try:
            if self.body is not None:
                return self.body(i, spec, t, args)
            return default_body(self, i, spec, t, args)
        finally:
            if s is not None and s.me() is not None:
                s.event("finish", i)

    def pause(self, seconds):
        if self.sched is not None and self.sched.me() is not None:
            self.sched.sleep(seconds)


def default_body(suite, i, spec, t, args):
    end = spec.get("end", "pass")
    half = spec.get("dur", 0) / 2
    t.h1(spec["name"])
    for a in args:
        t.tln(f"given {a!r}")
    suite.pause(half)
    if spec.get("log"):
        logging.getLogger().warning("log of %s", spec["name"])
        import sys
        print("err of " + spec["name"], file=sys.stderr)
    if spec.get("file"):
        with open(t.file("f.txt"), "w") as f:
            f.write("file of " + spec["name"])
    t.tln("bad" if end == "differ" else "good")
    suite.pause(half)
    if end == "fail":
        t.fail()
    elif end == "raise":
        raise ValueError("raised")
    elif end == "exit":
        raise SystemExit(3)
    elif end == "interrupt":
        raise KeyboardInterrupt()
    elif end == "unpicklable":
        return lambda: 1
    elif end == "die":
        if suite.sched is not None and suite.sched.me() is not None:
            suite.sched.die()
    return f"value of {spec['name']}" if spec.get("value", True) else None


def command(tests, books, args, setup=None):
    if setup is None:
        return tests.exec(books, args)
    import argparse
    parser = argparse.ArgumentParser()
    tests.setup_parser(parser)
    return tests.exec_parsed(books, parser.parse_args(args), setup=setup)


def run(suite, args, books="books", answers=(), think=0.0, **kw):
    """ -> (Out or None if it hangs, Sched, message of a hang) """
    import booktest
    lib = os.path.dirname(booktest.__file__)
    kw.setdefault("trace_files", ())
    files = tuple(os.path.join(lib, f) for f in kw.pop("trace_files"))
    setup = kw.pop("setup", None)
    s = S.Sched(trace_files=files, **kw)
    suite.sched = s
    holder = {}

    def on_prompt(n, prompt):
        s.event("asked", n)
        s.sleep(think)
        s.event("answers", n)

    def main():
        holder["out"] = world.call(lambda: command(suite.tests, books, list(args), setup), answers, on_prompt=on_prompt)

    hang = None
    try:
        with s.installed():
            s.run(main)
    except S.Stuck as e:
        hang = str(e)
    finally:
        suite.sched = None
    return (None if hang else holder.get("out")), s, hang


class Monitor:
    """ what the events of one run say """

    def __init__(self, s, specs):
        self.begin, self.finish = {}, {}
        self.count = {}
        self.events = []
        self.running_overlaps = []
        running = {}
        for e in s.log:
            if e[1] == "begin":
                i = e[2]
                self.count[i] = self.count.get(i, 0) + 1
                self.begin[i] = e[0]
                for j in running:
                    self.running_overlaps.append((j, i))
                running[i] = e[0]
                self.events.append((e[0], "begin", i))
            elif e[1] == "finish":
                self.finish[e[2]] = e[0]
                running.pop(e[2], None)
                self.events.append((e[0], "finish", e[2]))
        self.order = [e[2] for e in self.events if e[1] == "begin"]
