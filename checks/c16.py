"""C16: environment snapshots and mocks show the right values and are undone."""
import asyncio
import itertools
import os
import shutil

import booktest as bt
from mc import world

ID = "C16"
TITLE = "Environment snapshots and mocks show the right values and are undone"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "variables A, B: recorded (not, absent, value, empty) x current (absent, value, empty, as recorded) x capture mode "
             "(plain, -s, -S) for every stack of up to 2 decorators of different kinds out of 10, up to 3 for one "
             "representative of each kind, 7 stacks with several snapshots of one test or repeated names; test function, async function, method; body passes, differs, raises, exits, is "
             "interrupted, changes the variables; histories capture/accept, then complete, then plain run in another "
             "environment",
    "thorough": "stacks of up to 3 out of 10 decorators for all states of A and B"}
CASE_TIMEOUT = 240

SNAP = [("snap", ("A",)), ("snap", ("A", "B")), ("snap", ("B", "A"))]
MOCK = [("mock", (("A", "m"),)), ("mock", (("A", None),)), ("mock", (("A", ""), ("B", "n"))), ("mock", (("B", None),))]
MISS = [("miss", (("A", "d"),)), ("miss", (("A", "d"), ("B", "e"))), ("miss", (("A", None),))]
ALL = SNAP + MOCK + MISS
SAME = [[("snap", ("A",)), ("snap", ("B",))], [("snap", ("B",)), ("snap", ("A", "B"))], [("snap", ("A", "B")), ("snap", ("B", "A"))],
        [("snap", ("A",)), ("mock", (("B", "n"),)), ("snap", ("B",))], [("snap", ("A", "A"))],
        [("snap", ("B",)), ("miss", (("A", "d"),)), ("snap", ("A",))], [("snap", ("A",)), ("snap", ("A",)), ("snap", ("B",))]]
NO = "-"                     # not recorded
REC = [NO, None, "r", ""]
CUR = [None, "c", "", "r"]
ENDS = ["pass", "differ", "raise", "exit", "interrupt", "change"]
KINDS = ["function", "async", "method"]
MODES = [[], ["-s"], ["-S"]]


def stacks(n, what):
    for k in range(1, n + 1):
        for s in itertools.permutations(what, k):
            if len({d[0] for d in s}) == k:
                yield list(s)


def cases(tier):
    rv = []
    for kind in KINDS:
        for s in stacks(1, ALL):
            if kind == "function" or tier == "thorough":
                rv.append([kind, s, ["pass", "raise"], "all"])
            rv.append([kind, s, ENDS, "some"])
    for s in stacks(2, ALL):
        if len(s) == 2:
            rv.append(["function", s, ["pass", "raise"], "all" if tier == "thorough" else "some"])
    for s in stacks(3, ALL if tier == "thorough" else [SNAP[1], MOCK[2], MISS[1]]):
        if len(s) == 3:
            rv.append(["function", s, ["pass", "raise"] if tier == "quick" else ENDS, "some"])
    for s in stacks(2, [SNAP[1], MOCK[0], MISS[1]]):
        for kind in KINDS[1:]:
            rv.append([kind, s, ENDS, "some"])
    # several recordings of one test, names given twice
    for s in SAME:
        rv.append(["function", s, ENDS if tier == "thorough" else ["pass", "raise", "change"], "all"])
        if tier == "thorough":
            rv.append(["method", s, ["pass", "raise"], "some"])
    for s in stacks(1, ALL):
        rv.append(["twice", s, ["pass", "raise"], "some"])
    return rv


def setvars(a, b):
    for k, v in (("A", a), ("B", b)):
        k = "VP_" + k
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


def getvars():
    return os.environ.get("VP_A"), os.environ.get("VP_B")


def vp(d):
    return {"VP_" + k: v for k, v in d}


def decorate(fn, stack):
    """ the first of the stack is the outermost decorator """
    for kind, what in reversed(stack):
        if kind == "snap":
            fn = bt.snapshot_env(*["VP_" + x for x in what])(fn)
        elif kind == "mock":
            fn = bt.mock_env(vp(what))(fn)
        else:
            fn = bt.mock_missing_env(vp(what))(fn)
    return fn


class Body:
    def __init__(self):
        self.end = "pass"
        self.seen = []
        self.text = "x"
        self.names = ()

    def __call__(self, t):
        self.seen.append(getvars())
        t.tln(self.text if self.end != "differ" else "other")
        if self.end == "raise":
            raise ValueError("raised")
        if self.end == "exit":
            raise SystemExit(3)
        if self.end == "interrupt":
            raise KeyboardInterrupt()
        if self.end == "change":
            # only variables that a decorator of the test manages
            setvars("z" if "A" in self.names else getvars()[0], None if "B" in self.names else getvars()[1])


def make(kind, stack, body):
    if kind == "method":
        class EnvBook(bt.TestBook):
            def __init__(self):
                super().__init__("s")

            test_e = decorate(lambda self, t: body(t), stack)
        return bt.Tests(EnvBook().cases)
    if kind == "async":
        async def test_e(t):
            body(t)
            await asyncio.sleep(0)
        return world.tests_of([("s/e", decorate(test_e, stack))])

    def test_e(t):
        body(t)
    return world.tests_of([("s/e", decorate(test_e, stack))])


def model(stack, rec, cur, mode):
    """ (what the body sees or None when it is not reached, the new recording) """
    env = dict(cur)
    new = None
    for kind, what in stack:
        if kind == "snap":
            new = {} if new is None else new
            for n in what:
                if rec is not None and n in rec and "-S" not in mode:
                    new[n] = env[n] = rec[n]
                elif mode:
                    new[n] = env[n]
                else:
                    return None, None
        elif kind == "mock":
            for n, v in what:
                env[n] = v
        else:
            for n, v in what:
                if env[n] is None and not mode:
                    env[n] = v
    return (env["A"], env["B"]), new


def states(stack, how):
    """ (recorded or None, current) """
    names = {n for k, w in stack for n in (w if k == "snap" else [x[0] for x in w])}
    snaps = [w for k, w in stack if k == "snap"]
    recs = []
    if snaps:
        recorded = {n for w in snaps for n in w}
        for a in REC if "A" in recorded else [NO]:
            for b in (REC if how == "all" else REC[::2]) if "B" in recorded else [NO]:
                recs.append({k: v for k, v in (("A", a), ("B", b)) if v != NO})
    else:
        recs.append({})
    for r in recs:
        for a in (CUR if how == "all" or not snaps else CUR[:3]) if "A" in names else ["c"]:
            for b in (CUR if how == "all" else CUR[:2]) if "B" in names else ["c"]:
                yield r, {"A": a, "B": b}


def record(rec, kind, body, cache):
    """ books with this recording, made by the code itself """
    shutil.rmtree("books", ignore_errors=True)
    if not rec:
        return True
    key = (kind, tuple(sorted(rec.items(), key=str)))
    store = cache.get(key)
    if store is None:
        store = cache[key] = os.path.abspath(f"store{len(cache)}")
        setvars(rec.get("A"), rec.get("B"))
        body.end = "pass"
        tests = make(kind, [("snap", tuple(sorted(rec)))], body)
        out = world.execute(tests, "books", ["-S", "-a", "*"])
        if not out.ok:
            return False
        shutil.rmtree("books/.out")
        shutil.copytree("books", store)
    else:
        shutil.copytree(store, "books")
    return True


def run(case, ctx):
    kind, stack, ends, how = case[:4]
    stack = [(k, tuple(tuple(x) if isinstance(x, list) else x for x in w)) for k, w in stack]
    if kind == "twice":
        return run_twice(case, stack, ctx)
    body = Body()
    body.names = {n for k, w in stack for n in (w if k == "snap" else [x[0] for x in w])}
    tests = make(kind, stack, body)
    cache = {}
    for rec, cur in states(stack, how):
        for end in ends:
            for mode in MODES:
                if end not in ("pass", "raise") and len(stack) > 1 and mode and kind == "function":
                    continue
                label = f"{kind} with {stack}, recorded {rec}, current {cur}, {mode}, body: {end}"
                if not record(rec, kind, body, cache):
                    ctx.bad(label + "\nthe capturing run did not pass", case=case)
                    return
                setvars(cur["A"], cur["B"])
                before = dict(os.environ)
                body.end = end
                body.seen.clear()
                args = mode + (["-a"] if mode else []) + ["*"]
                out = world.execute(tests, "books", args)
                after = dict(os.environ)
                seen, new = model(stack, rec, cur, mode)
                ctx.trace()
                ctx.step(2)
                ctx.state([stack, sorted(rec.items(), key=str), sorted(cur.items(), key=str), mode, end])
                ctx.outcome(f"{mode} {end} {'reached' if seen else 'missing'}")
                verdict = world.report("books").get("s/e")
                msg = None
                if after != before:
                    msg = f"afterwards the variables are {getvars()}"
                elif body.seen != ([seen] if seen else []):
                    msg = f"the body saw {body.seen}, expected {[seen] if seen else 'not to be reached'}"
                elif seen and end == "interrupt":
                    pass
                elif (verdict == "FAIL") != (seen is None or end in ("raise", "exit")):
                    msg = f"verdict {verdict}"
                elif (seen and not mode and end in ("pass", "change") and new is not None and rec == new
                        and len([k for k, _ in stack if k == "snap"]) == 1 and tuple(sorted(rec)) == tuple(
                            [w for k, w in stack if k == "snap"][0]) and verdict != "OK"):
                    msg = f"replaying the recording gives {verdict}"
                elif seen and mode and end == "pass" and new is not None:
                    # the accepted recording is what a plain run elsewhere shows
                    if verdict != "OK":
                        msg = f"capturing and accepting gives {verdict}"
                    for other in ({"A": "o", "B": None}, {"A": None, "B": "o"}):
                        if msg:
                            break
                        setvars(other["A"], other["B"])
                        body.seen.clear()
                        out = world.execute(tests, "books", ["*"])
                        want = model(stack, new, other, [])[0]
                        v = world.report("books").get("s/e")
                        if body.seen != [want] or v != "OK" or getvars() != (other["A"], other["B"]):
                            msg = f"the plain run afterwards in {other} shows {body.seen}, expected {want}; verdict {v}; " \
                                  f"left {getvars()}"
                if out.exc and out.exc_type != "KeyboardInterrupt":
                    msg = out.exc
                if msg:
                    setvars(None, None)
                    ctx.bad(f"{label}\n{msg}", case=case)
                    return
    setvars(None, None)


def run_twice(case, stack, ctx):
    """ two tests sharing the decorator object, run one after the other, several times, serially in one process """
    body1, body2 = Body(), Body()
    dec = lambda f: decorate(f, stack)
    tests = world.tests_of([("s/e", dec(lambda t: body1(t))), ("s/f", lambda t: body2(t)),
                            ("s/g", dec(lambda t: body1(t)))])
    for rec, cur in states(stack, "some"):
        if stack[0][0] == "snap" and set(rec) != set(stack[0][1]):
            continue
        shutil.rmtree("books", ignore_errors=True)
        setvars(rec.get("A"), rec.get("B"))
        body1.end = "pass"
        world.execute(tests, "books", ["-S", "-a", "*"])
        setvars(cur["A"], cur["B"])
        for end in case[2] + ["pass"]:
            body1.end = end
            body1.seen.clear()
            body2.seen.clear()
            out = world.execute(tests, "books", ["*"])
            ctx.trace()
            ctx.step(3)
            seen = model(stack, rec, cur, [])[0]
            v = [world.report("books").get(x) for x in ("s/e", "s/f", "s/g")]
            good = "OK" if end == "pass" else "FAIL"
            want = [good, "OK", good]
            if out.exc or body1.seen != [seen, seen] or body2.seen != [(cur["A"], cur["B"])] or v != want \
                    or getvars() != (cur["A"], cur["B"]):
                left = getvars()
                setvars(None, None)
                ctx.bad(f"three tests, {stack} on the first and third, recorded {rec}, current {cur}, {end}: saw {body1.seen} "
                        f"and {body2.seen}, expected {[seen] * 2}, {cur}; verdicts {v}; left {left} {out.exc or ''}",
                        case=case)
                return
    setvars(None, None)
