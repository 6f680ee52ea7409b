"""C30: assertions fail exactly when their condition does not hold."""
import itertools
import os
import re
import time

from mc import world

ID = "C30"
TITLE = "Assertions fail exactly when their condition does not hold"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "5 kinds of assertions over all pairs of 24 values, 10 types and 8 contexts; all sequences of up to 3 of 12 assertions, "
             "members among them; time limits and measured functions: 6 functions x 8 limits x 6 accepted lines; each as first run, after "
             "acceptance, and with the outcome changed afterwards",
    "thorough": "all sequences of up to 4 of 12 assertions"}
CASE_TIMEOUT = 120


class Same:
    """ equal to everything, contains everything """
    def __eq__(self, other):
        return True
    __hash__ = None

    def __contains__(self, x):
        return True

    def __repr__(self):
        return "Same"


class Never:
    def __eq__(self, other):
        return False

    def __bool__(self):
        return False
    __hash__ = None

    def __repr__(self):
        return "Never"


class Sub(list):
    pass


class Broken:
    def __eq__(self, other):
        raise ValueError("broken")

    def __bool__(self):
        raise ValueError("broken")
    __hash__ = None

    def __repr__(self):
        return "Broken"


VALUES = [1, 0, 1.0, -2.5, True, False, None, "1", "", "abc", "b", [], [1], [1, [2]], [None], {}, {"a": 1}, (1, 2), {1, 2}, b"a",
          Same(), Never(), Broken(), Sub([1])]
TYPES = [int, float, bool, str, list, dict, type(None), tuple, Sub, object]
MESSAGES = [None, "", "message", "two words 7"]
# context: text before on the same line, checked or not, text before, text after
CONTEXTS = [("", False, "", ""), ("is it? ", True, "", ""), ("is it? ", False, "", "x\n"), ("", False, "a b\n", "c 7\n"),
            ("n 7 ", True, "a b\n", "x"), ("", False, "", "\n"), ("q ", True, "", "\nok\n"), ("ok", False, "ok\n", "ok\n")]
STEPS = [["equal", 12, 12], ["equal", 0, 1], ["contain", 13, 0], ["contain", 12, 3], ["be", 12, 4], ["be", 12, 8], ["apply", 12, 4],
         ["apply", 12, 5], ["member", 0], ["member", 5], ["equal", 12, 22], ["be", 0, 0]]
LIMITS = [0, 1, 1e12, -1, 1000000, 1e12, 3.5e9, 5e11]
LINES = [None, "1.000 ms", "12", "ok", "x y", ""]


def cases(tier):
    rv = []
    for kind in ("equal", "contain"):
        for v in range(len(VALUES)):
            rv.append([kind, v])
    for v in range(len(VALUES)):
        rv.append(["be", v])
    for v in range(len(VALUES)):
        rv.append(["apply", v])
        rv.append(["assert", v])
    k = 3 if tier == "quick" else 4
    for a in range(len(STEPS)):
        rv.append(["chain", a, k])
    for w in range(6):
        rv.append(["measure", w])
    return rv


def holds(fn):
    """ "ok", "no" or "raises" """
    try:
        return "ok" if fn() else "no"
    except Exception:
        return "raises"


def one(kind, v, o):
    """ outcome and the text of the assertion """
    x = VALUES[v]
    if kind == "equal":
        return holds(lambda: x == VALUES[o]), f" * MUST equal {VALUES[o]}...", "FAILED"
    if kind == "contain":
        return holds(lambda: VALUES[o] in x), f" * MUST have {VALUES[o]}...", "FAILED"
    if kind == "be":
        return holds(lambda: type(x) == TYPES[o]), f" * MUST be a {TYPES[o]}...", f"was {type(x)}"
    if kind == "apply":
        return holds(lambda: bool(VALUES[o])), " * MUST hold 1...", "FAILED"
    if kind == "assert":
        return holds(lambda: bool(x)), "", MESSAGES[o] or "FAILED"


CALLS = []


def cond(o):
    def f(x):
        CALLS.append(x)
        return VALUES[o]
    return f


def do(t, it, kind, v, o):
    if kind == "equal":
        return it.must_equal(VALUES[o])
    if kind == "contain":
        return it.must_contain(VALUES[o])
    if kind == "be":
        return it.must_be_a(TYPES[o])
    if kind == "apply":
        return it.must_apply("hold 1", cond(o))


class Run:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.tests = []

    def add(self, fn, verdict, pattern, label):
        """ verdict: expected of the run with acceptance """
        self.tests.append((f"t{len(self.tests)}", fn, verdict, pattern, label))

    def go(self):
        suite = world.tests_of([(n, fn) for n, fn, *_ in self.tests])
        for step, args in enumerate((["-a"], [], ["-a", "-u"], ["-c", "-v"])):
            out = world.execute(suite, "books", args + ["*"])
            rep = world.report("books")
            for n, fn, verdict, pattern, label in self.tests:
                self.ctx.trace()
                self.ctx.outcome(verdict)
                self.ctx.state([label, step])
                doc = (world.read(f"books/{'' if verdict == 'OK' and '-a' in args else '.out/'}{n}.md") or b"").decode()
                msg = None
                if out.exc or rep.get(n) != verdict:
                    msg = f"{out.exc or rep.get(n)}, expected {verdict}; document {doc!r}"
                elif step < 3 and not re.fullmatch(pattern, doc):
                    msg = f"document {doc!r}, expected {pattern!r}"
                elif verdict == "FAIL" and os.path.exists(f"books/{n}.md"):
                    msg = "accepted although it failed"
                if msg:
                    self.ctx.bad(f"{label}, run {args}: {msg}", case=self.case)
                    return False
        return True


def text(kind, v, o):
    out, title, err = one(kind, v, o)
    if out == "raises":
        return "FAIL", r"(?s:.*)"
    return ("OK" if out == "ok" else "FAIL"), re.escape(title + ("ok" if out == "ok" else err) + "\n")


def run(case, ctx):
    r = Run(ctx, case)
    kind = case[0]
    if kind in ("equal", "contain", "be", "apply"):
        for o in range(len(TYPES if kind == "be" else VALUES)):
            verdict, pattern = text(kind, case[1], o)
            for pre, post in (("", ""), ("a b\n", "c 7\n")):
                def test(t, o=o, pre=pre, post=post):
                    t.t(pre)
                    it = t.it("obj", VALUES[case[1]])
                    CALLS.clear()
                    back = do(t, it, kind, case[1], o)
                    t.t(post)
                    if back is not it:
                        raise AssertionError("not the same object again")
                    if kind == "apply" and (len(CALLS) != 1 or CALLS[0] is not VALUES[case[1]]):
                        raise AssertionError(f"the condition was called with {CALLS}")
                p = pattern if pattern.startswith("(?s") else \
                    re.escape(pre + ("\n" if pre else "") + "## obj..\n\n") + pattern + re.escape(post)
                r.add(test, verdict, p, f"{kind}: {VALUES[case[1]]!r} and {TYPES[o] if kind == 'be' else VALUES[o]!r}")
            ctx.step()
        r.go()
    elif kind == "assert":
        for o in range(len(MESSAGES)):
            verdict, pattern = text(kind, case[1], o)
            for line, checked, pre, post in CONTEXTS:
                def test(t, o=o, line=line, checked=checked, pre=pre, post=post):
                    t.t(pre)
                    (t.t if checked else t.i)(line)
                    if o == 0:
                        t.assertln(VALUES[case[1]])
                    else:
                        t.assertln(VALUES[case[1]], MESSAGES[o])
                    t.t(post)
                end = "" if post == "" or post.endswith("\n") else "\n"
                p = pattern if pattern.startswith("(?s") else re.escape(pre + line) + pattern + re.escape(post + end)
                r.add(test, verdict, p, f"assertln({VALUES[case[1]]!r}, {MESSAGES[o]!r}) in {(line, checked, pre, post)}")
            ctx.step()
        r.go()
    elif kind == "chain":
        for k in range(case[2]):
            for rest in itertools.product(range(len(STEPS)), repeat=k):
                add_chain(r, [case[1], *rest])
                ctx.step(k + 1)
        r.go()
    else:
        run_measure(case, ctx)


def add_chain(r, steps):
    """ assertions about values and their members, one after the other """
    def test(t):
        it = t.it("obj", VALUES[13])
        for i in steps:
            s = STEPS[i]
            if s[0] == "member":
                it = it.member(str(s[1]), lambda x, k=s[1]: x[k])
            else:
                do(t, it, s[0], 0, s[2])
    verdict, pattern, x, title = "OK", re.escape("## obj..\n\n"), VALUES[13], "obj"
    for i in steps:
        s = STEPS[i]
        if s[0] == "member":
            try:
                x = x[s[1]]
            except Exception:
                verdict, pattern = "FAIL", r"(?s:.*)"
                break
            title += f".{s[1]}"
            pattern += re.escape(f"\n## {title}..\n\n")
            continue
        VALUES.append(x)
        out, what, err = one(s[0], len(VALUES) - 1, s[2])
        VALUES.pop()
        if out == "raises":
            verdict, pattern = "FAIL", r"(?s:.*)"
            break
        if out == "no":
            verdict = "FAIL"
        pattern += re.escape(what + ("ok" if out == "ok" else err) + "\n")
    r.add(test, verdict, pattern, f"chain {[STEPS[i] for i in steps]} on [1, [2]]")


def busy(ms):
    end = time.time() + ms / 1000
    while time.time() <= end:
        pass


def run_measure(case, ctx):
    """ the measured function runs once, its value is returned, the limit is kept """
    w = case[1]
    calls = []
    token = object()

    def f():
        calls.append(1)
        if w == 1:
            busy(1.5)
        if w == 2:
            raise ValueError("in the measured function")
        return [None, token, None, 0, "text", False][w]
    number = r"\d+\.\d{3} ms( \(was -?\d+\.\d{3} ms\))?\n"
    for how in ("tms", "ims"):
        for limit in LIMITS if how == "tms" else [None]:
            for pre in ("", "took "):
                for line in LINES:
                    late = how == "tms" and (limit < 0 or w == 1 and limit <= 1)
                    if how == "tms" and not late and limit <= 1:
                        continue            # depends on the machine
                    verdict = "FAIL" if w == 2 or late else "OK"
                    problems = []

                    def test(t):
                        calls.clear()
                        t.t(pre)
                        try:
                            rv = t.tmsln(f, limit) if how == "tms" else t.imsln(f)
                        finally:
                            if len(calls) != 1:
                                problems.append(f"the measured function ran {len(calls)} times")
                        if rv is not [None, token, None, 0, "text", False][w]:
                            problems.append(f"it returned {rv}")
                        t.tln("end")
                    if os.path.exists("books"):
                        import shutil
                        shutil.rmtree("books")
                    os.makedirs("books")
                    if line is not None:
                        with open("books/m.md", "w") as h:
                            h.write(f"{pre}{line}\nend\n")
                    suite = world.tests_of([("m", test)])
                    for args in (["-a"] if line is None else [], ["-a"], [], ["-a", "-u"], []):
                        out = world.execute(suite, "books", args + ["*"])
                        ctx.trace()
                        ctx.step()
                        ctx.outcome(verdict)
                        ctx.state([w, how, limit, pre, line, args])
                        got = world.report("books").get("m")
                        # a line of an unmeasured kind differs only in what is checked
                        want = verdict
                        doc = world.read("books/.out/m.md") or world.read("books/m.md")
                        good = verdict == "FAIL" or re.fullmatch(re.escape(pre) + number + "end\n", doc.decode())
                        if late and w != 2:
                            good = re.fullmatch(re.escape(pre) + r"\d+\.\d\d ms > max [-\d.]+ ms! \(failed\)\nend\n", doc.decode())
                        if out.exc or got != want or problems or not good:
                            ctx.bad(f"{how} with limit {limit}, function {w}, accepted line {line!r}, run {args}: {out.exc or got}, "
                                    f"expected {want}; {problems} {doc!r}", case=case)
                            return
