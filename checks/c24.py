"""C24: fail-fast and quitting stop the run."""
import itertools
import os
import shutil

import re

from mc import par, world

ID = "C24"
TITLE = "Fail-fast and quitting stop the run"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "serial: all sequences of up to 3 tests out of 5 ways of ending and of 4 out of 3 x 22 combinations of options and "
             "answers (fail-fast alone and with accepting, updating, verbose, interactive; the quit answer at every "
             "prompt after every earlier answers), each followed by reviews with the same choices and by continued runs with the tests as "
             "they were and repaired; parallel: all sequences of 2 to 4 tests out of 3 x 3 dependency structures x 9 combinations of options "
             "and answers x completion orders and workers, in virtual time, followed by continued parallel runs",
    "thorough": "sequences of up to 5 tests; parallel runs with all completion orders of 4 tests"}
CASE_TIMEOUT = 300
CHUNK = 1

ENDS = ["pass", "differ", "fail", "raise", "asyncdiff"]
VERDICT = {"pass": "OK", "differ": "DIFF", "fail": "FAIL", "raise": "FAIL", "asyncdiff": "DIFF"}

RUNS = [(["-f"], ""), (["-f", "-a"], ""), (["-f", "-u"], ""), (["-f", "-v", "-L"], ""), (["-f", "-u", "-a"], ""),
        (["-f", "-i"], "c"), (["-f", "-i"], "ac"), (["-f", "-I"], "c"), (["-f", "-I"], "ac"), (["-f", "-i", "-a"], "c"),
        (["-i"], "q"), (["-i"], "cq"), (["-i"], "acq"), (["-i"], "ccq"), (["-i"], "aacq"), (["-i", "-v"], "lcq"),
        (["-I"], "q"), (["-I"], "cq"), (["-I"], "aacq"), (["-I", "-a", "-u"], "ccq"), (["-i", "-a"], "q"), (["-i"], "c")]


def cases(tier):
    rv = []
    for k in range(1, 4):
        for e in itertools.product(ENDS, repeat=k):
            rv.append(["seq", list(e)])
    for k in ((4,) if tier == "quick" else (4, 5)):
        for e in itertools.product(ENDS[:3], repeat=k):
            rv.append(["seq", list(e)])
    for k in (2, 3, 4):
        for e in itertools.product(ENDS[:3], repeat=k):
            for shape in SHAPES:
                rv.append(["par", list(e), shape])
    return rv


class Answers:
    """ the answers of a script in turn; those not offered are replaced by c; the last one again and again """

    def __init__(self, script):
        self.script, self.k = script, 0
        self.asked = []

    def next(self, offered):
        a = self.script[min(self.k, len(self.script) - 1)]
        self.k += 1
        return a if a in offered else "c"


class Model:
    """ what has to happen; verdicts of the outputs the tests leave """

    def __init__(self, names):
        self.names = names
        self.report = {}        # name: verdict
        self.order = []         # of the entries
        self.snap = {}          # name: is the accepted document that of the failing version?

    def review_one(self, name, v, args, ans):
        """ -> verdict, asked to stop """
        asked, quit_, accept = 0, False, False
        if "-I" in args or "-i" in args and v != "OK":
            while True:
                asked += 1
                a = ans.next("acqvldD" if v != "FAIL" else "cqvldD")
                if a in "vldD":
                    continue
                quit_, accept = a == "q", a == "a"
                break
        if accept or v == "OK" and "-u" in args or v == "DIFF" and "-a" in args:
            return "OK", quit_, asked, True
        return v, quit_, asked, False

    def stop(self, v, quit_, args):
        return quit_ or "-f" in args and v != "OK"


SHAPES = {"free": lambda n: [[] for _ in range(n)],
          "chain": lambda n: [[i - 1] if i else [] for i in range(n)],
          "fan": lambda n: [[0] if i else [] for i in range(n)]}
PAR_RUNS = [(["-f"], "", 0), (["-f", "-v"], "", 0), (["-f", "-a"], "", 0), (["-i"], "q", 0.01), (["-i"], "cq", 0.03), (["-I"], "q", 0.002),
            (["-I"], "ccq", 0.01), (["-f", "-i"], "ac", 0.02), (["-f", "-I"], "lcc", 0.005)]


def run_parallel(case, ctx):
    ends, shape = case[1], case[2]
    n = len(ends)
    deps = SHAPES[shape](n)
    names = [f"s/t{i}" for i in range(n)]
    vectors = list(itertools.permutations((0.0007, 0.004, 0.02, 0.045)[:n]))
    if ctx.tier == "quick":
        k = sum(ENDS.index(e) * 3 ** i for i, e in enumerate(ends))
        vectors = [vectors[0], vectors[-1 - k % (len(vectors) - 1)]] if n < 4 else [vectors[k % len(vectors)]]

    def suite(durs, fixed):
        return par.Suite([{"name": names[i], "deps": deps[i], "dur": durs[i], "end": "pass" if fixed else ends[i]} for i in range(n)])
    shutil.rmtree("base", ignore_errors=True)
    os.makedirs("base")
    world.execute(suite([0] * n, True).tests, "base", ["-a", "*"])
    shutil.rmtree("base/.out")
    raw, value = {}, {}
    for i in range(n):
        bad = any(not value[j] for j in deps[i])
        raw[i] = "FAIL" if bad else VERDICT[ends[i]]
        value[i] = raw[i] != "FAIL"

    for durs in vectors:
        for m, (args, script, think) in enumerate(PAR_RUNS):
            w = 1 + (m + durs.index(min(durs))) % 3
            shutil.rmtree("books", ignore_errors=True)
            shutil.copytree("base", "books")
            asked = []
            real = Answers(script or "c")
            su = suite(durs, False)

            def answers(text, prompt):
                a = real.next("acqvldD" if "(a)ccept" in prompt else "cqvldD")
                who = re.findall(r"^(?:  )?(s/t\d)(?:\.\.| )", text, re.M)
                if who:
                    asked.append([int(who[-1][3:]), a])
                else:
                    asked[-1][1] = a
                asked[-1].append(su.sched.now)
                return a
            out, s, hang = par.run(su, [f"-p{w}"] + args + ["*"], answers=answers, think=think)
            ctx.trace()
            ctx.step(s.steps)
            what = f"parallel run of tests ending {ends}, {shape}, durations {durs}, {w} workers, {args} {script}"
            if hang or out.exc:
                ctx.bad(f"{what}: {hang or out.exc}", case=case)
                return
            ended = {int(e[2][0][3:]): e[0] for e in s.log if e[1] == "end"}
            handed = {int(e[2][0][3:]): e[0] for e in s.log if e[1] == "submit"}
            want, stop = {i: raw[i] for i in raw}, None
            for i, a, *at in asked:
                if a == "a":
                    want[i] = "OK"
                if a == "q":
                    stop = at[-1]
            if "-a" in args:
                want = {i: "OK" if v == "DIFF" else v for i, v in want.items()}
            if stop is None and "-f" in args:
                if "-i" in args or "-I" in args:
                    times = [at[-1] for i, a, *at in asked if want[i] != "OK"]
                    stop = min(times) if times else None
                else:
                    times = [ended[i] for i in ended if want[i] != "OK"]
                    stop = min(times) + 0.0125 if times else None
            rep = world.report("books")
            msg = None
            late = [i for i in handed if stop is not None and handed[i] > stop + 0.0015]
            if late:
                msg = f"tests {late} were started at {[handed[i] for i in late]} although the run was stopped at {stop}"
            for i in range(n):
                v = rep.get(names[i])
                # until the stop everything that finished is recorded
                if v is None and i in ended and (stop is None or ended[i] < stop - (0.015 if "-f" in args and not asked else 0.003)):
                    msg = msg or f"test {i} ended at {ended[i]}, but is not recorded (stopped at {stop})"
                if v is not None and v != want[i] and v != raw[i]:
                    msg = msg or f"test {i} is recorded as {v}"
            if stop is None and set(rep) != set(names):
                msg = msg or f"report {rep}"
            if any(v != "OK" for v in rep.values()) and not out.exit:
                msg = msg or f"exit status {out.exit}"
            ctx.state([what, sorted(rep.items())])
            ctx.outcome(f"parallel: {len(handed)} of {n} handed out, {len(rep)} recorded")
            if msg:
                ctx.bad(f"{what}: {msg}\n{s.log}\n{out.stdout[-1000:]}", case=case)
                return
            # going on with the rest
            fixed = m % 2 == 0
            su = suite(durs, fixed)
            todo = [i for i in range(n) if rep.get(names[i]) != "OK"]
            kept = {x: v for x, v in rep.items() if v == "OK"}
            out, s, hang = par.run(su, ["-p2", "-c", "*"])
            ctx.trace()
            ctx.step(s.steps)
            if hang or out.exc:
                ctx.bad(f"{what}, then -c: {hang or out.exc}", case=case)
                return
            mon = par.Monitor(s, su.specs)
            handed = sorted(int(e[2][0][3:]) for e in s.log if e[1] == "submit")
            rep = world.report("books")
            if handed != todo or any(rep.get(x) != v for x, v in kept.items()) or set(rep) != set(names) or \
                    any(c != 1 for c in mon.count.values()):
                ctx.bad(f"{what}, then -c: {handed} instead of {todo} were run, report {rep}, before {kept}", case=case)
                return


def run(case, ctx):
    if case[0] == "par":
        return run_parallel(case, ctx)
    ends = case[1]
    names = [f"s/t{i}" for i in range(len(ends))]
    ran = []
    fixed = [False]

    def make(name, end):
        def body(t):
            ran.append(name)
            if fixed[0]:
                t.tln("good")
                return
            t.tln("bad" if end in ("differ", "asyncdiff") else "good")
            if end == "fail":
                t.fail()
            if end == "raise":
                raise ValueError("raised")
        if end == "asyncdiff":
            async def atest(t):
                body(t)
            return atest
        return body
    tests = world.tests_of([(n, make(n, e)) for n, e in zip(names, ends)])

    def start():
        shutil.rmtree("books", ignore_errors=True)
        os.makedirs("books/s")
        for n in names:
            with open(f"books/{n}.md", "w") as f:
                f.write("good\n")
        fixed[0] = False

    def command(args, script):
        ran.clear()
        real = Answers(script or "c")
        out = world.execute(tests, "books", list(args) + ["*"],
                            lambda text, prompt: real.next("acqvldD" if "(a)ccept" in prompt else "cqvldD"))
        ctx.trace()
        ctx.step(len(names))
        return out

    def expect(what, out, want_ran, want_report, want_prompts, accepted):
        rep = world.report("books")
        docs = {n: world.read(f"books/{n}.md") for n in names}
        msg = None
        if out.exc:
            msg = out.exc
        elif ran != want_ran:
            msg = f"tests {ran} ran, expected {want_ran}"
        elif rep != want_report:
            msg = f"report {rep}, expected {want_report}"
        elif out.prompts != want_prompts:
            msg = f"{out.prompts} questions instead of {want_prompts}"
        elif bool(out.exit) != any(want_report.get(n) != "OK" for n in want_exit[0]):
            msg = f"exit status {out.exit}"
        else:
            for n in names:
                if (docs[n] == b"bad\n") != (n in accepted):
                    msg = f"accepted document of {n} is {docs[n]}"
        ctx.outcome(f"{len(ran)} of {len(names)} ran, {out.prompts} questions")
        if msg:
            ctx.bad(f"tests ending {ends}, {what}: {msg}", case=case)
            return False
        return True

    want_exit = [names]
    for args, script in RUNS:
        ctx.state([ends, args, script])
        # 1. the run
        start()
        m = Model(names)
        ans = Answers(script or "c")
        want, report, prompts, accepted = [], {}, 0, set()
        for n, e in zip(names, ends):
            want.append(n)
            v, quit_, asked, acc = m.review_one(n, VERDICT[e], args, ans)
            report[n] = v
            prompts += asked
            if acc and VERDICT[e] == "DIFF":
                accepted.add(n)
            if m.stop(v, quit_, args):
                break
        want_exit[0] = list(report)
        out = command(args, script)
        if not expect(f"{args} {script}", out, want, report, prompts, accepted):
            return
        # 2. going on with the rest, repaired or not
        for repaired in (False, True):
            shutil.rmtree("keep", ignore_errors=True)
            shutil.copytree("books", "keep")
            fixed[0] = repaired
            more = ["-c"] + (["-f"] if "-f" in args else [])
            todo = [n for n in names if report.get(n) != "OK"]
            rep2 = {n: v for n, v in report.items() if v == "OK"}
            want = []
            for n, e in zip(names, ends):
                if n not in todo:
                    continue
                want.append(n)
                # a repaired test writes "good"; the accepted document may have become "bad"
                doc = "good" if repaired or e in ("pass", "fail", "raise") else "bad"
                v = "FAIL" if not repaired and VERDICT[e] == "FAIL" else \
                    "OK" if (doc == "bad") == (n in accepted) else "DIFF"
                rep2[n] = v
                if m.stop(v, False, more):
                    break
            want_exit[0] = want
            out = command(more, "")
            if not expect(f"{args} {script}, then {more}, {'repaired' if repaired else 'unchanged'}", out, want, rep2, 0, accepted):
                return
            shutil.rmtree("books")
            os.rename("keep", "books")
        # 3. a review of a complete run, with the same options and answers
        start()
        command([], "")
        m = Model(names)
        ans = Answers(script or "c")
        report = {n: VERDICT[e] for n, e in zip(names, ends)}
        prompts, accepted = 0, set()
        for n, e in zip(names, ends):
            v, quit_, asked, acc = m.review_one(n, VERDICT[e], args, ans)
            report[n] = v
            prompts += asked
            if acc and VERDICT[e] == "DIFF":
                accepted.add(n)
            if m.stop(v, quit_, args):
                break
        want_exit[0] = names
        out = command(["-w"] + args, script)
        if not expect(f"a run, then -w {args} {script}", out, [], report, prompts, accepted):
            return
        # 4. reviewing the rest
        rest = [n for n in names if report[n] != "OK"]
        m, ans = Model(names), Answers("c")
        out = command(["-w", "-c", "-i"], "c")
        if not expect(f"a run, then -w {args} {script}, then -w -c -i", out, [], report, len(rest), accepted):
            return
