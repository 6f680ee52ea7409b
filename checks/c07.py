"""C07: exit status and reports tell the truth."""
import itertools
import os
import re
import subprocess
import sys

from mc import core, inline, prog, world

ID = "C07"
TITLE = "Exit status and reports tell the truth"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "3 tests with every combination of 6 outcomes (216), 26 serial, parallel and interactive modes, 9 earlier "
             "reports; all reviews of all reports of 3 tests and a removed one in 12 modes; reports of tests with unusual names; 32 runs in real processes",
    "thorough": "3 tests with every combination of 6 outcomes (216), 40 serial, parallel and interactive modes, 20 earlier "
                "reports; all reviews of all reports of 3 tests and a removed one in 20 modes; 120 runs in real processes"}
CASE_TIMEOUT = 120

NAMES = ["s/a", "s/ab", "t/c"]
OUT = {
    "ok": [["tln", "good"]],
    "diff": [["tln", "bad"]],
    "new": [["tln", "good"]],
    "fail": [["tln", "good"], ["fail"]],
    "raise": [["tln", "good"], ["raise", "exc"]],
    "exit": [["exit", 0]],
}
VERDICT = {"ok": "OK", "diff": "DIFF", "new": "DIFF", "fail": "FAIL", "raise": "FAIL", "exit": "FAIL"}

MODES = [([], ""), (["-v"], ""), (["-a"], ""), (["-u"], ""), (["-u", "-a"], ""), (["-c"], ""), (["-c", "-a"], ""),
         (["-f"], ""), (["-f", "-a"], ""), (["-f", "-c"], ""), (["-L", "-v"], ""),
         (["-i"], "aaa"), (["-i"], "ccc"), (["-i"], "cac"), (["-i"], "cq"), (["-i"], "qcc"), (["-I"], "caa"), (["-I"], "cqc"),
         (["-i", "-v"], "aca"), (["-i", "-c"], "aca"), (["-r"], "")]
PAR = [(["-p1"], ""), (["-p2"], ""), (["-p2", "-a"], ""), (["-p2", "-c"], ""), (["-p2", "-i"], "aca"), (["-p2", "-i"], "cac"),
       (["-p3", "-v"], ""), (["-p2", "-u", "-a", "-c"], ""), (["-p2", "-I"], "aca")]
EARLIER = [[], [["s/a", "OK"], ["s/ab", "OK"], ["t/c", "OK"]], [["s/a", "FAIL"], ["s/ab", "DIFF"], ["t/c", "OK"]],
           [["gone", "FAIL"]], [["t/c", "OK"], ["gone", "OK"], ["s/a", "FAIL"]], [["s/ab", "OK"], ["gone", "DIFF"]],
           [["s/a", "DIFF"]], [["t/c", "FAIL"], ["s/ab", "OK"], ["s/a", "OK"]], [["gone", "OK"], ["s", "OK"], ["s/a/x", "FAIL"]]]
REVIEWS = [([], ""), (["-v"], ""), (["-a"], ""), (["-u"], ""), (["-c"], ""), (["-i"], "aaa"), (["-i"], "cac"), (["-i"], "q"),
           (["-I"], "cca"), (["-f"], ""), (["-f", "-a"], ""), (["-i", "-f"], "aca"), (["-c", "-i"], "aca"), (["-u", "-a"], ""),
           (["-v", "-L", "-i"], "aac"), (["-I", "-v"], "acq")]
SELECTIONS = [["*"], ["s"], ["s/a"], ["skip:s/a"]]


def cases(tier):
    rv = []
    outs = list(itertools.product(OUT, repeat=3))
    for o in outs:
        rv.append(["run", list(o), tier])
    records = ["OK", "DIFF", "FAIL", None]
    for r in itertools.product(records, repeat=4):
        rv.append(["review", list(r), tier])
    real = []
    combos = [("ok", "ok", "ok"), ("ok", "diff", "ok"), ("ok", "ok", "new"), ("fail", "ok", "ok"), ("ok", "raise", "ok"),
              ("exit", "ok", "ok"), ("diff", "fail", "new"), ("ok", "ok", "exit")]
    for c in combos:
        for args in (["*"], ["-p2", "*"], ["-a", "*"], ["-p2", "-a", "*"]):
            real.append(["real", list(c), args])
        if tier != "quick":
            for args in (["-p1", "-v", "*"], ["-c", "*"], ["-p4", "-c", "*"], ["-u", "-a", "*"], ["-f", "*"],
                         ["-p2", "s/a"], ["s"], [], ["--cov", "*"], ["-p2", "--cov", "*"], ["-p2", "-f", "*"]):
                real.append(["real", list(c), args])
    for n in ODD:
        for o in OUT:
            rv.append(["names", n, o])
    return real + rv


# names with blanks and signs
ODD = [" a", "a ", "a  b", " ", "\u00e9 b", "a\u00a0", "'a'", "#a", "a=b", "a,b", "OK", "a.txt", "..a", "a:b", "-1", "s/ a", "s /a",
       "a\u2028b", "0", "\u3000a"]


def run_names(case, ctx):
    """ a test of an unusual name and a plain one, in a series of runs and reviews """
    global NAMES
    _, name, o = case
    names, NAMES = NAMES, [name, "plain/b"]
    try:
        setup_books([o, "ok"], [])
        tests = suite([o, "ok"])
        verdict = {name: VERDICT[o], "plain/b": VERDICT["ok"]}
        for k, args in enumerate((["*"], ["-c", "*"], ["-p2", "*"], ["-p2", "-c", "*"], ["-w"], [name], ["-c", name], ["-w"],
                                  ["-a", "*"], ["-c", "*"], ["-w", "*"])):
            before = world.report("books")
            if "-a" in args:
                verdict = {n: "OK" if v == "DIFF" else v for n, v in verdict.items()}
            sel = [n for n in NAMES if args[-1] in ("*", "-w", n)]
            ran = [n for n in sel if "-w" not in args and ("-c" not in args or before.get(n) != "OK")]
            want = {**{n: v for n, v in before.items() if n in NAMES and ("-w" in args or n not in sel or n not in ran)},
                    **{n: verdict[n] for n in ran}}
            # -w alone reviews everything
            shown = [n for n in (before if "-w" in args else ran)]
            with inline.pool():
                out = world.execute(tests, "books", args if args != ["-w"] else ["-w", "*"])
            rep = world.report("books")
            failed = [n for n in shown if want[n] != "OK"]
            s = summary(out.stdout)
            ctx.step(len(ran))
            ctx.trace()
            ctx.state([case, k])
            ctx.outcome("names")
            if out.exc or rep != want or (out.exit in (0, None)) != (not failed) or s is None or \
                    sorted(s[3]) != sorted(failed) or s[:3] != (len(failed), len(shown), not failed):
                ctx.bad(f"test {name!r} ({o}), arguments {args}, run {k}: report {rep}, expected {want}; exit {out.exit}, summary "
                        f"{s}, not OK {failed}\n{out.exc or ''}")
                return
    finally:
        NAMES = names


def by_name(answers):
    """ answers by test: the n-th letter for the n-th test of NAMES; a second question is answered with continue """
    cur = {"name": None, "again": False}

    def policy(text, prompt):
        at = {n: max(text.rfind(f"  {n}.."), text.rfind(f"test {n}...")) for n in NAMES}
        best = max(NAMES, key=lambda n: at[n])
        if at[best] >= 0 and "# test results" not in text[at[best]:]:
            cur["name"], cur["again"] = best, False
        if cur["again"]:
            return "c"
        cur["again"] = True
        i = NAMES.index(cur["name"])
        return answers[i] if i < len(answers) else "c"
    return policy


def decide(v, i, args, answers):
    a = None
    if answers and ("-I" in args or ("-i" in args and v != "OK")):
        a = answers[i] if i < len(answers) else "c"
        if a == "a" and v == "FAIL":
            a = "c"
    if a == "a" or (v == "OK" and "-u" in args) or (v == "DIFF" and "-a" in args):
        v = "OK"
    return v, a == "q"


def model_run(verdicts, args, answers, earlier, sel):
    """ (report, names run, failed) """
    passed = {n for n, v in earlier if v == "OK"}
    todo = [i for i in sel if not ("-c" in args and NAMES[i] in passed)]
    rep = [tuple(r) for r in earlier if r[0] not in [NAMES[i] for i in todo]]
    ran, failed = [], []
    for i in todo:
        v, quit_ = decide(verdicts[i], i, args, answers)
        rep.append((NAMES[i], v))
        ran.append(NAMES[i])
        if v != "OK":
            failed.append(NAMES[i])
        if quit_ or ("-f" in args and v != "OK"):
            break
    return rep, ran, failed


def selected(sel):
    rv = []
    for i, n in enumerate(NAMES):
        if sel == ["*"] or n in sel or (sel == ["s"] and n.startswith("s/")) or (sel == ["skip:s/a"] and n != "s/a"):
            rv.append(i)
    return rv


def summary(text):
    """ (failed, total, success, names) of the last summary """
    ms = list(re.finditer(r"^(\d+)/(\d+) test (failed|succeeded) in (-?\d+) ms", text, re.M))
    if not ms:
        return None
    m = ms[-1]
    names = [x[2:] for x in text[m.end():].split("\n") if x.startswith("  ")]
    ok = m.group(3) == "succeeded"
    return (0 if ok else int(m.group(1)), int(m.group(2)), ok, names)


# as Python writes numbers
DURATIONS = ["0.5", "1.5", "0", "1e-05", "12345678.25", "1.2e+20", "0.1234567890123"]


def setup_books(outcomes, earlier, earlier_docs=False):
    import shutil
    shutil.rmtree("books", ignore_errors=True)
    for n, o in zip(NAMES, outcomes):
        os.makedirs("books/" + os.path.dirname(n), exist_ok=True)
        if o != "new":
            with open(f"books/{n}.md", "w") as f:
                f.write("good\n")
    os.makedirs("books/.out", exist_ok=True)
    with open("books/.out/cases.txt", "w") as f:
        for k, (n, v) in enumerate(earlier):
            f.write(f"{n}\t{v}\t{DURATIONS[(k + len(earlier) + len(''.join(outcomes))) % len(DURATIONS)]}\n")


def suite(outcomes):
    return world.tests_of([(n, prog.make_test(OUT[o])) for n, o in zip(NAMES, outcomes)])


def check_end(ctx, label, out, rep, ran, failed, case, ordered=True):
    got = {}
    lines = [x.split("\t")[:2] for x in (world.read("books/.out/cases.txt") or b"").decode().split("\n") if x]
    got = [tuple(x) for x in lines]
    msg = None
    if out.exc:
        msg = out.exc
    elif (out.exit in (0, None)) != (not failed):
        msg = f"exit status {out.exit} although the tests that are not OK are {failed}"
    elif (got != rep) if ordered else (sorted(got) != sorted(rep)):
        msg = f"stored report {got}, expected {rep}"
    else:
        s = summary(out.stdout)
        want = (len(failed), len(ran), not failed, failed)
        if s is None or s[:3] != want[:3] or sorted(s[3]) != sorted(failed) or (ordered and s[3] != failed):
            msg = f"summary says {s}, expected {want} (failed, total, success, names)"
    if msg:
        ctx.bad(f"{label}\n{msg}\noutput:\n{out.stdout[-1500:]}", case=case)
        return False
    return True


def run(case, ctx):
    if case[0] == "run":
        run_modes(case, ctx)
    elif case[0] == "names":
        run_names(case, ctx)
    elif case[0] == "review":
        run_reviews(case, ctx)
    else:
        run_real(case, ctx)


def run_modes(case, ctx):
    outcomes = case[1]
    verdicts = [VERDICT[o] for o in outcomes]
    thorough = case[2] != "quick"
    tests = suite(outcomes)
    plan = []
    for args, answers in MODES:
        for e in (EARLIER if thorough or "-c" in args else EARLIER[:4:3]):
            plan.append((args, answers, e, ["*"]))
        if thorough or args in ([], ["-a"]):
            for s in SELECTIONS[1:]:
                plan.append((args, answers, EARLIER[4], s))
    for k, (args, answers) in enumerate(PAR):
        if not thorough and (k + sum(map(len, outcomes))) % 3:
            continue       # each third of the parallel modes for each combination of outcomes
        for e in (EARLIER if thorough else EARLIER[2:5:2]):
            plan.append((args, answers, e, ["*"]))
    for args, answers, earlier, sel in plan:
        one = [args, answers, earlier, sel]
        if len(case) > 3 and case[3] != one:
            continue
        setup_books(outcomes, earlier)
        parallel = args and args[0].startswith("-p")
        with inline.pool():
            out = world.execute(tests, "books", args + sel, by_name(answers) if answers else ())
        rep, ran, failed = model_run(verdicts, args, answers, earlier, selected(sel))
        ctx.step(len(ran))
        ctx.trace()
        ctx.state([outcomes, one])
        ctx.outcome(f"{len(failed)} of {len(ran)} not OK")
        if not check_end(ctx, f"outcomes {outcomes}, run {args + sel} answers {answers!r}, earlier report {earlier}", out,
                         rep, ran, failed, case[:3] + [one], ordered=not parallel):
            return


def run_reviews(case, ctx):
    records = [(n, r) for n, r in zip(NAMES + ["gone"], case[1]) if r is not None]
    orders = [records, records[::-1]]
    tests = suite(["ok", "ok", "ok"])
    for order in orders[:1 if case[2] == "quick" and len(records) < 3 else 2]:
        for args, answers in REVIEWS:
            for sel in SELECTIONS[:2] if case[2] == "quick" else SELECTIONS:
                one = [[list(x) for x in order], args, answers, sel]
                if len(case) > 3 and case[3] != one:
                    continue
                setup_books(["ok", "ok", "ok"], order)
                for n in NAMES:
                    os.makedirs("books/.out/" + os.path.dirname(n), exist_ok=True)
                    for ext in (".md", ".txt", ".log"):
                        with open(f"books/.out/{n}{ext}", "w") as f:
                            f.write("text\n")
                out = world.execute(tests, "books", ["-w"] + args + sel, by_name(answers) if answers else ())
                rep = []
                stop = False
                passed = [n for n, v in order if v == "OK"]
                for n, v in order:
                    if not stop and n in NAMES and NAMES.index(n) in selected(sel) and not ("-c" in args and n in passed):
                        v, quit_ = decide(v, NAMES.index(n), args, answers)
                        stop = quit_ or ("-f" in args and v != "OK")
                    rep.append((n, v))
                failed = [n for n, v in rep if v != "OK"]
                ctx.step(len(rep))
                ctx.trace()
                ctx.state(one)
                ctx.outcome(f"review, {len(failed)} of {len(rep)} not OK")
                if not check_end(ctx, f"report {order}, review {args + sel} answers {answers!r}", out, rep,
                                 [n for n, v in rep], failed, case[:3] + [one]):
                    return


TEST_FILE = """
def step(t, what):
    if what == "exit":
        raise SystemExit(0)
    t.tln("bad" if what == "diff" else "good")
    if what == "fail":
        t.fail()
    if what == "raise":
        raise Exception("stop")

"""


def run_real(case, ctx):
    """ the command line program in a process of its own, with real worker processes """
    _, outcomes, args = case
    verdicts = [VERDICT[o] for o in outcomes]
    setup_books(outcomes, [])
    for d in ("s", "t"):
        os.makedirs(d)
    files = {"s/a_test.py": [], "s/ab_test.py": [], "t/c_test.py": []}
    os.rmdir("books/.out") if not os.listdir("books/.out") else None
    # one function per file, so that the names are <file>/x
    names = []
    for (fn, _), o in zip(files.items(), outcomes):
        with open(fn, "w") as f:
            f.write(TEST_FILE + f"def test_x(t):\n    step(t, {o!r})\n")
        names.append(fn[:-len("_test.py")] + "/x")
    for n, o in zip(names, outcomes):
        os.makedirs("books/" + os.path.dirname(n), exist_ok=True)
        if o != "new":
            with open(f"books/{n}.md", "w") as f:
                f.write("good\n")
    os.remove("books/.out/cases.txt") if os.path.exists("books/.out/cases.txt") else None
    env = dict(os.environ, BOOKTEST_TEST_PATHS="s,t", BOOKTEST_DEFAULT_TESTS="s,t", HOME=os.getcwd())
    args = [a if a != "s/a" else "s/a/x" for a in args]
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "booktest"] + args, stdin=subprocess.DEVNULL, capture_output=True,
                           text=True, timeout=100, env=env)
    except subprocess.TimeoutExpired:
        ctx.bad(f"outcomes {outcomes}, booktest {args} in a process of its own: no end within 100 s", case=case)
        return
    sel = [i for i in range(3) if args[-1:] == ["*"] or "s" not in "".join(a for a in args if not a.startswith("-")) or
           names[i] in args or ("s" in args and names[i].startswith("s/"))]
    ran, failed, rep = [], [], {}
    for i in sel:
        v, _ = decide(verdicts[i], i, args, "")
        ran.append(names[i])
        rep[names[i]] = v
        if v != "OK":
            failed.append(names[i])
            if "-f" in args:
                break
    ctx.step(len(ran))
    ctx.trace()
    ctx.state(case)
    ctx.outcome(f"process, {len(failed)} of {len(ran)} not OK")
    got = world.report("books")
    s = summary(p.stdout)
    msg = None
    if "-f" in args and args[0].startswith("-p"):
        if p.returncode == 0 and failed:
            msg = f"exit status {p.returncode}, although {failed} are not OK"
    elif (p.returncode == 0) != (not failed):
        msg = f"exit status {p.returncode}, tests that are not OK: {failed}"
    elif got != rep:
        msg = f"stored report {got}, expected {rep}"
    elif s is None or s[:3] != (len(failed), len(ran), not failed) or sorted(s[3]) != sorted(failed):
        msg = f"summary says {s}, expected {failed} of {len(ran)}"
    if msg:
        ctx.bad(f"outcomes {outcomes}, booktest {args} in a process of its own\n{msg}\n{p.stdout[-800:]}\n{p.stderr[-800:]}",
                case=case)
