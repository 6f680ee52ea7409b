"""C05: failures are always reported and can never be accepted."""
import itertools
import os
import shutil

from mc import procstate, prog, world

ID = "C05"
TITLE = "Failures are always reported and can never be accepted"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "37 ways of failing x 3 contexts before x 5 after x 5 snapshot states (none, not text, equal to the failing output, "
             "different, accepted from a passing version), plain and asynchronous; all sequences of a run in 3 modes "
             "(verbose ones point to the failures) followed by one of 12 further runs or reviews with every answer, and in 6 modes followed by 2 of them",
    "thorough": "37 ways of failing x 3 contexts before x 5 after x 5 snapshot states (none, not text, equal to the failing output, "
                "different, accepted from a passing version), plain and asynchronous; all sequences of a run in 9 modes "
                "followed by up to two of 12 further runs or reviews with every answer"}
CASE_TIMEOUT = 120
CHUNK = 1

MARKS = [
    [["fail"]], [["fail"], ["fail"]], [["fail"], ["diff"]], [["diff"], ["fail"]],
    [["t", "? "], ["assertln", False]], [["assertln", False, "message"]], [["assertln", False], ["assertln", True]],
    [["it", "o", [1], [["contain", 2]]]], [["it", "o", [1], [["equal", [2]]]]], [["it", "o", [1], [["be_a", "str"]]]],
    [["it", "o", [1], [["apply", "hold", False], ["be_a", "list"]]]],
    [["tms", -1]], [["slow", 1.1, 1]],
    [["ret_bad", "reduce"]], [["ret_bad", "lambda"]], [["ret_bad", "coroutine"]], [["ret_bad", "generator"]],
    [["ret_bad", "lock"]], [["ret_bad", "deep"]], [["ret_bad", "member"]],
    # texts that cannot be written
    [["tln", "\udc80x"]], [["t", "y\ud800"]], [["i", "\udfff"]],
]
ENDS = [[["raise", "exc"]], [["raise", "key"]], [["raise", "assert"]], [["raise", "base"]],
        [["raise", "cancel"]], [["raise", "stop"]], [["raise", "badstr"]], [["raise", "exc", "no file x\udcffy"]],
        [["raise", "key", "\ud800"]], [["raise", "exc", "a\n\x00 b\u2028c"]], [["raise", "assert", ""]],
        [["exit", 0]], [["exit", 1]], [["exit", "text"]]]
PRE = [[], [["tln", "ab"]], [["t", "ab "]]]
POST = [[], [["tln", "cd"]], [["t", "cd"]], [["h1", "H"], ["tln", "x"]], [["file", "f.txt", "new"], ["tset", ["u", "v"]]]]
STATES = ["none", "equal", "other", "passing", "bytes"]

RUNS = {
    "run": ([], None), "run -v": (["-v"], None), "run -a": (["-a"], None), "run -u": (["-u"], None),
    "run -u -a": (["-u", "-a"], None),
    "run -i:a": (["-i"], "ac"), "run -I:a": (["-I"], "ac"), "run -i -a -u:a": (["-i", "-a", "-u"], "ac"),
    "run -i -v:D": (["-i", "-v"], "lDdvac"),
}
NEXT = {
    "again": ([], None), "again -a": (["-a"], None), "continue": (["-c"], None), "continue -a -u": (["-c", "-a", "-u"], None),
    "continue -i:a": (["-c", "-i"], "ac"),
    "review": (["-w"], None), "review -i:a": (["-w", "-i"], "ac"), "review -I:a": (["-w", "-I"], "ac"),
    "review -a": (["-w", "-a"], None), "review -u -a": (["-w", "-u", "-a"], None),
    "review -v -i:a": (["-w", "-v", "-i"], "aac"), "review -c -a -i:a": (["-w", "-c", "-a", "-i"], "ac"),
}


def unwritable(text):
    return any("\ud800" <= c <= "\udfff" for c in text)


def failing():
    for pre in PRE:
        for m in MARKS:
            for post in POST:
                yield pre + m + post
        for e in ENDS:
            yield pre + e
            yield pre + [["file", "f.txt", "new"]] + e


def cases(tier):
    rv = []
    n = len(list(failing()))
    size = 28
    for first in RUNS:
        for k in ((1,) if tier == "quick" else (1, 2)):
            for rest in itertools.product(NEXT, repeat=k):
                if tier == "quick" and first not in ("run", "run -a", "run -i:a") and rest[0] not in ("again", "review -a"):
                    continue
                for i in range(0, n, size):
                    rv.append([[first] + list(rest), i, size])
    return rv


def answer_policy(script):
    """ for every test asked about: the answers of the script in turn, the last one for ever """
    state = {"k": 0}

    def policy(text, prompt):
        if "s/" in text:
            state["k"] = 0
        a = script[min(state["k"], len(script) - 1)]
        state["k"] += 1
        return a
    return policy


def make_async(ops):
    async def test(t):
        return prog.run_ops(t, ops)
    return test


def run(case, ctx):
    # the verbose runs also point to the failure
    procstate.load(procstate.fresh())
    if case[0][0].startswith("run -v"):
        os.environ["BOOKTEST_POINT_ERROR_POS"] = "1"
    try:
        follow(case, ctx)
    finally:
        os.environ.pop("BOOKTEST_POINT_ERROR_POS", None)


def follow(case, ctx):
    seq, begin, size = case[:3]
    programs = list(failing())[begin:begin + size]
    only = case[3] if len(case) > 3 else None
    tests = [("s/aa_ok", prog.make_test([["tln", "ok"]]))]
    plan = {}
    for i, p in enumerate(programs):
        for st in STATES:
            n = f"s/f{i}_{st}"
            if only is not None and n != only:
                continue
            plan[n] = (p, st)
            tests.append((n, prog.make_test(p) if i % 2 else make_async(p)))
    tests.append(("s/zz_ok", prog.make_test([["tln", "ok"]])))
    suite = world.tests_of(tests)
    # the output of the failing tests, from a first run elsewhere
    out = world.execute(suite, "prime", ["*"])
    if out.exc:
        ctx.bad(f"run: {out.exc}", key="exception")
        return
    first = world.tree("prime/.out")
    os.makedirs("books/s")
    for n in ("s/aa_ok", "s/zz_ok"):
        with open(f"books/{n}.md", "w") as f:
            f.write("ok\n")
    for n, (p, st) in plan.items():
        if st == "equal":
            for k, v in first.items():
                if k == n + ".md" or k.startswith(n + "/"):
                    os.makedirs(os.path.dirname("books/" + k), exist_ok=True)
                    with open("books/" + k, "wb") as f:
                        f.write(v)
        elif st == "other":
            with open(f"books/{n}.md", "w") as f:
                f.write("other\n")
        elif st == "bytes":
            # not text at all
            with open(f"books/{n}.md", "wb") as f:
                f.write(b"\xffab\n\xed\xb2\x80x\n")
        elif st == "passing":
            good = [op for op in p if not any(isinstance(x, str) and unwritable(x) for x in op)
                    and op[0] not in ("fail", "diff", "raise", "exit", "ret_bad", "tms", "slow")]
            with open(f"books/{n}.md", "w") as f:
                f.write(prog.plain_doc([[*op[:1], True] if op[0] == "assertln" else op for op in good if op[0] != "it"]))
            os.makedirs(f"books/{n}")
            with open(f"books/{n}/f.txt", "w") as f:
                f.write("old")
    before = world.snapshots("books")
    for step, name in enumerate(seq):
        args, script = {**RUNS, **NEXT}[name]
        out = world.execute(suite, "books", args + ["*"], answer_policy(script) if script else ())
        rep = world.report("books")
        ctx.step(len(plan))
        ctx.trace(len(plan))
        ctx.outcome(name)
        if out.exc:
            ctx.bad(f"{seq[:step + 1]}: {out.exc}", key="exception")
            return
        if out.exit in (0, None):
            ctx.bad(f"{seq[:step + 1]}: exit status {out.exit} in spite of {len(plan)} failed tests")
            return
        now = world.snapshots("books")
        for n, (p, st) in plan.items():
            ctx.state([n, p, st, seq[:step + 1]])
            if rep.get(n) != "FAIL":
                ctx.bad(f"{seq[:step + 1]}, snapshot {st}: failing program {p} recorded as {rep.get(n)}",
                        case=[seq, begin, size, n])
                return
            for k in set(before) | set(now):
                if (k == n + ".md" or k.startswith(n + "/")) and before.get(k) != now.get(k):
                    ctx.bad(f"{seq[:step + 1]}, snapshot {st}: accepted file {k} of failing program {p} changed: "
                            f"{world.short(before.get(k))} -> {world.short(now.get(k))}", case=[seq, begin, size, n])
                    return
        if rep.get("s/aa_ok") != "OK" or rep.get("s/zz_ok") != "OK":
            ctx.bad(f"{seq[:step + 1]}: passing tests recorded as {rep.get('s/aa_ok')}, {rep.get('s/zz_ok')}")
            return
    # every failing test is named in the summary of the last command
    shown = [x.strip() for x in out.stdout.split("failed in")[-1].split("\n")[1:]]
    for n in plan:
        if n not in shown:
            ctx.bad(f"{seq}: {n} is not named in the summary", case=[seq, begin, size, n])
            return
