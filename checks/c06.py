"""C06: snapshots change only when a result is accepted."""
import itertools
import os
import shutil

from mc import prog, world

ID = "C06"
TITLE = "Snapshots change only when a result is accepted"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state breadth-first search over command histories; every state and transition of the model is replayed on the real code"
BOUNDS = {
    "quick": "two tests with 4 and 2 behaviours; breadth-first search of the lifecycle model to depth 2, every one of the "
             "~100 commands (modes, answers, selections, behaviours) executed in every state reached; 18 answers that are not offered x 3 "
             "accepted documents x 4 behaviours x 4 modes x the answer that follows",
    "thorough": "two tests with 4 and 2 behaviours; breadth-first search of the lifecycle model until no new state is found, "
                "every one of the ~100 commands (modes, answers, selections, behaviours) executed in every state reached"}
CASE_TIMEOUT = 120
CHUNK = 1
NAMES = ["s/a", "s/b"]

# behaviour: (operations, compared text, files, fails)
BEHAVIOURS = {
    "1": [["t", "one "], ["iln", "i1"], ["file", "x.txt", "1"]],
    "2": [["tln", "two"]],
    "3": [["t", "one "], ["iln", "i3"], ["file", "x.txt", "3"], ["file", "y.txt", "3"]],
    "f": [["tln", "two"], ["fail"], ["file", "x.txt", "f"]],
}


def doc_of(b):
    return prog.plain_doc(BEHAVIOURS[b])


def files_of(b):
    return {op[1]: op[2] for op in BEHAVIOURS[b] if op[0] == "file"}


def key_of(b):
    return {"1": "one", "3": "one", "2": "two", "f": "two"}[b]


# ---------------------------------------------------------------- commands

def commands():
    """ (command name, arguments, answers, selected tests, behaviours or None) """
    rv = []
    vectors = [("1", "1"), ("2", "1"), ("3", "f"), ("f", "1"), ("3", "3"), ("2", "2"), ("1", "f")]
    runs = [([], None), (["-a"], None), (["-u"], None), (["-u", "-a"], None), (["-c"], None), (["-c", "-a"], None),
            (["-f"], None), (["-f", "-a", "-u"], None), (["-v"], None), (["-s"], None), (["-S"], None)]
    for v in vectors:
        for args, ans in runs:
            rv.append(("run", args, ans, ["*"], v))
        for ans in ("aa", "ac", "ca", "q", "aq", "cq"):
            rv.append(("run", ["-i"], ans, ["*"], v))
        rv.append(("run", ["-I"], "ca", ["*"], v))
        rv.append(("run", ["-I"], "ac", ["*"], v))
        rv.append(("run", ["-i", "-c"], "ac", ["*"], v))
    for v in [("2", "1"), ("f", "1")]:
        rv.append(("run", ["-a"], None, ["s/a"], v))
        rv.append(("run", [], None, ["s/b"], v))
    for args, ans in [([], None), (["-a"], None), (["-u"], None), (["-u", "-a"], None), (["-c", "-a"], None),
                      (["-f"], None), (["-i"], "aa"), (["-i"], "ca"), (["-i"], "q"), (["-i"], "aq"), (["-I"], "ac"),
                      (["-I"], "ca"), (["-i", "-f"], "ca"), (["-v", "-a"], None)]:
        rv.append(("review", ["-w"] + args, ans, ["*"], None))
    rv.append(("review", ["-w", "-a"], None, ["s/a"], None))
    rv.append(("review", ["-w", "-a"], None, ["s/b"], None))
    rv.append(("review", ["-w", "-a"], None, ["skip:s/a"], None))
    rv.append(("forget", ["--forget"], None, ["*"], None))
    rv.append(("forget", ["--forget"], None, ["s/a"], None))
    rv.append(("list", ["-l"], None, ["*"], None))
    rv.append(("list", ["-l", "-c"], None, ["*"], None))
    rv.append(("print", ["--print"], None, ["*"], None))
    rv.append(("path", ["--path"], None, ["*"], None))
    rv.append(("path", ["--path", "-c"], None, ["*"], None))
    rv.append(("config", ["--config"], None, ["*"], None))
    rv.append(("view", ["--view"], None, ["*"], None))
    rv.append(("garbage", ["--garbage"], None, ["*"], None))
    rv.append(("clean", ["--clean"], None, ["*"], None))
    return rv


COMMANDS = commands()

# ---------------------------------------------------------------- model
# state: (snap a, pend a, rec a, snap b, pend b, rec b, foreign, order)
#   snap, pend: behaviour whose result it is, or None; rec: verdict or None; order: names in the report

START = ((None, None), (None, None), (), True)


def selected(sel):
    if sel == ["skip:s/a"]:
        return [1]
    return [i for i, n in enumerate(NAMES) if sel == ["*"] or n in sel]


def ask(verdict, args, answers):
    """ what the user answers for a test; consumes the answers """
    want = "-I" in args or ("-i" in args and verdict != "OK")
    if not want:
        return None
    while True:
        a = answers.pop(0) if answers else "c"
        if a == "a" and verdict == "FAIL":
            continue
        return a


def decide(verdict, args, answers):
    """ (accepted, verdict, quit) """
    a = ask(verdict, args, answers)
    acc = a == "a" or (verdict == "OK" and "-u" in args) or (verdict == "DIFF" and "-a" in args)
    return acc, "OK" if acc else verdict, a == "q"


def step(state, cmd):
    """ (new state, exit is success, expected output or None) """
    what, args, ans, sel, beh = cmd
    tests = [list(x) for x in state[:2]]
    recs = list(state[2])
    foreign = state[3]
    answers = list(ans or "")
    ok = True
    out = None
    sel = selected(sel)
    passed = [n for n, v in recs if v == "OK"]
    todo = [i for i in sel if not ("-c" in args and NAMES[i] in passed)]
    if what == "run":
        kept = [r for r in recs if r[0] not in [NAMES[i] for i in todo]]
        for i in todo:
            b = beh[i]
            snap = tests[i][0]
            v = "FAIL" if b == "f" else "OK" if snap is not None and key_of(snap) == key_of(b) else "DIFF"
            acc, v, quit_ = decide(v, args, answers)
            tests[i][1] = b
            if acc:
                tests[i] = [b, None]
            kept.append((NAMES[i], v))
            ok = ok and v == "OK"
            if quit_ or ("-f" in args and v != "OK"):
                break
        recs = kept
    elif what == "review":
        new = []
        stop = False
        for n, v in recs:
            i = NAMES.index(n)
            if not stop and i in sel and not ("-c" in args and n in passed):
                acc, v, quit_ = decide(v, args, answers)
                if acc and tests[i][1] is not None:
                    tests[i] = [tests[i][1], None]
                stop = quit_ or ("-f" in args and v != "OK")
            new.append((n, v))
            ok = ok and v == "OK"
        recs = new
    elif what == "forget":
        recs = [r for r in recs if r[0] not in [NAMES[i] for i in sel]]
    elif what == "list":
        out = "".join(f"  {NAMES[i]}\n" for i in todo)
    elif what == "print":
        out = "".join(doc_of(tests[i][0]) for i in todo if tests[i][0] is not None)
    elif what == "path":
        out = "".join(f"books/{NAMES[i]}.md\n" for i in todo)
    elif what == "view":
        ok = all(tests[i][0] is None for i in sel)     # no viewer is configured
    elif what == "clean":
        recs = []
        foreign = False
        tests = [[t[0], None] for t in tests]
    return (tuple(tests[0]), tuple(tests[1]), tuple(recs), foreign), ok, out


def explore(depth):
    seen = {START: ()}
    layer = [START]
    for _ in range(depth):
        new = []
        for s in layer:
            for k, c in enumerate(COMMANDS):
                t = step(s, c)[0]
                if t not in seen:
                    seen[t] = seen[s] + (k,)
                    new.append(t)
        layer = new
    return seen


OTHER = ["", "A", "b", "y", "aa", "ca", "1", "0", "ac", "x a", "True", "f", "r", "u", "-a", "*", "\n", "aqc"]


def run_answers(case, ctx):
    """ answers that are none of the offered ones neither accept nor end the question """
    system = System()
    for first in (None, "1", "2"):
        for b, sel in itertools.product(BEHAVIOURS, (["s/a"], ["*"])):
            for mode in (["-i"], ["-I"], ["-i", "-a"], ["-I", "-u"]):
                for last in "caq":
                    shutil.rmtree("books", ignore_errors=True)
                    state = START[:3] + (False,)
                    for cmd in ([("run", ["-a"], None, ["s/a"], (first, "1"))] if first else []) + \
                            [("run", mode, None, sel, (b, "1"))] + \
                            [("review", ["-w"] + mode, None, sel, None)]:
                        real = [case[1], case[1], last] if cmd[1] != ["-a"] else []
                        if last == "a" and "f" == b and real:
                            real += ["c"]
                        new, ok, text = step(state, cmd[:2] + ([last],) + cmd[3:])
                        out = system.apply(cmd[:2] + (real,) + cmd[3:])
                        ctx.step()
                        ctx.trace()
                        ctx.state([case, first, b, sel, mode, last, cmd[0]])
                        ctx.outcome(cmd[0])
                        d = compare(state, new, ok, text, out, cmd)
                        if d:
                            ctx.bad(f"first accepted {first}, then behaviour {b}, {cmd[1]} {sel} with the answers {real}: {d}", case=case)
                            return
                        state = new


def cases(tier):
    return [["answers", a] for a in OTHER] + lifecycle(tier)


def lifecycle(tier):
    seen = explore(2 if tier == "quick" else 20)
    return [list(p) for p in sorted(seen.values(), key=lambda x: (len(x), x))]


# ---------------------------------------------------------------- conformance

FOREIGN = {"s/ab.md": b"foreign", "s/a.txt": b"foreign", "s/b2/x.txt": b"foreign", "other.md": b"foreign"}


class System:
    def __init__(self):
        self.behaviour = None
        self.suite = world.tests_of([(n, prog.make_test(lambda i=i: BEHAVIOURS[self.behaviour[i]]))
                                     for i, n in enumerate(NAMES)])

    def apply(self, cmd):
        what, args, ans, sel, beh = cmd
        self.behaviour = beh
        return world.execute(self.suite, "books", args + sel, ans or "")


def expected(state):
    """ (snapshot files, output files) """
    snaps, outs = {}, {}
    for i, n in enumerate(NAMES):
        for b, rv in zip(state[i], (snaps, outs)):
            if b is not None:
                rv[n + ".md"] = doc_of(b).encode()
                for f, c in files_of(b).items():
                    rv[f"{n}/{f}"] = c.encode()
    if state[3]:
        snaps.update(FOREIGN)
    return snaps, outs


def compare(state, new, ok, text, out, cmd):
    """ the first difference between the model's prediction and the real effects """
    if out.exc:
        return out.exc
    snaps, outs = expected(new)
    got = world.snapshots("books")
    if got != snaps:
        return "snapshots: " + world.diff_tree(snaps, got) + " (expected -> found)"
    tree = {k: v for k, v in world.tree("books/.out").items()
            if v is not None and (k.endswith(".md") or "/" in k[2:] and k.count("/") == 2)} \
        if os.path.isdir("books/.out") else {}
    if tree != outs:
        return "results kept for review: " + world.diff_tree(outs, tree) + " (expected -> found)"
    rep = world.report("books")
    if rep != dict(new[2]):
        return f"report {rep}, expected {dict(new[2])}"
    if (out.exit in (0, None)) != ok:
        return f"exit status {out.exit}, expected {'success' if ok else 'failure'}"
    if text is not None and out.stdout != text:
        return f"output {out.stdout!r}, expected {text!r}"
    return None


def run(case, ctx):
    if case and case[0] == "answers":
        run_answers(case, ctx)
        return
    system = System()
    os.makedirs("books/s/b2")
    for k, v in FOREIGN.items():
        with open("books/" + k, "wb") as f:
            f.write(v)
    state = START
    only = None
    if case and isinstance(case[-1], list):
        only = case[-1][0]
        case = case[:-1]
    for k in case:
        new, ok, text = step(state, COMMANDS[k])
        out = system.apply(COMMANDS[k])
        if compare(state, new, ok, text, out, COMMANDS[k]):
            return      # reported where this transition is the last one
        state = new
    ctx.state(state)
    shutil.copytree("books", "saved")
    for k, c in enumerate(COMMANDS):
        if only is not None and k != only:
            continue
        shutil.rmtree("books")
        shutil.copytree("saved", "books")
        new, ok, text = step(state, c)
        out = system.apply(c)
        ctx.step()
        ctx.trace()
        ctx.outcome(c[0] + (" accepts" if new[:2] != state[:2] else ""))
        d = compare(state, new, ok, text, out, c)
        if d:
            ctx.bad("history " + "; ".join(show(COMMANDS[i]) for i in list(case) + [k]) + "\n" + d,
                    case=list(case) + [[k]])
            return


def show(c):
    return " ".join(c[1] + c[3]) + (f" answering {c[2]}" if c[2] else "") + (f" with behaviours {c[4]}" if c[4] else "")
