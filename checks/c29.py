"""C29: what the user is shown is what happened."""
import itertools
import os
import re
import shutil

from mc import clock, inline, procstate, prog, world

ID = "C29"
TITLE = "What the user is shown is what happened"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "reports: all programs of up to 2 of 16 operations, each with no accepted document, its own, and every one-line edit of it, "
             "read in the verbose output and stored report of serial, reviewing and parallel runs, and of serial ones that point to the difference; logs: all pairs of 7 tests; times: all pairs of 6 durations; tools: 4 verdicts x "
             "all sequences of up to 2 of 4 tools x 3 answers x 5 names x 4 kinds of runs; documents and paths printed: all selections x 3 histories",
    "thorough": "programs of up to 3 operations; sequences of up to 3 tools"}
CASE_TIMEOUT = 120

LONG = "a line of text that is longer than the sixty characters of the column 7"
OPS = [["tln", "ab cd"], ["t", "ab "], ["tln", ""], ["tln", LONG], ["tln", "x\ny 7"], ["tln", "x\u2028y\x0bz\x85w\x0c1\x1c2"], ["tln", "é | ² ? !"],
       ["tln", "? ab"], ["tln", "  cd"], ["tln", "%s {} \\n"], ["fail"], ["diff"], ["iln", "zz 9"], ["h1", "H"], ["tset", ["u", "v w"]],
       ["raise", "exc"]]
FREE = {"iln", "h1", "tset", "raise"}      # programs, where not each line is compared with the line of the same number

ARGS = {"serial": ["-v"], "parallel": ["-v", "-p2"]}

LOGS = [[["tln", "a"]], [["log", "one line"], ["tln", "a"]], [["stderr", "é text"], ["log", "more"], ["tln", "a"], ["stderr", "last"]],
        [["log", "two\nlines\n\n  indented"], ["tln", "a"]], [["log", ""], ["tln", "a"], ["fail"]],
        [["stderr", "log: x"], ["stderr", ""], ["stderr", "x\u2028y"], ["tln", "b"]], [["log", "%d of %s"], ["raise", "exc"]]]
NAMES = ["a", "s/u b", "it's", "s/$x;y", "a\"b&c*"]
TIMES = [0, 0.25, 1.5, 61.125, 3600, 90061.75]
TOOLS = ["v", "l", "d", "D"]
STATES = ["OK", "DIFF", "NEW", "FAIL"]


def cases(tier):
    rv = []
    n = 2 if tier == "quick" else 3
    for k in range(n + 1):
        for p in itertools.product(OPS, repeat=k):
            rv.append(["report", list(p)])
    for a in range(len(LOGS)):
        for b in range(len(LOGS)):
            rv.append(["logs", a, b])
    k = 2 if tier == "quick" else 3
    for name in range(len(NAMES)):
        for state in STATES:
            for how in ("serial", "parallel", "review", "accepting"):
                rv.append(["tools", name, state, how, k])
    for a in TIMES:
        for b in TIMES:
            rv.append(["times", a, b])
    rv.append(["printed", 0])
    rv.append(["printed", 1])
    rv.append(["printed", 2])
    return rv


def run(case, ctx):
    procstate.load(procstate.fresh())       # defaults are read from the environment once in a process
    try:
        globals()["run_" + case[0]](case, ctx)
    finally:
        os.environ.pop("BOOKTEST_POINT_ERROR_POS", None)


# ---------------------------------------------------------------- reports

def section(out, name):
    """ the lines shown of a test by verbose output, and the verdict shown """
    lines = out.split("\n")
    begins = [i for i, x in enumerate(lines) if re.fullmatch(r"\w+ " + re.escape(name) + r"\.\.\.", x)]
    ends = [i for i, x in enumerate(lines) if re.fullmatch(re.escape(name) + r" (ok|DIFFERED|FAILED) in \d+ ms\.?", x)]
    if len(begins) != 1 or len(ends) != 1 or ends[0] < begins[0] + 3 or lines[begins[0] + 1] != "" or lines[ends[0] - 1] != "":
        return None, None
    return lines[begins[0] + 2:ends[0] - 1], {"ok": "OK", "DIFFERED": "DIFF", "FAILED": "FAIL"}[lines[ends[0]][len(name) + 1:].split(" ")[0]]


def by_line(p):
    return not set(x[0] for x in p) & FREE and prog.regular(p)


def expected_marks(p, doc, snap):
    """ mark and the accepted line shown for each line of the document, for programs that compare line by line """
    marks = [" "] * len(doc)
    rest = []
    if snap is not None:
        for i, d in enumerate(doc):
            if i >= len(snap) or snap[i] != d:
                marks[i] = "?"
        if len(snap) > len(doc):
            rest.append(("?", snap[len(doc)]))
    text = ""
    pending = set()
    at = {}
    for op in p:
        if op[0] in ("fail", "diff"):
            i = text.count("\n")
            if op[0] == "fail":
                at.setdefault(i, len(text.split("\n")[-1]))
            if i < len(doc):
                marks[i] = "!" if op[0] == "fail" or marks[i] == "!" else "?"
            else:
                pending.add("!" if op[0] == "fail" else "?")
        else:
            text += op[1] + ("\n" if op[0] == "tln" else "")
    if pending:
        rest.insert(0, ("!" if "!" in pending else "?", None))
    return marks, rest, at


def bad_pointer(line, doc, right, mark, at):
    """ the line below a marked line points to the failure, or where the line begins to differ """
    m = re.fullmatch("  ( *)\\^", line)
    if not m:
        return True
    pos = len(m.group(1))
    if mark == "!":
        return pos > len(doc) if at is None else pos != at
    same = len(os.path.commonprefix([doc, right])) if right is not None else 0
    # to the begin of the word
    return pos > len(doc) or at is not None and (pos > same or len(set(c.isalnum() for c in doc[pos:same])) > 1)


def check_report(p, shown, doc, snap, verdict, pointing=False):
    """ None or what is wrong with the shown lines """
    i = 0
    marks, extra = [], []
    at = expected_marks(p, doc, snap)[2] if by_line(p) else None
    plain = by_line(p) and not any(x[0] == "diff" for x in p)
    lines = iter(shown)
    for line in lines:
        if i < len(doc) and line == "  " + doc[i]:
            marks.append(" ")
            i += 1
        elif i < len(doc) and line[:2] in ("? ", "! ") and line[2:].startswith(doc[i].ljust(60) + " | "):
            marks.append(line[0])
            right = line[2 + len(doc[i].ljust(60) + " | "):]
            if right != "EOF" and (snap is None or right not in snap):
                return f"shows {right!r} as the accepted line"
            if by_line(p) and right != (snap[i] if snap is not None and i < len(snap) else "EOF"):
                return f"shows {right!r} as the accepted line {i + 1}"
            if pointing:
                pointer = next(lines, "")
                if line[0] == "!":
                    bad = bad_pointer(pointer, doc[i], None, "!", at.get(i) if at is not None else None)
                else:
                    end = snap is None or i >= len(snap) or not plain
                    bad = bad_pointer(pointer, doc[i], None if end else right, "?", 0 if plain else None)
                if bad:
                    return f"{pointer!r} points to the difference of {line!r}"
            i += 1
        elif line[:2] in ("? ", "! ") and line[2:].startswith("EOF".ljust(60) + " | "):
            extra.append((line[0], line[65:]))
        elif line[:3] in ("? (", "! ("):
            extra.append((line[0], None))
        else:
            return f"the line {line!r} is no line of the document"
    if i != len(doc):
        return f"the line {doc[i]!r} is not shown"
    seen = set(marks) | {x[0] for x in extra}
    if verdict == "OK" and seen - {" "} or verdict == "FAIL" and "!" not in seen or verdict == "DIFF" and \
            ("!" in seen or snap is not None and "?" not in seen):
        return f"a test that is {verdict} shows the marks {sorted(seen)}"
    if by_line(p):
        want = expected_marks(p, doc, snap)[:2]
        if (marks, extra) != want:
            return f"marks {marks, extra}, expected {want}"
    return None


def run_report(case, ctx):
    p = case[1]
    try:
        own = prog.plain_doc(p)
    except ValueError:
        own = prog.plain_doc([x for x in p if x[0] != "raise"])
    lines = own.split("\n")[:-1]
    snaps = [None, lines]
    for i in range(len(lines)):
        snaps += [lines[:i] + ["other"] + lines[i + 1:], lines[:i] + lines[i + 1:], lines[:i] + ["new"] + lines[i:],
                  lines[:i] + [lines[i] + " x"] + lines[i + 1:], lines[:i]]
    snaps.append(lines + ["end"])
    if len(case) > 2:
        snaps = [case[2]]
    names = [f"p{i}" for i in range(len(snaps))]
    os.makedirs("books")
    for n, s in zip(names, snaps):
        if s is not None:
            with open(f"books/{n}.md", "w", newline="") as f:
                f.write("".join(x + "\n" for x in s))
    tests = world.tests_of([(n, prog.make_test(p)) for n in names])
    for how in ("serial", "parallel", "pointing"):
        shutil.rmtree("books/.out", ignore_errors=True)
        if how == "pointing":
            procstate.load(procstate.fresh())
            os.environ["BOOKTEST_POINT_ERROR_POS"] = "1"
        if how == "parallel":
            with inline.pool():
                first = world.execute(tests, "books", ["-v", "-p2", "*"])
        else:
            first = world.execute(tests, "books", ["-v", "*"])
        for what, out in ((how, first), (how + ", reviewed", world.execute(tests, "books", ["-v", "-w", "*"]))):
            ctx.step(len(p) * len(snaps))
            if out.exc:
                ctx.bad(f"{what} run of {p}: {out.exc}")
                return
            rep = world.report("books")
            for n, s in zip(names, snaps):
                ctx.trace()
                ctx.state([p, s, what])
                ctx.outcome(rep.get(n))
                doc = (world.read(f"books/.out/{n}.md") or b"").decode().split("\n")[:-1]
                stored = (world.read(f"books/.out/{n}.txt") or b"").decode().split("\n")[:-1]
                shown, verdict = section(out.stdout, n)
                if shown is None:
                    msg = "the test is not shown once"
                elif verdict != rep.get(n):
                    msg = f"shown as {verdict}, reported as {rep.get(n)}"
                elif shown != stored:
                    msg = f"shown {shown}, stored report {stored}"
                else:
                    msg = check_report(p, shown, doc, s, verdict, how == "pointing")
                if msg:
                    ctx.bad(f"{what} run of {p} with the accepted lines {s}: {msg}; document {doc}, shown {shown}", case=["report", p, s])
                    return


# ---------------------------------------------------------------- logs

def log_lines(p):
    text = ""
    for op in p:
        if op[0] in ("log", "stderr"):
            text += op[1] + "\n"
        elif op[0] == "raise":
            break
    return text.split("\n")[:-1]


def shown_logs(out, names, verbose):
    """ {name: log lines shown} """
    rv = {n: [] for n in names}
    lines = out.split("\n")
    at = None
    for k, x in enumerate(lines):
        if verbose:
            m = re.fullmatch(r"(\w+) logs:", x)
            if m and m.group(1) in rv and lines[k + 1] == "":
                at = m.group(1)
            elif at is not None and x.startswith("  "):
                rv[at].append(x[2:])
            elif at is not None and re.fullmatch(re.escape(at) + r" (ok|DIFFERED|FAILED) in .*", x):
                at = None
        else:
            m = re.match(r"  (\w+)\.\.", x)
            if m and m.group(1) in rv:
                at = m.group(1)
            elif x.startswith("    log: ") and at is not None:
                rv[at].append(x[9:])
    return rv


def run_logs(case, ctx):
    _, a, b = case
    ps = {"one": LOGS[a], "two": LOGS[b]}
    tests = world.tests_of([(n, prog.make_test(p)) for n, p in ps.items()])
    for base in (["-L"], ["-L", "-v"]):
        for how in ("serial", "parallel"):
            shutil.rmtree("books", ignore_errors=True)
            os.makedirs("books")
            if how == "parallel":
                with inline.pool():
                    outs = [world.execute(tests, "books", base + ["-p2", "*"])]
            else:
                outs = [world.execute(tests, "books", base + ["*"])]
            outs.append(world.execute(tests, "books", base + ["-w", "*"]))
            for k, out in enumerate(outs):
                ctx.trace()
                ctx.step(2)
                ctx.state([a, b, base, how, k])
                if out.exc:
                    ctx.bad(f"{base} {how}: {out.exc}")
                    return
                got = shown_logs(out.stdout, ps, "-v" in base)
                want = {n: log_lines(p) for n, p in ps.items()}
                ctx.outcome(f"logs of {sum(1 for x in want.values() if x)} tests")
                if got != want:
                    ctx.bad(f"{how} run with {base}{', reviewed' if k else ''}: logs shown {got}, expected {want}\n{out.stdout}")
                    return


# ---------------------------------------------------------------- times

SLACK = 5000        # milliseconds the tests and runs themselves may take


def run_times(case, ctx):
    """ the times shown and stored are those the tests took """
    _, a, b = case
    took = {"one": a * 1000, "two": b * 1000}

    def bad_time(text, want):
        return text is None or not -0.001 <= float(text) - int(want) < SLACK

    with clock.turned() as c:
        def test_of(n, s):
            def test(t):
                t.tln(n)
                c.offset += s
                if n == "two" and case[1] % 1:
                    t.fail()
            return test
        tests = world.tests_of([("one", test_of("one", a)), ("two", test_of("two", b))])
        for args in ([], ["-v"], ["-p2"], ["-p2", "-v"], ["-a"]):
            shutil.rmtree("books", ignore_errors=True)
            for more in ([], ["-w"], ["-w", "-v"], ["-c"]):
                with inline.pool():
                    out = world.execute(tests, "books", (more if more[:1] == ["-w"] else args + more) + ["*"])
                ctx.trace()
                ctx.step(2)
                ctx.state([a, b, args, more])
                ctx.outcome(f"{len(str(int(a)))} digits")
                stored = {x.split("\t")[0]: x.split("\t")[-1] for x in (world.read("books/.out/cases.txt") or b"").decode().split("\n")[:-1]}
                ran = set(took)
                if more == ["-c"]:
                    passed = {n for n in took if args == ["-a"] and not (n == "two" and a % 1)}
                    ran -= passed
                msg = out.exc
                for n, ms in took.items():
                    if bad_time(stored.get(n), ms):
                        msg = f"{n} is stored with {stored.get(n)} ms, it took {ms} ms"
                    shown = re.findall(r"^(?:  " + n + r"\.\.|" + n + r" )(?:\w+ in )?(\d+) ms", out.stdout, re.M)
                    if len(shown) != (n in ran) or shown and bad_time(shown[0], ms):
                        msg = f"{n} is shown with {shown} ms, it took {ms} ms"
                total = re.findall(r" test (?:failed|succeeded) in (\d+) ms", out.stdout)
                want = [a + b] if more[:1] == ["-w"] or more == [] else [took[n] / 1000 for n in ran]
                if not msg and (len(total) != 1 or bad_time(total[0], 1000 * sum(want))):
                    msg = f"the run is shown with {total} ms, the tests took {sum(want)} s"
                if msg:
                    ctx.bad(f"tests of {a} s and {b} s, {args} {more}: {msg}\n{out.stdout}")
                    return


# ---------------------------------------------------------------- tools

SCRIPT = """#!/bin/sh
echo "call $1" >> "$VP_SHOWN"; shift
for f in "$@"; do echo "arg $f" >> "$VP_SHOWN"; if [ -f "$f" ]; then echo text >> "$VP_SHOWN"; cat "$f" >> "$VP_SHOWN"; else echo missing >> "$VP_SHOWN"; fi; done
exit 3
"""


def run_tools(case, ctx):
    _, i, state, how, k = case[:5]
    name = NAMES[i]
    tools = ("md_viewer", "log_viewer", "diff_tool", "fast_diff_tool")
    with open("tool.sh", "w") as f:
        f.write(SCRIPT)
    os.environ["VP_SHOWN"] = os.path.abspath("shown")
    old = {}
    for t in tools:
        key = "BOOKTEST_" + t.upper()
        old[key] = os.environ.get(key)
        os.environ[key] = f"sh {os.path.abspath('tool.sh')} {t}"
    try:
        for n in range(1, k + 1):
            for seq in itertools.product(TOOLS, repeat=n):
                for last in "caq":
                    answers = list(seq) + [last]
                    if len(case) > 5 and answers != case[5]:
                        continue
                    msg = tools_once(name, state, how, answers, ctx)
                    if msg:
                        ctx.bad(f"{how} run, test {name!r} is {state}, answers {answers}: {msg}", case=case[:5] + [answers])
                        return
    finally:
        for key, v in old.items():
            if v is None:
                os.environ.pop(key, None)
            else:
                os.environ[key] = v
        os.environ.pop("VP_SHOWN", None)


def tools_once(name, state, how, answers, ctx):
    shutil.rmtree("books", ignore_errors=True)
    if os.path.exists("shown"):
        os.remove("shown")
    md, out_md, log = f"books/{name}.md", f"books/.out/{name}.md", f"books/.out/{name}.log"
    os.makedirs(os.path.dirname(md))
    p = [["log", "logged"], ["tln", "ab"], ["stderr", "err"], ["t", "cd"]] + ([["fail"]] if state == "FAIL" else [])
    doc = "ab\ncd\n"
    accepted = {"OK": doc, "DIFF": "ab\n", "FAIL": doc, "NEW": None}[state]
    if accepted is not None:
        with open(md, "w") as f:
            f.write(accepted)
    tests = world.tests_of([(name, prog.make_test(p))])
    flag = "-I" if state == "OK" else "-i"
    # (c)ontinue after an (a)ccept that is not offered
    asked = answers + ["c"]
    if how == "serial":
        out = world.execute(tests, "books", [flag, "*"], asked)
    elif how == "accepting":
        out = world.execute(tests, "books", [flag, "-v", "*"], asked)
    elif how == "parallel":
        with inline.pool():
            out = world.execute(tests, "books", [flag, "-p2", "*"], asked)
    else:
        first = world.execute(tests, "books", ["*"])
        if first.exc:
            return first.exc
        out = world.execute(tests, "books", ["-w", flag, "*"], asked)
    ctx.trace()
    ctx.step(len(answers))
    ctx.state([name, state, how, answers])
    if out.exc:
        return out.exc
    prompts = len(answers) + (1 if answers[-1] == "a" and state == "FAIL" else 0)
    if out.prompts != prompts:
        return f"asked {out.prompts} times, expected {prompts}"
    want = []
    for a in answers:
        if a not in TOOLS:
            continue
        tool = {"v": "md_viewer", "l": "log_viewer", "d": "diff_tool", "D": "fast_diff_tool"}[a]
        files = [(log, "logged\nerr\n")] if a == "l" else \
            [(md, accepted), (out_md, doc)] if a != "v" or accepted is not None else [(out_md, doc)]
        want.append([tool, [[os.path.abspath(f), t] for f, t in files]])
    got = []
    content = None
    for line in (world.read("shown") or b"").decode().split("\n")[:-1]:
        if line.startswith("call "):
            got.append([line[5:], []])
        elif line.startswith("arg "):
            got[-1][1].append([os.path.abspath(line[4:]), None])
        elif line == "text":
            got[-1][1][-1][1] = ""
        elif line == "missing":
            pass
        else:
            got[-1][1][-1][1] += line + "\n"
    ctx.outcome(f"{state} {answers[-1]}")
    if got != want:
        return f"the tools were given {got}, expected {want}"
    final = "OK" if answers[-1] == "a" and state != "FAIL" else {"NEW": "DIFF"}.get(state, state)
    rep = world.report("books")
    if rep != {name: final}:
        return f"reported {rep}, expected {final}"
    text = (world.read(md) or b"").decode() or None
    if text != (doc if answers[-1] == "a" and state != "FAIL" else accepted):
        return f"the accepted document is {text!r}"
    return None


# ---------------------------------------------------------------- documents and paths

DOCS = {"s/a": "a\n", "s/b": "é 1\n\n  x\n", "s/c": None, "t": "", "u v": "%s\n\\\n{}\n"}


def run_printed(case, ctx):
    # what has been run before: nothing, everything, everything and some tests fail
    history = case[1]
    with open("tool.sh", "w") as f:
        f.write(SCRIPT)
    os.environ["VP_SHOWN"] = os.path.abspath("shown")
    try:
        tests = world.tests_of([(n, prog.make_test([["t", d or ""]] + ([["fail"]] if history == 2 and n == "s/a" else [])))
                                for n, d in DOCS.items()])
        for n, d in DOCS.items():
            if d is not None:
                os.makedirs(os.path.dirname(f"books/{n}"), exist_ok=True)
                with open(f"books/{n}.md", "w") as f:
                    f.write(d)
        if history:
            out = world.execute(tests, "books", ["*"])
            if out.exc:
                ctx.bad(out.exc)
                return
        passed = {n for n, v in world.report("books").items() if v == "OK"}
        ctx.outcome(f"{len(passed)} passed")
        before = world.tree("books")
        for k in range(1, 3):
            for sel in itertools.permutations([*DOCS, "s"], k):
                chosen = [n for n in DOCS if n in sel or n.startswith("s/") and "s" in sel]
                for cont in ([], ["-c"]):
                    left = [n for n in chosen if not cont or n not in passed]
                    for cmd in ("--print", "--path", "--view", "-l"):
                        if cmd == "--view" and cont:
                            continue
                        if os.path.exists("shown"):
                            os.remove("shown")
                        out = world.execute(tests, "books", [cmd, "-md-viewer", f"sh {os.path.abspath('tool.sh')} viewer", *cont, *sel])
                        ctx.trace()
                        ctx.step()
                        ctx.state([history, sel, cont, cmd])
                        msg = None
                        if out.exc:
                            msg = out.exc
                        elif cmd == "--print":
                            want = "".join(DOCS[n] or "" for n in left)
                            if out.stdout != want:
                                msg = f"printed {out.stdout!r}, expected {want!r}"
                        elif cmd == "--path":
                            got = [os.path.abspath(x) for x in out.stdout.split("\n")[:-1]]
                            want = [os.path.abspath(f"books/{n}.md") for n in left]
                            if got != want:
                                msg = f"printed {got}, expected {want}"
                        elif cmd == "-l":
                            got = [x.strip() for x in out.stdout.split("\n")[:-1]]
                            if got != left:
                                msg = f"printed {got}, expected {left}"
                        else:
                            got = [os.path.abspath(x[4:]) for x in (world.read("shown") or b"").decode().split("\n") if x.startswith("arg ")]
                            want = [os.path.abspath(f"books/{n}.md") for n in chosen if DOCS[n] is not None]
                            if got != want:
                                msg = f"the viewer was given {got}, expected {want}"
                        if msg is None and world.tree("books") != before:
                            msg = f"files changed: {world.diff_tree(before, world.tree('books'))}"
                        if msg:
                            ctx.bad(f"{cmd} {cont} {sel} after {passed} passed: {msg}")
                            return
    finally:
        os.environ.pop("VP_SHOWN", None)
