"""C08: an interrupted run can be continued."""
import ctypes
import hashlib
import json
import os
import re
import shutil
import signal
import sys
import types

import booktest as bt
from mc import inline, interrupt, world
from mc.core import REPO

ID = "C08"
TITLE = "An interrupted run can be continued"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "16 histories (first runs, runs over older results, accepting, updating, continued, refreshing, recording, single tests, "
             "reviews, answers, parallel): the process ends before every operation that changes the file system, and in the middle of every "
             "write, or is interrupted (SIGINT) at every 29th executed line of booktest; each followed by 7 ways of going on",
    "thorough": "every executed line; the continued run is stopped again before every operation"}
CASE_TIMEOUT = 600
CHUNK = 1
STEP = {"quick": 29, "thorough": 1}
TORN = ("before", "in the middle of", "before the last byte of", "in the first bytes of")
PARTS = 12

mod = types.ModuleType("vpmod08")
exec("def f(x):\n    return [x, VERSION[0]]\n", mod.__dict__)
mod.VERSION = VERSION = [1]
sys.modules["vpmod08"] = mod

# histories: (commands before, command that is stopped, answers); {version} is the version of the tests
HISTORIES = [
    ("first run", [], (1, [], "")),
    ("run over older results", [(1, ["-a", "-s"], ""), (1, [], "")], (2, [], "")),
    ("accepting run", [(1, ["-a", "-s"], "")], (2, ["-a"], "")),
    ("first accepting run", [], (1, ["-a", "-s"], "")),
    ("updating run", [(1, ["-a", "-s"], ""), (1, [], "")], (1, ["-u"], "")),
    ("continued run", [(1, ["-a", "-s"], ""), (2, [], "")], (3, ["-c"], "")),
    ("refreshing run", [(1, ["-a", "-s"], ""), (1, [], "")], (2, ["-r", "s/t3"], "")),
    ("recording run", [(1, ["-a", "-s"], "")], (2, ["-S", "-a"], "")),
    ("single tests", [(1, ["-a", "-s"], "")], (2, ["s/t2", "s/t"], "")),
    ("review", [(1, ["-a", "-s"], ""), (2, [], "")], (2, ["-w", "-a"], "")),
    ("answers", [(1, ["-a", "-s"], "")], (2, ["-i"], "acaacaa")),
    ("review with answers", [(1, ["-a", "-s"], ""), (2, [], "")], (2, ["-w", "-i"], "aaca")),
    ("parallel run", [(1, ["-a", "-s"], ""), (1, [], "")], (2, ["-p2"], "")),
    ("parallel accepting run", [(1, ["-a", "-s"], "")], (2, ["-p2", "-a"], "")),
    ("parallel continued run", [(1, ["-a", "-s"], ""), (2, [], "")], (3, ["-p2", "-c"], "")),
    ("accepting and updating run", [(1, ["-a", "-s"], ""), (2, [], "")], (3, ["-a", "-u", "-S", "-c"], "")),
]
GO_ON = [[], ["-c"], ["-c", "-a"], ["-w"], ["-w", "-a"], ["-p2", "-c"], ["-a", "-S"]]


def cases(tier):
    rv = []
    for h in range(len(HISTORIES)):
        for part in range(PARTS):
            rv.append(["kill", h, part])
    for h in range(len(HISTORIES)):
        for part in range(PARTS):
            rv.append(["sigint", h, part])
    if tier != "quick":
        for h in range(len(HISTORIES)):
            for part in range(PARTS):
                rv.append(["twice", h, part])
    return rv


NAMES = ["s/tä", "s/t", "s/t2", "s/t3", "s/t4", "s/t5"]


class Suite:
    def __init__(self):
        self.began = lambda i: None
        note = self

        def t0(t):
            note.began(0)
            t.h1("first")
            t.tln("same in every version")
            return {"version": VERSION[0], "text": "x" * 300}

        @bt.depends_on(t0)
        def t1(t, v):
            note.began(1)
            t.tln(f"given {v['version']} {len(v['text'])}")
            return ["t1", v["version"]]

        def t2(t):
            note.began(2)
            t.tln(f"version {VERSION[0]}")
            for n in ("a.txt", "sub.txt"):
                with open(t.file(n), "w") as f:
                    f.write(f"file {n} {VERSION[0]}")
            t.tln("äöü")

        @bt.depends_on(t1, t0)
        @bt.snapshot_functions(mod.f)
        def t3(t, a, b):
            note.began(3)
            t.tln(f"given {a} {b['version']} {mod.f('a')}")
            return None

        def t4(t):
            note.began(4)
            t.tln(f"{VERSION[0]}")
            if VERSION[0] == 2:
                t.fail()
            return VERSION[0]

        async def t5(t):
            note.began(5)
            t.tln("last")
            t.tmp_file("x")
        self.tests = bt.Tests([[n, f] for n, f in zip(NAMES, (t0, t1, t2, t3, t4, t5))])


SUITE = Suite()


def command(books, args, script="", default="c"):
    args = list(args)
    if not any(a in NAMES for a in args):
        args.append("*")
    if "-p2" in args:
        with inline.pool():
            return world.execute(SUITE.tests, books, args, list(script), default_answer=default)
    return world.execute(SUITE.tests, books, args, list(script), default_answer=default)


def fs(books):
    return world.snapshots(books)


def of_test(snap, name):
    return {k: v for k, v in snap.items() if k == name + ".md" or k.startswith(name + "/")}


def key(snap, version, args):
    h = hashlib.blake2b(repr((sorted(snap.items()), version, args)).encode(), digest_size=16)
    return h.hexdigest()


def masked(d):
    return re.sub(rb"\d+(\.\d+)? ms", b"N ms", d) if d is not None else None


CLEAN = {}


def clean_run(books, version, args, kept):
    """
    what the command gives from the accepted snapshots and the results of the kept tests {name: stored value} alone:
    verdicts, documents, accepted snapshots, failure
    """
    snap = fs(books)
    k = key(snap, version, (args, sorted(kept.items())))
    if k not in CLEAN:
        if len(CLEAN) > 4000:
            CLEAN.clear()
        shutil.rmtree("clean", ignore_errors=True)
        files = dict(snap)
        for n, v in kept.items():
            if v is not None:
                files[f".out/{n}.bin"] = v
        files[".out/cases.txt"] = "".join(f"{n}\tOK\t1\n" for n in kept).encode()
        for p, v in files.items():
            os.makedirs(os.path.dirname("clean/" + p), exist_ok=True)
            with open("clean/" + p, "wb") as f:
                f.write(v)
        VERSION[0] = version
        out = command("clean", args)
        if out.exc:
            raise AssertionError("clean run: " + out.exc)
        docs = {n: masked(world.read(f"clean/.out/{n}.md")) for n in NAMES}
        CLEAN[k] = world.report("clean"), docs, fs("clean"), bool(out.exit)
    return CLEAN[k]


class World:
    """ the state before the stopped command, and what the command does when it is not stopped """

    def __init__(self, label, version, args, script, before):
        self.label, self.version, self.args, self.script, self.before = label, version, args, script, before
        self.snap0 = fs(before)
        self.report0 = world.report(before)
        self.bins0 = {n: world.read(f"{before}/.out/{n}.bin") for n in NAMES}
        self.review = "-w" in self.args
        self.start()
        began = []
        SUITE.began = began.append
        out = command("books", self.args, self.script)
        SUITE.began = lambda i: None
        if out.exc:
            raise AssertionError(out.exc)
        self.began = [NAMES[i] for i in began]
        self.snap1 = fs("books")
        self.report1 = world.report("books")
        self.bins1 = {n: world.read(f"books/.out/{n}.bin") for n in NAMES}
        self.raw = {}
        # verdicts before acceptance
        for n in NAMES:
            if n in self.report1:
                self.raw[n] = {self.report1[n]}
                if self.report1[n] == "OK" and (self.review and self.report0.get(n) == "DIFF" or not self.review):
                    self.raw[n].add("DIFF")

    def start(self):
        VERSION[0] = self.version
        shutil.rmtree("books", ignore_errors=True)
        shutil.copytree(self.before, "books")


def history(h):
    label, before, (version, args, script) = HISTORIES[h]
    shutil.rmtree("before", ignore_errors=True)
    os.makedirs("before")
    for v, a, s in before:
        VERSION[0] = v
        out = command("before", a, s)
        if out.exc:
            raise AssertionError(out.exc)
    return World(label, version, args, script, "before")


def killed(w, k, torn):
    """ -> (operations so far or None if it came to its end, tests begun) """
    w.start()
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            SUITE.began = lambda i: os.write(wr, bytes([i]))
            lib = ctypes.CDLL(None)
            lib.crash_arm(ctypes.c_long(k), torn)
            out = command("books", w.args, w.script)
            n = lib.crash_disarm()
            lib.crash_kinds.restype = ctypes.c_char_p
            os.write(wr, b"\xff" + lib.crash_kinds()[:n])
            if out.exc:
                os.write(wr, b"\xfe")
        finally:
            os._exit(0)
    os.close(wr)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if b"\xff" in buf:
        began, kinds = buf.split(b"\xff", 1)
        if kinds.endswith(b"\xfe"):
            raise AssertionError("the command failed")
        return kinds.decode(), [NAMES[i] for i in began]
    if not os.WIFEXITED(status) or os.WEXITSTATUS(status) != 77:
        raise AssertionError(f"child ended with {status}")
    return None, [NAMES[i] for i in buf]


def judge_stop(w, began, what, ctx, case, exact):
    """ the state right after the stop """
    snap = fs("books")
    rep = world.report("books")
    # snapshots: as before or as after the command, but for one acceptance under way
    mixed = []
    for n in NAMES:
        s, a, b = of_test(snap, n), of_test(w.snap0, n), of_test(w.snap1, n)
        if s != a and s != b:
            mixed.append(n)
    other = {k: v for k, v in snap.items() if not any(k == n + ".md" or k.startswith(n + "/") for n in NAMES)}
    accepting = any(a in w.args for a in ("-a", "-u", "-i"))
    if len(mixed) > 1 or mixed and not accepting or other:
        ctx.bad(f"{what}: accepted snapshots of {mixed} changed: {world.diff_tree(w.snap0, snap)}", case=case)
        return None
    for n in mixed:
        s, a, b = of_test(snap, n), of_test(w.snap0, n), of_test(w.snap1, n)
        torn = [k for k in s if s[k] not in (a.get(k), b.get(k))]
        if torn or n + ".md" in a and n + ".md" not in s:
            ctx.bad(f"{what}: the accepted files of {n} are neither the earlier nor the new ones: {world.diff_tree(a, s)}",
                    case=case)
            return None
    # verdicts
    for n, v in rep.items():
        if v == "BAD" and exact:
            continue        # the line being written
        if v in ("DUP", "BAD") or n not in NAMES:
            ctx.bad(f"{what}: damaged report {rep}", case=case)
            return None
        if v != w.report0.get(n) and v not in w.raw.get(n, ()):
            ctx.bad(f"{what}: {n} is recorded as {v}, expected {w.raw.get(n)}", case=case)
            return None
    if w.review:
        missing = [n for n in w.report0 if n not in rep]
    else:
        parallel = "-p2" in w.args
        # in a serial run a test has been recorded when the next one begins
        finished = began[:-1] if not parallel else []
        kept = [n for n in w.report0 if n not in w.began]
        missing = [n for n in finished if n not in rep or w.raw[n] and rep[n] not in w.raw[n]] + \
                  [n for n in kept if rep.get(n) != w.report0[n]]
    if missing:
        ctx.bad(f"{what}: the verdicts of {missing} are lost, report {rep}, before {w.report0}, begun {began}", case=case)
        return None
    return snap, rep, mixed


def go_on(w, state, ran, what, ctx, case, commands=GO_ON):
    snap, rep, mixed = state
    good = {n: v for n, v in rep.items() if v in ("OK", "DIFF", "FAIL")}
    shutil.rmtree("stopped", ignore_errors=True)
    os.rename("books", "stopped")
    for args in commands:
        shutil.rmtree("books", ignore_errors=True)
        shutil.copytree("stopped", "books")
        VERSION[0] = w.version
        began = []
        label = f"{what}, then {args}"
        if "-w" in args:
            docs = {n: world.read(f"books/.out/{n}.md") for n in NAMES}
            before = fs("books")
            SUITE.began = began.append
            out = command("books", args)
            SUITE.began = lambda i: None
            ctx.trace()
            if out.exc:
                ctx.bad(f"{label}: {out.exc}", case=case)
                return False
            want = {n: "OK" if v == "DIFF" and "-a" in args else v for n, v in good.items()}
            got = world.report("books")
            after = fs("books")
            if got != want or began:
                ctx.bad(f"{label}: the report is {got} instead of {want}", case=case)
                return False
            if bool(out.exit) != any(v != "OK" for v in want.values()):
                ctx.bad(f"{label}: exit status {out.exit}, report {want}", case=case)
                return False
            for n in NAMES:
                a, b = of_test(before, n), of_test(after, n)
                if "-a" in args and good.get(n) == "DIFF":
                    if docs[n] is not None and b.get(n + ".md") != docs[n]:
                        ctx.bad(f"{label}: the document of {n} was not accepted", case=case)
                        return False
                elif a != b:
                    ctx.bad(f"{label}: the accepted snapshot of {n} changed", case=case)
                    return False
            continue
        # the same command from the accepted snapshots and the values of the tests recorded OK
        kept = {n: (w.bins1 if n in ran else w.bins0)[n] for n, v in good.items() if v == "OK"} if "-c" in args else {}
        ref, docs, snaps, failed = clean_run("books", w.version, [a for a in args if a != "-p2"], kept)
        VERSION[0] = w.version
        SUITE.began = began.append
        out = command("books", args)
        SUITE.began = lambda i: None
        ctx.trace()
        ctx.step(len(began))
        if out.exc:
            ctx.bad(f"{label}: {out.exc}", case=case)
            return False
        began = [NAMES[i] for i in began]
        runs = [n for n in NAMES if n not in kept]
        # tests whose dependency has no value do not begin
        if len(set(began)) != len(began) or any(n in kept for n in began):
            ctx.bad(f"{label}: tests {began} ran although {sorted(kept)} had been recorded OK", case=case)
            return False
        got = world.report("books")
        for n in NAMES:
            if n in kept:
                # it was OK with the accepted snapshot of its time
                if got.get(n) != "OK":
                    ctx.bad(f"{label}: the verdict of {n} was lost: {got}", case=case)
                    return False
                continue
            if got.get(n) != ref[n]:
                ctx.bad(f"{label}: {n} is {got.get(n)}, a complete run gives {ref[n]} (kept {sorted(kept)}, ran {began})\n"
                        f"{world.read(f'books/.out/{n}.md')}\n{docs[n]}", case=case)
                return False
            d = masked(world.read(f"books/.out/{n}.md"))
            if d != docs[n] and docs[n] is not None and d is not None and b"Traceback" not in d:
                ctx.bad(f"{label}: the document of {n} is {d} instead of {docs[n]}", case=case)
                return False
        if set(got) != set(NAMES):
            ctx.bad(f"{label}: report {got}", case=case)
            return False
        after = fs("books")
        for n in NAMES:
            if n not in kept and of_test(after, n) != of_test(snaps, n) or n in kept and of_test(after, n) != of_test(snap, n):
                ctx.bad(f"{label}: the accepted snapshot of {n} is {world.diff_tree(of_test(snaps, n), of_test(after, n))}", case=case)
                return False
        if bool(out.exit) != any(got[n] != "OK" for n in runs):
            ctx.bad(f"{label}: exit status {out.exit}, report {got}", case=case)
            return False
        ctx.state([what, args, sorted(got.items())])
        ctx.outcome(f"{len(runs)} tests to do, exit {bool(out.exit)}")
    return True


def match(code):
    return code.co_filename.startswith(REPO + "/booktest/")


def interrupted(w, k):
    """ SIGINT at the k-th line -> (lines, where, tests begun, exception, exit status) """
    w.start()
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            began = []
            SUITE.began = began.append
            with interrupt.Points(match, k) as p:
                out = command("books", w.args, w.script)
            os.write(wr, json.dumps([p.count, p.where, began, out.exc, out.exc_type, bool(out.exit)]).encode())
        finally:
            os._exit(0)
    os.close(wr)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise AssertionError("the interrupted command gave no answer")
    count, where, began, exc, exc_type, failed = json.loads(buf)
    return count, where, [NAMES[i] for i in began], exc, exc_type, failed


def run(case, ctx):
    kind, h, part = case
    w = history(h)
    if kind == "kill":
        kinds, _ = killed(w, -1, 0)
        points = [(k, 0) for k in range(len(kinds))] + [(k, m) for k, c in enumerate(kinds) if c == "w" for m in (1, 2, 3)]
        for k, torn in points[part::PARTS]:
            got, began = killed(w, k, torn)
            if got is not None:
                raise AssertionError(f"operation {k} of {len(kinds)} was not reached")
            what = f"{w.label} {w.args}: the process ended {TORN[torn]} operation {k} ({kinds[k]})"
            ctx.state([what])
            state = judge_stop(w, began, what, ctx, case, True)
            if state is None or not go_on(w, state, began, what, ctx, case):
                return
    if kind == "sigint":
        if "-p2" in w.args:
            return              # C13 interrupts parallel runs
        n = interrupted(w, -1)[0]
        for k in range(part * STEP[ctx.tier], n, PARTS * STEP[ctx.tier]):
            _, where, began, exc, exc_type, failed = interrupted(w, k)
            what = f"{w.label} {w.args}: interrupted at line {k} ({where})"
            if exc and exc_type != "KeyboardInterrupt":
                ctx.bad(f"{what}: {exc}", case=case)
                return
            ctx.state([what])
            state = judge_stop(w, began, what, ctx, case, False)
            if state is None or not go_on(w, state, began, what, ctx, case):
                return
    if kind == "twice":
        kinds, _ = killed(w, -1, 0)
        for k in range(part, len(kinds), PARTS):
            _, began = killed(w, k, 0)
            what = f"{w.label} {w.args}: the process ended before operation {k} ({kinds[k]})"
            if judge_stop(w, began, what, ctx, case, True) is None:
                return
            shutil.rmtree("again", ignore_errors=True)
            os.rename("books", "again")
            for args in (["-c"], ["-c", "-a"]):
                v = World(f"{what}, then", w.version, args, "", "again")
                kinds2, _ = killed(v, -1, 0)
                for j in range(len(kinds2)):
                    _, began = killed(v, j, 0)
                    label = f"{what}, the process of {args} ended before operation {j} ({kinds2[j]})"
                    state = judge_stop(v, began, label, ctx, case, True)
                    if state is None or not go_on(v, state, began, label, ctx, case, (["-c"], ["-c", "-a"])):
                        return
