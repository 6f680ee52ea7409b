"""C01: an accepted result passes when the test repeats it."""
import itertools
import os

from mc import prog, world

ID = "C01"
TITLE = "An accepted result passes when the test repeats it"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of up to 3 operations from a 30 operation alphabet; all texts of up to 2 of 20 characters "
             "(3 of 9) written through 7 operations; each accepted, repeated, repeated verbosely with update, accepted "
             "again and repeated",
    "thorough": "all programs of up to 4 operations from a 30 operation alphabet; all texts of up to 3 of 20 characters "
                "(4 of 9) written through 7 operations; each accepted, repeated, repeated verbosely with update, "
                "accepted again and repeated"}
CASE_TIMEOUT = 60

OPS = [
    ["t", "ab"], ["t", " "], ["t", ","], ["t", "-1.5"], ["t", "x\ny"], ["t", 7],
    ["tln", "cd 7"], ["tln", ""], ["tln", "ab"],
    ["i", "zz"], ["i", " ;"], ["iln", "ab 9"], ["iln", ""],
    ["h1", "H"], ["h2", "ab"], ["header", "cd 7"], ["h", 3, "x y"],
    ["anchor", "cd"], ["anchorln", "ab"], ["kv", "ab", "v 1"], ["kv", "k:", "-2"],
    ["tlist", ["a", "b 1"]], ["tset", ["u", "v w"]], ["tset", []], ["tset", ["u", "w"], "- "],
    ["ttable", {"c1": [1, 20], "c2": ["q r", "-"]}],
    ["tformat", {"a": [1, "x"], "b": None}],
    ["ifloatln", 1.5, "ms"], ["ifloatln", 2.25],
    ["tms", 1e12], ["ims"], ["assertln", True],
    ["it", "obj", [1, 2], [["be_a", "list"], ["contain", 1], ["equal", [1, 2]], ["member", 0], ["equal", 1]]],
]
SLOW = 2   # index step for the most expensive operations in long programs

CHARS = ["a", "Z", "7", ".", " ", "\t", "-", "+", "\n", "\\", "|", "#", "*", "é", "²", "\x0b", "\x00", "\u2028",
         "\U0001f642", "\x85"]
CORE = ["a", "7", ".", " ", "-", "\n", "²", "\x00", "*"]
TABLE = [["c1", "c2"], ["x"], ["i 1", ""]]


def through(s):
    """ the programs that write the text in each way """
    yield [["tln", s]]
    yield [["t", "("], ["t", s], ["t", ")"]]
    yield [["tln", "b"], ["i", s], ["tln", "]"], ["tln", "e"]]
    yield [["kv", "key", s], ["tln", "e"]]
    yield [["tlist", [s, "b"]], ["tln", "e"]]
    if "\n" not in s:
        yield [["h1", s], ["tln", "e"], ["h2", s]]
        yield [["tset", ["a", s + "x"]], ["iln", s], ["tln", "e"]]
        if s:
            yield [["anchorln", s], ["anchor", s], ["tln", ")"]]
    yield [["ttable", {"c": [s, "x"], "d": [1, s]}], ["tln", "e"]]


def programs(tier):
    n = 3 if tier == "quick" else 4
    for length in range(0, n + 1):
        for p in itertools.product(OPS, repeat=length):
            yield list(p)


LONGER = ["a  b", "  a   b c", "a   ", " a  b \n  c  d", "xy" * 400, "a\n\n\n\nb", "\ta\t\tb", "<i>&amp;</i>", "`a` **b** _c_",
          "[l](u)", "C:\\n\\t", "1.2.3.4", "%s {x} $y ${HOME} ~", "a\u00a0b", "\U0001f600 e\u0301", "a,b;c", "---\n===", "0x1F",
          "1e5 -3 +4", "None", "- a", "> a", "\\", "\"'", "|a|", "| a | b |", "  \n  ", "a\n b\n  c\n", "word " * 1300, "9" * 9000,
          "l\n" * 700, "a #b ; c // d"]


def texts(tier, chars=CHARS):
    n = 2 if tier == "quick" else 3
    seen = set()
    for length in range(0, n + 1):
        for s in itertools.product(chars, repeat=length):
            seen.add("".join(s))
            yield "".join(s)
    for s in itertools.product(CORE, repeat=n + 1):
        s = "".join(s)
        if s not in seen:
            yield s
    yield from LONGER


GLUED = [
    ("glue-words", [["t", "a"], ["t", "b"]]),
    ("glue-number", [["t", "1"], ["t", ".5"]]),
    ("glue-blanks", [["t", "a "], ["tln", " b"]]),
    ("glue-info-word", [["i", "a"], ["tln", "b"]]),
    ("glue-word-info", [["t", "a"], ["iln", "b"], ["tln", "e"]]),
    ("carriage-return", [["tln", "a\rb"]]),
]


def cases(tier):
    rv = []
    batch = []
    for p in itertools.chain(programs(tier), (p for s in texts(tier) for p in through(s))):
        if not prog.regular(p):
            continue
        batch.append(p)
        if len(batch) == 60:
            rv.append(["programs", batch])
            batch = []
    if batch:
        rv.append(["programs", batch])
    for key, p in GLUED:
        rv.append(["known", key, p])
    return rv


def run(case, ctx):
    if case[0] == "known":
        check([case[2]], ctx, case[1])
    else:
        check(case[1], ctx, None)


def check(programs, ctx, known):
    names = [f"p{i}" for i in range(len(programs))]
    broken = set()

    def bad(i, msg, key=None):
        if i not in broken:
            broken.add(i)
            ctx.bad(f"program {programs[i]}\n{msg}", key=known or key, case=["programs", [programs[i]]]
                    if known is None else ["known", known, programs[i]])

    def go(args):
        tests = world.tests_of([(n, prog.make_test(p)) for n, p in zip(names, programs)])
        out = world.execute(tests, "books", args + ["*"])
        rep = world.report("books")
        if out.exc:
            for i in range(len(programs)):
                bad(i, f"{args}: {out.exc}")
        ctx.step(sum(len(p) for p in programs))
        return rep, world.snapshots("books"), out

    rep0, snap0, _ = go(["-a"])
    for i, p in enumerate(programs):
        ctx.state(p)
        ctx.outcome("program of %d" % len(p))
        if rep0.get(names[i]) != "OK" or f"{names[i]}.md" not in snap0:
            bad(i, f"run -a of a new test: {rep0.get(names[i])}, expected it to be accepted as OK")
    ctx.trace(len(programs))
    prev = snap0
    for args in ([], ["-v", "-u"], ["-u", "-a"], ["-c", "-a"], []):
        rep, snap, out = go(args)
        ctx.trace(len(programs))
        for i, p in enumerate(programs):
            if "-c" in args:
                continue
            if rep.get(names[i]) != "OK":
                bad(i, f"run {args} of the accepted test: {rep.get(names[i])}\naccepted: "
                       f"{snap0.get(names[i] + '.md')!r}\nwritten: {world.read('books/.out/' + names[i] + '.md')!r}")
            if prog.measured(p) and "-u" in args:
                continue
            if snap.get(names[i] + ".md") != prev.get(names[i] + ".md"):
                bad(i, f"run {args} of the accepted test changed its snapshot: {prev.get(names[i] + '.md')!r} -> "
                       f"{snap.get(names[i] + '.md')!r}")
        if not broken and out.exit not in (0, None):
            bad(0, f"run {args}: exit status {out.exit}")
        prev = snap
