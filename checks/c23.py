"""C23: the output document holds exactly what the test wrote."""
import itertools
import os
import re
import shutil

from checks import c01, c02
from mc import prog, world

ID = "C23"
TITLE = "The output document holds exactly what the test wrote"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all programs of up to 2 operations from a 33 operation alphabet against no snapshot and 14 snapshots, of 3 "
             "operations against 1; all texts of up to 2 of 22 characters (3 of 9) through 9 operations; all tables of "
             "1x1..2x2 cells over 16 values and 9 column names; formats of 25 kinds of value, pictures with 11 alternative texts; data frames of 0 to 3 rows with 15 kinds of column and 6 of row names; "
             "histories of 2 and 3 values of a number with 4 units after 6 texts",
    "thorough": "all programs of up to 3 operations from a 33 operation alphabet against no snapshot and 14 snapshots; all "
                "texts of up to 3 of 22 characters (4 of 9) through 9 operations; all tables of 1x1..2x2 cells over 24 "
                "values and 9 column names; data frames of 0 to 3 rows with 15 kinds of column and 6 of row names"}

SNAPS = [None, "", "\n", "ab\n", "cd 7\n# H\n\nab\n", "# H\n\n# H\n\ncd 7\n", "cd 7\ncd 7\n", "ab v 1\nk: -2\ncd\n",
         " * u\n * v w\n- u\n- w\n", "- w\n- u\n * v w\n * u\nend\n", "|c1|c2 |\n|--|---|\n|1|q r|\n", "1.500 ms\n2.250\n",
         "x", "\n\n\nab\n\n"]
CELLS = ["", " ", "a", "a b", " a ", "|", "\n", "a\nb", "\ra", "1", 1, -2.5, None, True, "é²", "\x00", 1e300, "\t", "#",
         "\n\n", "\r\n", "0012", 3, "\u2028a", "a  b", "  a   b  ", "a\rb", "a\r\nb\n\rc"]
NAMES = ["c", "", "long name", " c ", "é", "1", "a|b", "c\t", "#"]


def cases(tier):
    rv = []
    big = 3 if tier != "quick" else 2

    def add(programs, snaps):
        batch = []
        for p in programs:
            for s in snaps:
                batch.append([p, s])
                if len(batch) >= 80:
                    rv.append(batch)
                    batch = []
        if batch:
            rv.append(batch)

    add(c02.expand(c01.OPS, big), SNAPS)
    if tier == "quick":
        add(map(list, itertools.product(c01.OPS, repeat=3)), [SNAPS[4]])
    add((p for s in c01.texts(tier, c01.CHARS + ["\r", "ß"]) for p in c01.through(s)), [None])
    add((p for s in c01.texts("quick") for p in c01.through(s)), [SNAPS[4], SNAPS[8]])
    add(tables(tier), [None, SNAPS[10]])
    add(values(), [None, SNAPS[4]])
    add(sets(), [None, SNAPS[8], SNAPS[9]])
    add(formats(), [None, SNAPS[4]])
    rv.append(["image"])
    for unit in UNITS:
        for n in range(len(NUMBERS)):
            rv.append(["numbers", unit, n])
    for c in COLUMNS:
        rv.append(["frame", c])
    return rv


COLUMNS = [["a"], [0], [0, 1], [None], [1.5], [True, False], [["x", "y"]], [["x", "y"], ["x", "z"]], ["a", "a"],
           ["a", "b", "a"], ["a", 0], ["", ""], [10000000], ["a", None], [["x", 1], "b"]]
INDEXES = [None, [5, 5, 5], ["x", "y", "x"], [2, 1, 0], [None, "k", 0], [True, False, True]]
VALUES = ["text", "a b", "", 7, -2.5, None, True, "x\ny", [1]]


def run_frame(case, ctx):
    """ data frames whose columns and rows have other names than distinct texts """
    import pandas as pd
    columns = [tuple(c) if isinstance(c, list) else c for c in case[1]]
    if all(isinstance(c, tuple) for c in columns):
        columns = pd.MultiIndex.from_tuples(columns)
    for index in INDEXES:
        for n in range(4):
            for v in range(len(VALUES)):
                rows = [[VALUES[(v + r * len(columns) + j) % len(VALUES)] for j in range(len(columns))] for r in range(n)]
                df = pd.DataFrame(rows, columns=columns, index=index[:n] if index else None)

                def test(t, df=df):
                    t.tdf(df)
                    t.tln("end")

                out = world.execute(world.tests_of([("s/a", test)]), "books", ["*"])
                got = (world.read("books/.out/s/a.md") or b"").decode()
                want = "".join(
                    r"\|" + "".join(re.escape(x) + r" *\|" for x in line) + "\n"
                    for line in [[str(c) for c in columns], None] +
                    [[str(df.iat[r, j]).replace("\n", " ").strip() for j in range(len(columns))] for r in range(n)]
                    if line is not None)
                want = want.replace("\n", "\n" + r"\|(?:-*\|){%d}" % len(columns) + "\n", 1)
                ctx.step(1)
                ctx.trace()
                ctx.state([case, index, n, v])
                ctx.outcome("frame")
                if out.exc or not re.fullmatch(want + "end\n", got):
                    ctx.bad(f"data frame with the columns {list(columns)}, index {index}, rows {rows}\ndocument {got!r}\n"
                            f"{out.exc or ''}")
                    return


def tables(tier):
    cells = CELLS[:16] if tier == "quick" else CELLS
    for n in NAMES:
        yield [["ttable", {n: []}], ["tln", "e"]]
        for v in CELLS:
            yield [["ttable", {n: [v]}], ["tln", "e"]]
            for w in CELLS:
                yield [["ttable", {n: [v, w]}], ["tln", "e"]]
    for v, w in itertools.product(CELLS, repeat=2):
        yield [["t", "x "], ["ttable", {"a": [v], "b": [w]}]]
    for v in itertools.product(cells[:8] if tier == "quick" else cells[:14], repeat=4):
        yield [["ttable", {"a": list(v[:2]), "b": list(v[2:])}]]


def values():
    """ other things than texts """
    for v in (0, 1, -7, 0.0, -0.0, 2.5, 1e22, True, False, None, [], {}, [0], {"a": None}, ["a", [1, "b c"]], {"k": [1, 2]}, ""):
        yield [["tln", v]]
        yield [["iln", v], ["i", v], ["i", v], ["tln", "x"]]
        yield [["t", "("], ["t", v], ["t", v], ["tln", ")"]]
        yield [["kv", "k", v], ["tln", v]]
        yield [["tlist", [v, "b", v]], ["tset", [str(v), "x"]]]
        yield [["tln", "x"], ["kv", "cd", v], ["kv", "", v]]
        yield [["ttable", {"c": [v if not isinstance(v, (list, dict)) else str(v), "x"]}]]


PYTHON = ["(1, 2)", "[(1,), [2]]", "{1}", "OD(a=1)", "{'x': OD(a=[1])}", "DD(int)", "NT(1, [2])", "L([1, 2])", "D(a=1)", "E.a", "E",
          "b'x'", "2j", "Fraction(1, 2)", "range(3)", "frozenset()", "{1: 'x', None: 2.5, True: []}", "{'b': 1, 'a': 2}", "[[], {}]",
          "[None, True, 1, 1.0, 'x']", "{'': {'ä': [[{}]]}}", "int", "len", "bytearray(2)", "iter([])"]


def formats():
    for a in PYTHON:
        yield [["tfmt", a]]
        yield [["t", "x"], ["tfmt", f"[{a}, {{'k': {a}}}]"], ["tln", "e"]]


def run_image(case, ctx):
    """ pictures with and without an alternative text """
    for name in ("x.png", "a b.svg", ".hidden", "no", "x.tar.gz", "d/x.png", "ä.png"):
        for alt in ALTS:
            for before in ("", "ab"):
                def test(t):
                    if "/" in name:
                        os.makedirs(os.path.dirname(t.file(name)), exist_ok=True)
                    f = t.file(name)
                    open(f, "w").close()
                    t.t(before)
                    prog.chained(t, t.timage(f, alt) if alt is not NO_ALT else t.timage(f))
                    t.tln("end")

                out = world.execute(world.tests_of([("s/a", test)]), "books", ["*"])
                got = (world.read("books/.out/s/a.md") or b"").decode()
                text = os.path.splitext(os.path.basename(name))[0] if alt is None or alt is NO_ALT else alt
                ctx.step(1)
                ctx.trace()
                ctx.state(["image", name, str(alt), before])
                ctx.outcome("image")
                if out.exc or got != f"{before}![{text}](a/{name})\nend\n":
                    ctx.bad(f"picture {name!r}, alternative text {alt!r}: document {got!r}\n{out.exc or ''}")
                    return


NO_ALT = object()
ALTS = [NO_ALT, None, "", " ", "x", "an alt text", "0", "a.b", "é", "[x]", "x.png"]


UNITS = [None, "ms", "%", "x y"]
NUMBERS = [0, 1, 0.0, -0.0, 1.5, -3.25, 1000.125, 0.001, 1e-9, 1e15]
PREFIXES = ["", "x ", "k: ", "é: ", "(", "a b, "]


def run_numbers(case, ctx):
    """ a number that is not compared is followed by the accepted one at its place """
    _, unit, first = case
    args = [] if unit is None else [unit]
    for prefix in PREFIXES:
        for more in [[v] for v in NUMBERS] + [[v, w] for v in (0, 1.5, -3.25) for w in (0.0, 7)]:
            shutil.rmtree("books", ignore_errors=True)
            now = {}

            def test(t):
                t.tln("h")
                for i in (1, 2):
                    t.t(prefix)
                    t.ifloatln(now["v"] * i, *args)
                t.tln("e")

            tests = world.tests_of([("s/a", test)])
            old = None
            for v in [NUMBERS[first], *more]:
                now["v"] = v
                out = world.execute(tests, "books", ["-a", "-u", "*"])
                got = (world.read("books/s/a.md") or b"").decode()
                tail = "" if unit is None else " " + unit
                want = "h\n" + "".join(
                    f"{prefix}{v * i:.3f}{tail}" + ("" if old is None else f" (was {float(f'{old * i:.3f}'):.3f}{tail})") + "\n"
                    for i in (1, 2)) + "e\n"
                ctx.step(1)
                ctx.trace()
                ctx.state([case, prefix, old, v])
                ctx.outcome("number")
                if out.exc or got != want:
                    ctx.bad(f"numbers {v}, {v * 2} with {args} after {prefix!r}, accepted with {old}: document {got!r}, expected {want!r} {out.exc or ''}")
                    return
                old = v
    for other in ("abc", "-", "é", "", "#", "(", "+", "x1"):
        # no number there
        os.makedirs("books/s", exist_ok=True)
        with open("books/s/a.md", "w") as f:
            f.write(f"h\n{other}\ne\n")

        def test2(t):
            t.tln("h").ifloatln(NUMBERS[first], *args)
            t.tln("e")
        out = world.execute(world.tests_of([("s/a", test2)]), "books", ["*"])
        got = (world.read("books/.out/s/a.md") or b"").decode()
        want = f"h\n{NUMBERS[first]:.3f}{'' if unit is None else ' ' + unit}\ne\n"
        ctx.step(1)
        ctx.trace()
        ctx.state([case, other])
        if out.exc or got != want:
            ctx.bad(f"number {NUMBERS[first]} with {args}, accepted was {other!r}: document {got!r}, expected {want!r} {out.exc or ''}")
            return


def sets():
    items = ["a", "v w", " ", "", 7, None, "* u", "u", "w", "7"]
    for n in range(0, 4):
        for x in itertools.permutations(items, n):
            for prefix in (" * ", "- ", ""):
                yield [["tset", list(x), prefix], ["tln", "e"]]
                yield [["t", "q"], ["tlist", list(x), prefix]]


def run(batch, ctx):
    if batch[0] in ("frame", "image", "numbers"):
        {"frame": run_frame, "image": run_image, "numbers": run_numbers}[batch[0]](batch, ctx)
        return
    names = [f"p{i}" for i in range(len(batch))]
    os.makedirs("books")
    for n, (p, s) in zip(names, batch):
        if s is not None:
            with open(f"books/{n}.md", "w", newline="") as f:
                f.write(s)
    tests = world.tests_of([(n, prog.make_test(p)) for n, (p, s) in zip(names, batch)])
    out = world.execute(tests, "books", ["*"])
    if out.exc:
        ctx.bad(out.exc)
        return
    rep = world.report("books")
    for n, (p, s) in zip(names, batch):
        got = world.read(f"books/.out/{n}.md")
        ctx.state([p, s])
        ctx.step(len(p))
        ctx.trace()
        ctx.outcome(rep.get(n))
        got = None if got is None else got.decode("utf-8", "replace")
        if got is None or not prog.doc(frames(p)).match(got):
            ctx.bad(f"program {p}\nsnapshot {s!r}\ndocument {got!r}\nexpected {prog.doc(frames(p)).pattern!r}",
                    case=[[p, s]])
            return


def frames(p):
    """ table cells as a data frame holds them """
    rv = []
    for op in p:
        if op[0] == "ttable":
            import pandas as pd
            df = pd.DataFrame(op[1])
            op = ["ttable", {c: [df[c][i] for i in df.index] for c in df.columns}]
        rv.append(op)
    return rv
