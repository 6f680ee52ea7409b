"""C03: informational text and section order never cause differences."""
import itertools
import os

from mc import prog, world

ID = "C03"
TITLE = "Informational text and section order never cause differences"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all documents of up to 2 headed sections with contents from 17 templates (3 sections: 6 templates), with and "
             "without text before the first; all orders; every alternative of the informational text; without and with "
             "each change of the checked text",
    "thorough": "all documents of up to 3 headed sections with contents from 17 templates and of 4 sections with 4 "
                "templates, with and without text before the first; all orders; every alternative of the informational "
                "text; without and with each change of the checked text"}


def contents(s):
    """ {template: (accepted content, [contents that must pass], [contents that must differ])}; s: word of the section """
    w = s.lower()
    rv = {
        "checked": ([["tln", w + " 1"]], [[["tln", w + " 1"]]],
                    [[["tln", w + " 2"]], [["tln", w + " 1"], ["tln", "more"]], [["t", w + " 1 "], ["tln", "x"]],
                     [["tln", "new"], ["tln", w + " 1"]]]),
        "two": ([["tln", w], ["tln", "y"]], [[["t", w], ["tln"], ["tln", "y"]]],
                [[["tln", w]], [["tln", "y"]], [["tln", "y"], ["tln", w]], [["tln", w], ["tln", ""], ["tln", "y"]]]),
        "tail": ([["t", w + " "], ["iln", "x 1"]],
                 [[["t", w + " "], ["iln", i]] for i in ("", "x", "y z w", "-5.5 # |", " ")],
                 [[["t", w + "s "], ["iln", "x 1"]], [["t", w + "  "], ["iln", "x 1"]]]),
        "tailmid": ([["t", w + " "], ["iln", "x"], ["tln", "end"]],
                    [[["t", w + " "], ["iln", i], ["tln", "end"]] for i in ("", "y z", "end")],
                    [[["t", w + " "], ["iln", "x"], ["tln", "and"]], [["t", w + " "], ["iln", "x"], ["tln", "x"], ["tln", "end"]]]),
        "middle": ([["t", w + " "], ["i", "5"], ["tln", " end"]],
                   [[["t", w + " "], ["i", i], ["tln", " end"]] for i in ("77", "x", "-1.25", "#")],
                   [[["t", w + " "], ["i", "5"], ["tln", " and"]], [["t", w + " "], ["i", "5"], ["t", " end"], ["tln", " x"]]]),
        "endinfo": ([["tln", w], ["iln", "i 1"]],
                    [[["tln", w]] + [["iln", f"other {k}"] for k in range(n)] for n in (1, 2, 3)],
                    [[["tln", w + "x"], ["iln", "i 1"]], [["tln", "x"], ["tln", w], ["iln", "i 1"]]]),
        "endinfo3": ([["tln", w], ["iln", "i 1"], ["iln", ""], ["iln", "i 3"]],
                     [[["tln", w]] + [["iln", f"o{k}"] for k in range(n)] for n in (1, 2, 3, 4)],
                     [[["tln", w + "x"], ["iln", "i 1"], ["iln", ""], ["iln", "i 3"]]]),
        "onlyinfo": ([["iln", "i 1"]], [[["iln", f"o {k}"] for k in range(n)] for n in (1, 2, 3)], []),
        "firstinfo": ([["iln", "i 1"], ["tln", w]], [[["iln", i], ["tln", w]] for i in ("", "a b c", w)],
                      [[["iln", "i 1"], ["tln", w + " 2"]], [["iln", "i 1"], ["iln", "i 2"], ["tln", w]]]),
        "kv": ([["kv", w + "=", "1"], ["tln", "e"]], [[["kv", w + "=", "1"], ["tln", "e"]]],
               [[["kv", w + "=", "2"], ["tln", "e"]], [["kv", w + "=", "1"], ["tln", "f"]]]),
        "kvafter": ([["iln", "i 1"], ["iln", f"b {w}= 1"], ["kv", w + "=", "1"], ["tln", "e"]],
                    [[["iln", i] for i in x] + [["kv", w + "=", "1"], ["tln", "e"]]
                     for x in (("o", f"{w}", "p"), ("o",), ("o", f"c {w}= 2"), (f"is {w}=", "q", "r"))],
                    [[["iln", "o"], ["kv", w + "=", "2"], ["tln", "e"]], [["iln", "o"], ["kv", w + "=", "1"], ["tln", "f"]]]),
        "anchor": ([["iln", "i 1"], ["iln", f"b {w}:"], ["iln", f"{w}: b"], ["anchorln", w + ":"], ["tln", "e"]],
                   [[["iln", i] for i in x] + [["anchorln", w + ":"], ["tln", "e"]]
                    for x in (("o", f"{w}", "p"), ("o",), (f"a {w}:",), ("o", f"{w}: c"))],
                   [[["iln", "o"], ["anchorln", w + ":"], ["tln", "f"]]]),
        "float": ([["iln", "1.500 ms"], ["tln", w]], [[["ifloatln", v, "ms"], ["tln", w]] for v in (1.5, 2.25, -3)],
                  [[["ifloatln", 1.5, "ms"], ["tln", w + "x"]]]),
        "time": ([["t", w + " "], ["iln", "0.125 ms"], ["tln", "e"]],
                 [[["t", w + " "], ["ims"], ["tln", "e"]], [["t", w + " "], ["tms", 1e12], ["tln", "e"]]],
                 [[["t", w + " "], ["ims"], ["tln", "f"]]]),
        "set": ([["tset", [w, "b c"]], ["tln", "e"]], [[["tset", ["b c", w]], ["tln", "e"]]],
                [[["tset", [w, "b d"]], ["tln", "e"]], [["tset", [w, "b c"]], ["tln", "f"]]]),
        "table": ([["ttable", {"c": ["1", w]}], ["iln", "q"]], [[["ttable", {"d": ["1", w]}], ["iln", "r s"]]],
                  [[["ttable", {"c": ["2", w]}], ["iln", "q"]]]),
        "assert": ([["t", w + " "], ["assertln", True]], [[["t", w + " "], ["assertln", True]], [["t", w + " "], ["iln", "not ok"]]],
                   [[["t", w + "s "], ["assertln", True]]]),
    }
    return rv


TEMPLATES = list(contents("X"))
SOME = ["checked", "tail", "endinfo", "two", "onlyinfo", "set"]
FEW = ["checked", "endinfo", "kv", "middle"]
HEADS = [["h1", "Alpha"], ["h2", "Alpha"], ["h1", "Alphabet"], ["header", "Plain"]]
PRE = [["tln", "pre"], ["iln", "info"]]
PRE2 = [["tln", "pre"], ["iln", "other text"]]


def cases(tier):
    rv = []
    plan = [(1, TEMPLATES), (2, TEMPLATES), (3, SOME)] if tier == "quick" else \
        [(1, TEMPLATES), (2, TEMPLATES), (3, TEMPLATES), (4, FEW)]
    for n, ts in plan:
        for t in itertools.product(ts, repeat=n):
            for pre in (False, True):
                rv.append([list(t), pre])
    return rv


def variants(ts, pre):
    """ (program, expected verdict) """
    n = len(ts)
    parts = [contents(HEADS[i][1] + str(i))[ts[i]] for i in range(n)]
    for order in itertools.permutations(range(n)):
        # informational alternatives: all of one section with the first of the others, and all last ones
        choices = {tuple(0 for _ in range(n))}
        for i in range(n):
            for k in range(len(parts[i][1])):
                choices.add(tuple(k if j == i else 0 for j in range(n)))
        choices.add(tuple(len(parts[i][1]) - 1 for i in range(n)))
        for c in sorted(choices):
            yield build(order, [parts[i][1][c[i]] for i in range(n)], pre), "OK"
        # one section's checked text changed
        for i in range(n):
            for change in parts[i][2]:
                for alt in ({0, 1} if n < 3 else {0}):
                    body = [parts[j][1][min(alt, len(parts[j][1]) - 1)] for j in range(n)]
                    body[i] = change
                    yield build(order, body, pre), "DIFF"


def build(order, bodies, pre):
    p = list(PRE2) if pre else []
    for i in order:
        p.append(HEADS[i])
        p += bodies[i]
    return p


def run(case, ctx):
    ts, pre = case[0], case[1]
    base = (list(PRE) if pre else [])
    for i, t in enumerate(ts):
        base.append(HEADS[i])
        base += contents(HEADS[i][1] + str(i))[t][0]
    snap = prog.plain_doc(base)
    todo = [case[2:]] if len(case) > 2 else list(variants(ts, pre))
    os.makedirs("books")
    names = [f"p{i}" for i in range(len(todo))]
    for n in names:
        with open(f"books/{n}.md", "w") as f:
            f.write(snap)
    tests = world.tests_of([(n, prog.make_test(p)) for n, (p, w) in zip(names, todo)])
    out = world.execute(tests, "books", ["*"])
    if out.exc:
        ctx.bad(out.exc)
        return
    rep = world.report("books")
    for n, (p, w) in zip(names, todo):
        ctx.step(len(p))
        ctx.state([snap, p])
        ctx.trace()
        ctx.outcome(w)
        if rep.get(n) != w:
            ctx.bad(f"accepted {snap!r}\nwritten {world.read('books/.out/' + n + '.md')!r}\nprogram {p}\n"
                    f"verdict {rep.get(n)}, expected {w}", case=[ts, pre, p, w])
            return
