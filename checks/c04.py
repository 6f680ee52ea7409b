"""C04: sets are compared as sets."""
import itertools
import os

from mc import prog, world

ID = "C04"
TITLE = "Sets are compared as sets"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs of ordered lists of up to 3 of 5 elements (accepted, written) at 17 places of the document and with "
             "3 prefixes, without and with a change of the text around the set; 2 of 8 similar elements; pairs of two sets of up to 2 elements",
    "thorough": "all pairs of ordered lists of up to 4 of 5 elements (accepted, written) at 17 places of the document and "
                "with 3 prefixes, without and with a change of the text around the set; 2 of 8 similar elements; pairs of two sets of up to 3 "
                "elements"}

ELEMENTS = ["a", "ab c", "7", "", "- a"]
SIMILAR = ["a", "a ", "A", " a", "a  b", "a b", "7.0", "7"]
# (prefix, before, after, changed before, changed after)
L = ["tln", "x y"]
PLACES = [
    (" * ", [], []),
    (" * ", [], [["tln", "e 1"]]),
    (" * ", [["tln", "s"]], []),
    (" * ", [["tln", "s"]], [["tln", "e 1"]]),
    (" * ", [["tln", "s"]], [["tln", "e 1"], ["tln", "f"], ["tln", "g"], ["tln", "h"], ["tln", "i"], ["tln", "j"]]),
    (" * ", [["h1", "H"]], [["h1", "G"], ["tln", "e"]]),
    (" * ", [["h1", "H"], ["tln", "s"]], [["iln", "info"], ["tln", "e"]]),
    (" * ", [["iln", "info"]], [["iln", "info"]]),
    ("- ", [["tln", "s"]], [["t", "e"]]),
    ("", [["h1", "H"]], []),
    ("#", [["tln", "s"]], [["tln", ""], ["tln", "e"]]),
    (" * ", [["tlist", ["a", "ab c"]], ["tln", ""]], [["tln", ""], ["tlist", ["a", "7"]]]),
    (" * ", [["kv", "k", "1"]], [["kv", "l", "2"]]),
    (" * ", [["h1", "H"], ["tset", ["a", "ab c"]], ["tln", "-"]], [["tln", "-"], ["tset", ["7", "a"]], ["tln", "e"]]),
    (" * ", [], [["tln", "*a* e"], ["tln", "f"]]),
    (" * ", [["tln", "*"]], [["tln", "* a"], ["tln", " *"]]),
    ("- ", [["tln", "-"]], [["tln", "-a"], ["tln", " - a"]]),
]


def lists(n, elements=ELEMENTS):
    for k in range(n + 1):
        for p in itertools.permutations(elements, k):
            yield list(p)


def cases(tier):
    n = 3 if tier == "quick" else 4
    rv = []
    for i in range(len(PLACES)):
        for a in lists(n):
            rv.append(["one", i, a])
    for i in (0, 3, 10):
        for a in lists(2, SIMILAR):
            rv.append(["one", i, a, SIMILAR])
    m = 2 if tier == "quick" else 3
    for a in lists(m, ELEMENTS[:4]):
        for b in lists(m, ELEMENTS[:4]):
            rv.append(["two", a, b])
    return rv


def changed(part):
    """ every one-operation change of the checked text around the set """
    for i, op in enumerate(part):
        if op[0] in ("tln", "t") and op[1] != "":
            yield part[:i] + [[op[0], op[1] + "x"]] + part[i + 1:]
            yield part[:i] + [["tln", "extra"], op] + part[i + 1:]
        elif op[0] == "kv":
            yield part[:i] + [["kv", op[1], "9"]] + part[i + 1:]
        elif op[0] == "tlist":
            yield part[:i] + [["tlist", op[1][::-1]]] + part[i + 1:]
        elif op[0] == "tset":
            yield part[:i] + [["tset", op[1][:1]]] + part[i + 1:]


def variants(case, n, full):
    if case[0] == "one":
        prefix, pre, post = PLACES[case[1]]
        a = case[2]
        base = pre + [["tset", a, prefix]] + post
        for b in lists(2, case[3]) if len(case) > 3 else lists(n):
            yield base, pre + [["tset", b, prefix]] + post, "OK" if set(a) == set(b) else "DIFF"
        for b in (a, a[::-1]):
            for p in changed(pre):
                yield base, p + [["tset", b, prefix]] + post, "DIFF"
            for p in changed(post):
                yield base, pre + [["tset", b, prefix]] + p, "DIFF"
            if post and post[-1][0] in ("tln", "t") and post[-1] != ["t", "e"] and len(post) > 1 and post[-2][0] == "tln":
                yield base, pre + [["tset", b, prefix]] + post[:-1], "DIFF"
    else:
        a, b = case[1], case[2]
        base = [["tln", "s"], ["tset", a], ["tln", "m"], ["tset", b], ["tln", "e"]]
        n = 2 if len(a) < 3 and len(b) < 3 else 3
        for c in itertools.permutations(a):
            for d in lists(n, ELEMENTS[:4]):
                yield base, [["tln", "s"], ["tset", list(c)], ["tln", "m"], ["tset", d], ["tln", "e"]], \
                    "OK" if set(b) == set(d) else "DIFF"
        for c in lists(n, ELEMENTS[:4]):
            for d in itertools.permutations(b):
                yield base, [["tln", "s"], ["tset", c], ["tln", "m"], ["tset", list(d)], ["tln", "e"]], \
                    "OK" if set(a) == set(c) else "DIFF"


def run(case, ctx):
    if case[0] == "exact":
        todo = [case[1:]]
    else:
        todo = list(variants(case, 3 if ctx.tier == "quick" else 4, ctx.tier != "quick"))
    os.makedirs("books")
    names = [f"p{i}" for i in range(len(todo))]
    for n, (base, p, w) in zip(names, todo):
        with open(f"books/{n}.md", "w") as f:
            f.write(prog.plain_doc(base))
    tests = world.tests_of([(n, prog.make_test(p)) for n, (base, p, w) in zip(names, todo)])
    out = world.execute(tests, "books", ["*"])
    if out.exc:
        ctx.bad(out.exc)
        return
    rep = world.report("books")
    for n, (base, p, w) in zip(names, todo):
        ctx.step(len(p))
        ctx.state([base, p])
        ctx.trace()
        ctx.outcome(w)
        if rep.get(n) != w:
            ctx.bad(f"accepted {prog.plain_doc(base)!r}\nwritten {world.read('books/.out/' + n + '.md')!r}\nprogram {p}\n"
                    f"verdict {rep.get(n)}, expected {w}", case=["exact", base, p, w])
            return
