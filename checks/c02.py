"""C02: a change in checked output is always reported."""
import itertools
import os
import unicodedata

from mc import prog, world

ID = "C02"
TITLE = "A change in checked output is always reported"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs (accepted program, run program) of up to 2 operations each from an 18 operation alphabet and of "
             "up to 3 operations from a 6 operation alphabet; for 45 documents every one-token and one-line replacement, insertion, removal, swap and truncation of the snapshot, its Unicode normal forms and cases; "
             "each verdict, exit status and summary compared with the reference comparator",
    "thorough": "all pairs of programs of up to 2 operations from a 34 operation alphabet and of up to 3 operations "
                "from an 8 operation alphabet; for 45 documents every one-token and one-line edit of the snapshot and "
                "every pair of edits (each seventh first edit); each verdict, exit status and summary compared with the reference comparator"}

SMALL = [["t", "ab"], ["t", "ab "], ["t", "1"], ["t", "x\ny"], ["tln", "cd 7"], ["tln", ""], ["tln", "ab"], ["i", "zz"],
         ["i", " "], ["iln", "cd 7"], ["iln", ""], ["h1", "H"], ["h1", "G"], ["anchor", "cd"], ["anchorln", "ab"],
         ["kv", "cd", "7"], ["tset", ["u", "v w"]], ["tlist", ["u", "v w"]]]
MORE = [["t", ","], ["t", "-1.5"], ["tln", "cd  7"], ["tln", "cd 7.0"], ["tln", "Ab"], ["iln", "ab"], ["h2", "H"],
        ["tset", []], ["tset", ["v w"]], ["tlist", ["v w", "u"]], ["ttable", {"c": [1, 2], "d": ["q r", "-"]}],
        ["ttable", {"c": [1, 3], "d": ["q r", "-"]}], ["ifloatln", 1.5], ["ims"], ["assertln", True],
        ["tformat", {"a": 1}]]
TINY = [["t", "ab"], ["tln", "cd 7"], ["tln", ""], ["i", "zz"], ["iln", "ab"], ["h1", "H"], ["anchor", "cd"],
        ["tset", ["u", "v w"]]]

DOCS = [
    [["tln", "ab cd"]], [["tln", "ab"], ["tln", "cd 7"], ["tln", "-1.5,x"]],
    [["t", "ab "], ["tln", "cd"]], [["t", "ab"]], [["tln", "ab"], ["t", "cd 7 "]],
    [["h1", "H"], ["tln", "ab"]], [["h1", "H"], ["tln", "ab"], ["h1", "G"], ["tln", "cd"]],
    [["h1", "H"], ["tln", "ab"], ["h2", "G"], ["tln", "cd"], ["tln", "cd"]],
    [["kv", "k", "1"], ["kv", "l", "2"]], [["kv", "k", "1"], ["tln", "cd"]],
    [["anchor", "k="], ["tln", "7"], ["tln", "ab"]], [["anchorln", "K"], ["tln", "ab"]],
    [["tlist", ["a", "b 1", "c"]]], [["tlist", ["a", "b"]], ["tln", "e"]],
    [["tset", ["a", "b 1"]], ["tln", "e"]], [["tln", "s"], ["tset", ["a", "b"]]],
    [["ttable", {"c1": [1, 20], "c2": ["q r", "-"]}]], [["tformat", {"a": [1, "x"], "b": {"c": None}}]],
    [["i", "zz "], ["tln", "ab"]], [["t", "ab "], ["iln", "zz 9"], ["tln", "cd"]],
    [["t", "ab "], ["i", "5"], ["tln", " cd"]], [["iln", "zz"], ["tln", "cd"]], [["iln", "zz"]],
    [["ifloatln", 1.5, "ms"], ["tln", "ab"]], [["tln", "x\ny\nz"]], [["tln", "-1.5"], ["tln", "+7"], ["tln", "1.2.3"]],
    [["tln", "é²  a\tb"]], [["tln", "a\\b|c"]], [["t", "ab "], ["assertln", True], ["tln", "cd"]], [],
    [["h1", "H"], ["iln", "zz"], ["tln", "ab"], ["h1", "G"], ["tln", "cd"]],
    [["h1", "H"], ["iln", "zz"], ["h1", "G"], ["tln", "cd"], ["iln", "q"]],
    [["tln", ""], ["tln", ""], ["tln", "ab"]], [["tln", "ab"], ["tln", ""]], [["iln", ""], ["tln", "ab"], ["iln", ""]],
    [["it", "obj", [1], [["be_a", "list"], ["contain", 1]]], ["tln", "e"]],
    [["header", "Title"], ["tln", "ab"], ["header", "Other"], ["t", "cd"]],
    [["h1", "H"], ["tln", "ab"], ["h1", "H"], ["tln", "cd"]],
    [["kv", "k", "1"], ["kv", "k", "2"], ["tln", "e"]],
    [["tset", ["a", "b"]], ["tset", ["c"], "- "], ["tln", "e"]],
    [["tln", "caf\u00e9 e\u0301 \u212b \ufb01 \u00df \uff12 x\u00b2 \u2460 i\u0307\u00a0\u2212"], ["i", "\u0130"], ["tln", " \u017f\u212a"]],
    [["tset", ["\u00e9", "e\u0301"]], ["kv", "\u00c5", "\u212b"]],
]
# long words, numbers and lines, many lines
DOCS += [[["tln", "x" * 60]], [["t", "1" * 45], ["tln", " " + "ab" * 35 + " 7"]], [["tln", "word 7, " * 20 + "end"]],
         [["tln", f"line {i}"] for i in range(25)]]
TOKENS = ["q", "7", " ", ".", "-"]


def edits(text, two):
    """ all small edits of a snapshot """
    lines = text.split("\n")[:-1]
    toks = [prog.tokens(x) for x in lines]
    yield text
    # letters of equal appearance
    for part in [text] + sorted({c for c in text if ord(c) > 127}) + text.split():
        for form in ("NFC", "NFD", "NFKC", "NFKD"):
            yield text.replace(part, unicodedata.normalize(form, part))
    for other in (text.casefold(), text.upper(), text.lower(), text.expandtabs(), text.replace("\u00a0", " ").replace("\u2212", "-")):
        yield other
    for i, line in enumerate(lines):
        for k in range(len(toks[i]) + 1):
            for new in TOKENS + [None]:
                # replacement or removal of a token
                if k < len(toks[i]):
                    t = toks[i][:k] + ([new] if new is not None else []) + toks[i][k + 1:]
                    yield join(lines, i, "".join(t))
                if new is not None:
                    yield join(lines, i, "".join(toks[i][:k] + [new] + toks[i][k:]))
        for k in range(len(line)):
            c = line[k]
            yield join(lines, i, line[:k] + line[k + 1:])
            if c.isalpha():
                yield join(lines, i, line[:k] + c.swapcase() + line[k + 1:])
            yield join(lines, i, line[:k] + c + line[k:])
        rest = lines[:i] + lines[i + 1:]
        yield cat(rest)
        for j in range(len(rest) + 1):
            yield cat(rest[:j] + [line] + rest[j:])
        yield cat(lines[:i] + [line] + lines[i:])
        yield cat(lines[:i])
        for new in ("", "new", "# H", "k 1"):
            yield cat(lines[:i] + [new] + lines[i:])
            yield cat(lines + [new])
        if i + 1 < len(lines):
            yield cat(lines[:i] + [line + lines[i + 1]] + lines[i + 2:])
    for k in range(len(text)):
        yield text[:k]
    if two:
        base = list(edits(text, False))
        for e in base[::7]:
            if e.endswith("\n"):
                yield from edits(e, False)


def join(lines, i, new):
    return cat(lines[:i] + [new] + lines[i + 1:])


def cat(lines):
    return "".join(x + "\n" for x in lines)


def expand(alphabet, n):
    for k in range(n + 1):
        for p in itertools.product(alphabet, repeat=k):
            yield list(p)


def fixed(p):
    """ the snapshot an accepted run leaves (measured values as they are printed first) """
    out = []
    for op in p:
        if op[0] == "ifloatln":
            out.append(["iln", f"{op[1]:.3f}" + (" " + op[2] if len(op) > 2 else "")])
        elif op[0] in ("ims", "tms"):
            out.append(["iln", "0.001 ms"])
        else:
            out.append(op)
    return prog.plain_doc(out)


def cases(tier):
    """ ["pairs", run program, [snapshot texts]] """
    rv = []
    size = 80

    def add(kind, p, snaps):
        for i in range(0, len(snaps), size):
            rv.append([kind, p, snaps[i:i + size]])

    alphabet = SMALL if tier == "quick" else SMALL + MORE
    docs = sorted({fixed(p) for p in expand(alphabet, 2)}, key=lambda x: (len(x), x))
    for p in expand(alphabet, 2):
        add("pair", p, docs + [None])
    tiny = TINY[1:7] if tier == "quick" else TINY
    docs3 = sorted({fixed(p) for p in expand(tiny, 3)}, key=lambda x: (len(x), x))
    for p in expand(tiny, 3):
        add("pair", p, docs3)
    for p in DOCS:
        add("edit", p, sorted(set(edits(fixed(p), tier != "quick")), key=lambda x: (len(x), x)))
    return rv


PLAIN = {"t", "tln", "tlist", "tformat"}


def simple(p):
    return all(op[0] in PLAIN for op in p) and prog.regular(p)


def run(case, ctx):
    _, p, snaps = case
    names = [f"p{i}" for i in range(len(snaps))]
    os.makedirs("books")
    for n, s in zip(names, snaps):
        if s is not None:
            with open(f"books/{n}.md", "w", newline="") as f:
                f.write(s)
    tests = world.tests_of([(n, prog.make_test(p)) for n in names])
    out = world.execute(tests, "books", ["*"])
    rep = world.report("books")
    ctx.step(len(p) * len(snaps))
    if out.exc:
        ctx.bad(f"program {p}: {out.exc}")
        return
    doc = None
    good = True
    simple_p = simple(p)
    if simple_p:
        doc = prog.plain_doc(p)
    for n, s in zip(names, snaps):
        want = prog.verdict(p, s)
        if simple_p and s is not None and "\r" not in s:
            # checked text only: equal iff the documents are (up to a missing final line end)
            w2 = "OK" if prog.Cursor(s).lines == prog.Cursor(doc).lines else "DIFF"
            if w2 != want:
                raise AssertionError(f"reference comparator: {p} {s!r} {want} {w2}")
        got = rep.get(n)
        good = good and want == "OK"
        ctx.state([p, s])
        ctx.outcome(f"{case[0]} {want}")
        ctx.trace()
        if got != want:
            ctx.bad(f"snapshot: {s!r}\nprogram: {p}\nwritten: {world.read('books/.out/' + n + '.md')!r}\n"
                    f"verdict {got}, expected {want}", case=[case[0], p, [s]])
            return
    if (out.exit in (0, None)) != good:
        ctx.bad(f"program {p}: exit status {out.exit} although all tests passing is {good}")
    if world.snapshots("books") != {n + ".md": s.encode() for n, s in zip(names, snaps) if s is not None}:
        ctx.bad(f"program {p}: a plain run changed snapshots")
