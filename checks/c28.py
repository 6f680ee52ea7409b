"""C28: documents refer to the files their test made."""
import hashlib
import itertools
import os
import pathlib
import shutil

from mc import inline, world

ID = "C28"
TITLE = "Documents refer to the files their test made"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "6 test names x 5 spellings of the books directory x 12 file names x 10 ways of referring to a file; all pairs of 13 "
             "references with equal and different contents; long files that differ at one place; references to 9 places outside the directory of the document; each run, "
             "accepted, repeated, repeated with other contents (serially and in parallel), accepted again",
    "thorough": "all triples of 13 references"}
CASE_TIMEOUT = 120

NAMES = ["a", "s/a", "s/t/u", "s p/a b", "ä/(1)", "s/a.md"]
BOOKS = ["books", "./books/", "sub/../books", "ABS", "b x/books"]
FILES = ["x.png", "d/y.txt", ".h", "a b.png", "x.tar.gz", "noext", "ä.png", "(1).png", "d/e/.z.png", "a%b&#c.png", "+x~'\".png", "..x/[y].png"]
# way: (kind of path, what is written)
WAYS = ["image", "alt", "rel", "absimage", "dots", "path", "hash", "hashimage", "hashpath", "link"]
REFS = [("x.png", "image"), ("x.png", "rel"), ("x.png", "hashimage"), ("y.png", "hashimage"), ("d/x.png", "hashimage"), ("d/x.png", "image"),
        ("a b.png", "alt"), ("y.png", "hash"), ("x.txt", "hashtxt"), ("noext", "hashpath"), ("x.png", "dots"), ("tmp.png", "tmp"), ("l.png", "link")]
OUTSIDE = ["s2/x.png", "s.md", "sa/x", "../x.png", "../../x.png", "/tmp/x.png", "s/../s2/x.png", "", ".."]


def cases(tier):
    rv = []
    for n in range(len(NAMES)):
        for b in range(len(BOOKS)):
            for w in range(len(WAYS)):
                rv.append(["one", n, b, w])
    k = 2 if tier == "quick" else 3
    for first in range(len(REFS)):
        for rest in itertools.product(range(len(REFS)), repeat=k - 2):
            rv.append(["many", [first, *rest]])
    for n in range(len(NAMES)):
        for b in range(len(BOOKS)):
            rv.append(["outside", n, b])
    return rv


def data(content, i):
    c = content[i]
    # the last ones are long
    rv = bytearray(b"content " * (1250 if c not in "LMNO" else 150000))
    where = {"0": 20, "2": 30, "3": 40, "9": 0, "8": 5000, "7": 9999, "M": 1200000 - 1, "N": 70000, "O": 4096}.get(c)
    if where is not None:
        rv[where] += 1
    return bytes(rv[:-1] if content[i] == "6" else rv)


def refer(t, i, file, way, content):
    """ makes a file and writes a reference to it """
    f = t.tmp_file(file) if way == "tmp" else t.file(file)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    real = f
    if way == "link":
        # the file the test made is a link
        real = os.path.abspath(f"linked{i}")
        if os.path.lexists(f):
            os.remove(f)
        os.symlink(real, f)
    with open(real, "wb") as h:
        h.write(data(content, i))
    if way == "absimage":
        f = os.path.abspath(f)
    elif way == "dots":
        f = os.path.join(os.path.dirname(f), "..", os.path.basename(os.path.dirname(f)), ".", os.path.basename(f))
    elif way == "path":
        f = pathlib.Path(f)
    elif way.startswith("hash"):
        if way == "hashpath":
            f = pathlib.Path(f)
        f = t.rename_file_to_hash(f, ".txt") if way == "hashtxt" else t.rename_file_to_hash(f) if way == "hash" \
            else t.rename_file_to_hash(f, postfix=".png")
    if way == "alt":
        t.timage(f, "an alt text")
    elif way in ("rel", "hash"):
        t.tln(str(t.rel_path(f)))
    else:
        t.timage(f)


def expected(name, i, file, way, content):
    """ (line, place of the file relative to the document) """
    leaf = name.split("/")[-1] + (".tmp" if way == "tmp" else "")
    if way.startswith("hash"):
        post = {"hash": "", "hashtxt": ".txt"}.get(way, ".png")
        file = os.path.join(os.path.dirname(file), hashlib.sha1(data(content, i)).hexdigest() + post)
    ref = f"{leaf}/{file}"
    if way in ("rel", "hash"):
        return ref, ref
    alt = "an alt text" if way == "alt" else os.path.splitext(os.path.basename(file))[0]
    return f"![{alt}]({ref})", ref


class Suite:
    def __init__(self, name, refs):
        self.name = name
        self.refs = refs
        self.content = "1" * len(refs)

        def test(t):
            for i, (f, w) in enumerate(self.refs):
                refer(t, i, f, w, self.content)

        def other(t):
            with open(t.file("x.png"), "wb") as h:
                h.write(b"other")
            t.tln("other")
        self.tests = world.tests_of([(name, test), (name + "2", other)])

    def want(self):
        return [expected(self.name, i, f, w, self.content) for i, (f, w) in enumerate(self.refs)]

    def check(self, books, args, content, verdict, ctx, case, accepted):
        self.content = content
        with inline.pool():
            out = world.execute(self.tests, books, args + ["*"])
        ctx.trace()
        ctx.step(len(self.refs))
        ctx.state([self.name, books, self.refs, args, content])
        label = f"test {self.name} in {books}, references {self.refs}, contents {content}, run {args}"
        got = world.report(books).get(self.name)
        ctx.outcome(got)
        if out.exc or got != verdict:
            ctx.bad(f"{label}: {out.exc or got}, expected {verdict}: {world.read(f'{books}/.out/{self.name}.md')!r}", case=case)
            return False
        places = [books] if accepted else [os.path.join(books, ".out")]
        for root in places:
            doc = world.read(f"{root}/{self.name}.md")
            want = "".join(line + "\n" for line, _ in self.want()).encode()
            if doc != want:
                ctx.bad(f"{label}: the document is {doc!r}, expected {want!r}", case=case)
                return False
            base = os.path.dirname(f"{root}/{self.name}")
            for i, (_, ref) in enumerate(self.want()):
                if self.refs[i][1] == "tmp" and accepted:
                    continue
                if world.read(os.path.join(base, ref)) != data(content, i):
                    ctx.bad(f"{label}: the document refers to {ref}, which holds "
                            f"{world.short(world.read(os.path.join(base, ref)))}", case=case)
                    return False
            kept = {k for k in world.tree(f"{root}/{self.name}") if not k.endswith("/")}
            made = {os.path.relpath(ref, self.name.split("/")[-1]) for i, (_, ref) in enumerate(self.want())
                    if self.refs[i][1] != "tmp"}
            if kept != made:
                ctx.bad(f"{label}: the test made {sorted(made)}, there are {sorted(kept)}", case=case)
                return False
        return True


def history(name, books, refs, ctx, case):
    shutil.rmtree("books", ignore_errors=True)
    s = Suite(name, refs)
    n = len(refs)
    same = "1" * n
    distinct = "".join(str(i) for i in range(n))
    for first in {same, distinct}:
        shutil.rmtree(books, ignore_errors=True)
        if not s.check(books, ["-a"], first, "OK", ctx, case, True):
            return False
        if not s.check(books, [], first, "OK", ctx, case, False):
            return False
        # contents that differ at the first, a middle or the last byte, or in length
        if n == 1 and refs[0][1].startswith("hash") and first == same and name in NAMES[:2] and books == BOOKS[0] \
                and refs[0][0] in FILES[:2]:
            # long files, that differ at one place
            for a, b in itertools.permutations("LMNO", 2):
                if not s.check(books, ["-a", "-u"], a, "OK", ctx, case, True) or \
                        not s.check(books, [], b, "DIFF", ctx, case, False):
                    return False
            shutil.rmtree(books)
            if not s.check(books, ["-a"], first, "OK", ctx, case, True):
                return False
        for i, new in [(i, new) for i in range(n) for new in ("9876" if n == 1 and "hash" in refs[0][1] else "9876"[i % 4])]:
            other = first[:i] + new + first[i + 1:]
            s.content = first
            a = [line for line, _ in s.want()]
            s.content = other
            b = [line for line, _ in s.want()]
            verdict = "OK" if a == b else "DIFF"
            for args in ([], ["-p2"]):
                if not s.check(books, args, other, verdict, ctx, case, False):
                    return False
            shutil.rmtree("kept", ignore_errors=True)
            shutil.copytree(books, "kept")
            if not s.check(books, ["-a", "-u"], other, "OK", ctx, case, True):
                return False
            shutil.rmtree(books)
            shutil.copytree("kept", books)
    return True


def run(case, ctx):
    if case[0] == "one":
        _, n, b, w = case
        for f in FILES:
            os.makedirs("sub", exist_ok=True)
            if not history(NAMES[n], place(b), [(f, WAYS[w])], ctx, case):
                return
    elif case[0] == "many":
        for last in REFS:
            # every reference to a file of its own
            refs = [(os.path.join(os.path.dirname(f), f"{i}{os.path.basename(f)}"), w)
                    for i, (f, w) in enumerate([REFS[i] for i in case[1]] + [last])]
            if not history("s/a", "books", refs, ctx, case):
                return
    else:
        run_outside(case, ctx)


def place(b):
    return os.path.abspath("books") if BOOKS[b] == "ABS" else BOOKS[b]


def run_outside(case, ctx):
    """ only files below the directory of the document can be referred to """
    _, n, b = case
    name, books = NAMES[n], place(b)
    os.makedirs("sub", exist_ok=True)
    base = os.path.abspath(os.path.dirname(f"{books}/.out/{name}"))
    tries = [os.path.join(base, f) if f else base for f in OUTSIDE]
    tries += [base + "2/x.png", base + "x", base + "/in.png", base + "/d/../in.png", os.path.relpath(base) + "/in.png",
              os.path.join(os.path.dirname(base), "other/in.png")]
    got = []

    def test(t):
        for f in tries:
            got.append(t.rel_path(f))
        t.timage(tries[-4], "x")
    out = world.execute(world.tests_of([(name, test)]), books, ["-a", "*"])
    ctx.trace()
    ctx.step(len(tries))
    ctx.state(case)
    for f, g in zip(tries, got):
        real = os.path.abspath(f)
        want = os.path.relpath(real, base) if real.startswith(base + "/") else None
        if real == base:
            want = ("", ".", None)
        ctx.outcome(want is None)
        if g not in want if isinstance(want, tuple) else g != want:
            ctx.bad(f"test {name} in {books}: rel_path({f!r}) is {g!r}, expected {want!r}", case=case)
            return
    if out.exc or world.report(books) != {name: "OK"}:
        ctx.bad(f"{out.exc or world.report(books)}", case=case)
