"""C26: every test in the test directories is found once under its name."""
import itertools
import os
import re
import shutil
import sys

from mc import inline, world
from mc.core import REPO

ID = "C26"
TITLE = "Every test in the test directories is found once under its name"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 file names in 3 directories x all sequences of up to 2 out of 22 definitions in a file; all pairs of files with one "
             "definition each out of 22, in the same and in other directories, one importing the other; 35 class and file "
             "names; 21 names of inner directories; configured paths that are missing, nested, repeated or end with a slash; listed, run, shown in the overview",
    "thorough": "sequences of up to 3 definitions in a file"}
CASE_TIMEOUT = 300
CHUNK = 2

# source -> names under the file's suite {} (functions), class suites [name, methods], or whole names
DEFS = {
    "fn": ("def test_one(t):\n    t.tln('x')\n", ["F one"]),
    "fn2": ("def test_two(t):\n    t.tln('x')\n", ["F two"]),
    "async": ("async def test_coro(t):\n    t.tln('x')\n", ["F coro"]),
    "deco": ("@bt.mock_env({'VP_X': '1'})\n@bt.setup_teardown(lambda: iter([1]))\ndef test_deco(t):\n    t.tln('x')\n", ["F deco"]),
    "dep": ("def test_zbase(t):\n    return 1\n@bt.depends_on(test_zbase)\ndef test_dep(t, x):\n    t.tln('x')\n", ["F zbase", "F dep"]),
    "res": ("@bt.depends_on(bt.Resource('r'))\ndef test_res(t, r):\n    t.tln('x')\n", ["F res"]),
    "lambda": ("test_lam = lambda t: t.tln('x') and None\n", ["F lam"]),
    "default": ("def test_default(t, more=1):\n    t.tln('x')\n", ["F default"]),
    "helper": ("def helper_test(t):\n    pass\ndef testx(t):\n    pass\ndef _test_p(t):\n    pass\n", []),
    "values": ("test_value = 5\ntest_list = [1]\nclass test_cls:\n    def test_m(self, t):\n        pass\n", []),
    "camel": ("def test_camelCase_1(t):\n    t.tln('x')\n", ["F camelCase_1"]),
    "class": ("class AlphaBook(bt.TestBook):\n    def test_b(self, t):\n        t.tln('x')\n    def helper(self, t):\n        pass\n"
              "    def test_a(self, t):\n        t.tln('x')\n    test_value = 1 if False else staticmethod\n    del test_value\n",
              ["C alpha b", "C alpha a"]),
    "async class": ("class BetaTestBook(bt.TestBook):\n    async def test_a(self, t):\n        t.tln('x')\n", ["C beta a"]),
    "plain class": ("class TestGamma:\n    def test_a(self, t):\n        pass\nclass GammaTest:\n    def test_b(self, t):\n        pass\n", []),
    "argument": ("class DeltaBook(bt.TestBook):\n    def __init__(self, name):\n        super().__init__(name)\n"
                 "    def test_a(self, t):\n        t.tln('x')\n"
                 "delta_one = DeltaBook('q/one')\ndelta_two = DeltaBook('q/two')\n", ["W q/one/a", "W q/two/a"]),
    "unused": ("class EpsilonBook(bt.TestBook):\n    def __init__(self, name):\n        super().__init__(name)\n"
               "    def test_a(self, t):\n        pass\n", []),
    "suite": ("my_suite = bt.TestSuite('suite/s', [['one', lambda t: t.tln('x') and None], ['sub/two', lambda t: t.tln('x') and None]])\n",
              ["W suite/s/one", "W suite/s/sub/two"]),
    "deep": ("deep = bt.Tests([[n, lambda t: t.tln('x') and None] for n in ('d/b/c/x', 'd/b/c/y', 'd/b/d/x', 'd/c/b/x', 'd/z')])\n",
             ["W d/b/c/x", "W d/b/c/y", "W d/b/d/x", "W d/c/b/x", "W d/z"]),
    "tests": ("my_tests = bt.Tests([['tests/one', lambda t: t.tln('x') and None]])\n", ["W tests/one"]),
    "inherit": ("class EtaBook(bt.TestBook):\n    def test_a(self, t):\n        t.tln('x')\n"
                "class ThetaBook(EtaBook):\n    def test_b(self, t):\n        t.tln('x')\n", ["C eta a", "C theta b"]),
    "again": ("class IotaBook(bt.TestBook):\n    def test_a(self, t):\n        raise Exception('not this one')\n"
              "    def test_a_test_b(self, t):\n        t.tln('x')\n    def test_a(self, t):\n        t.tln('x')\n"
              "    test_a = bt.mock_env({'VP_X': '1'})(test_a)\n"
              "def test_m_test_n(t):\n    raise Exception('not this one')\n"
              "def test_m_test_n(t):\n    t.tln('x')\n",
              ["C iota a", "C iota a_test_b", "F m_test_n"]),
    "named": ("class ZetaBook(bt.TestBook):\n    def __init__(self):\n        super().__init__(name='given')\n"
              "    def test_a(self, t):\n        t.tln('x')\n", ["N given a"]),
}
FILES = ["a_test.py", "b_book.py", "c_suite.py", "test_d.py", "Big_Test_test.py", "e_test_book.py",
         "f_helper.py", "g_test.txt", "h_testing.py"]
DIRS = ["ta", "ta/sub", "tb"]
# file and class names, and the suite they give
NAMES = [("foo_test.py", "FooBook", "foo"), ("foo_test.py", "FooTestBook", "foo"), ("foo_bar_test.py", "FooBarBook", "foo_bar"),
         ("foobar_book.py", "FooBarBook", "foobar"), ("foo_book.py", "BarTest", "foo/bar"), ("foo_suite.py", "FooBook", "foo_suite/foo"),
         ("test_foo.py", "FooBook", "test_foo/foo"), ("foo_test.py", "HTTPServerBook", "foo/httpserver"),
         ("foo_test.py", "foo", "foo"), ("foo_test.py", "X1Book", "foo/x1"), ("foo_test_book.py", "FooBook", "foo"),
         ("Foo_test.py", "FooBook", "foo"), ("foo_test.py", "FooTestbook", "foo"), ("bar_test.py", "FooTestbook", "bar/foo"),
         ("test_foo_testbook.py", "FooBook", "test_foo/foo"), ("test_foo_test_book.py", "FooTest", "test_foo/foo"),
         ("test_footest.py", "Footest", "test_foo/foo"), ("test_foobook.py", "FoobookBook", "test_foo/foobook"),
         ("test_footestbook.py", "Footestbook", "test_foo/foo"), ("foo_testbook_test.py", "FooBook", "foo_testbook/foo"),
         ("foo_test_test.py", "FooTestTest", "foo_test"), ("foo_book_test.py", "FooBookTest", "foo_book"),
         ("testbook_suite.py", "TestbookBook", "testbook_suite/testbook"),
         ("test_book.py", "FooBook", "foo"), ("_test.py", "FooTest", "foo"), ("test_test.py", "FooBook", "test/foo"),
         ("foo_test.py", "Foo2BarBook", "foo/foo2_bar"),
         ("foo2bar_test.py", "Foo2BarBook", "foo2bar"), ("foo_test.py", "V2Book", "foo/v2"), ("foo_test.py", "Bar_BazTest", "foo/bar__baz"),
         ("foo_test.py", "ÄäniTest", "foo/ääni"), ("foo_test.py", "NäinÖinBook", "foo/näin_öin"),
         ("foo_test.py", "Book", "foo"), ("test_book.py", "Test", ""), ("book_test.py", "BookBook", "book")]


def is_test_file(f):
    return bool(re.fullmatch(r".*_test\.py|.*_book\.py|.*_suite\.py|test_.*\.py", f))


def stem(f):
    """ the file's part of the name """
    f = f[:-3].lower()
    for post in ("_testbook", "testbook", "_test_book", "test_book", "_book", "book", "_test", "test"):
        if f.endswith(post):
            return f[:-len(post)]
    return f


def expected(d, f, defs):
    rv = []
    if not is_test_file(f):
        return rv
    for x in defs:
        for line in DEFS[x][1]:
            p = line.split()
            if p[0] == "F":
                rv.append(f"{d}/{stem(f)}/{p[1]}")
            elif p[0] == "C":
                rv.append(f"{d}/{stem(f)}/{p[1]}/{p[2]}")
            elif p[0] == "N":
                rv.append(f"{d}/{stem(f)}/{p[1]}/{p[2]}")
            else:
                rv.append(p[1])
    return rv


def cases(tier):
    rv = []
    k = 2 if tier == "quick" else 3
    for f in FILES:
        for x in DEFS:
            rv.append(["file", f, x, k if tier == "thorough" else 2])
    for x in DEFS:
        rv.append(["pair", x])
    for i in range(len(NAMES)):
        rv.append(["class", i])
    for i in range(len(PATHS)):
        rv.append(["paths", i])
    for d in SUBDIRS:
        rv.append(["dirs", d])
    rv.append(["clash"])
    for x in ("class", "argument", "suite", "tests", "inherit", "fn"):
        rv.append(["import", x])
    return rv


PATHS = [("ta", ["ta", "ta/sub"]), ("tb,ta", ["tb", "ta", "ta/sub"]), ("ta/sub", ["ta/sub"]), ("ta/", ["ta", "ta/sub"]),
         ("missing,tb", ["tb"]), ("ta,ta", ["ta", "ta/sub"]), ("ta,ta/sub", ["ta", "ta/sub"]), ("missing", [])]


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def write(files):
    for path, text in files.items():
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as h:
            h.write("import booktest as bt\nfrom booktest import TestBook\nimport os\n" + text)


def overview(text):
    """ the names in the overview page, by its nesting """
    rv, stack, last = [], [], None
    for line in text.split("\n")[1:]:
        if not line.strip():
            continue
        m = re.fullmatch(r"((?:    )*) \* (.*)", line)
        if not m:
            return f"line {line!r}"
        level, entry = len(m.group(1)) // 4, m.group(2)
        if level > len(stack):
            return f"nesting of {line!r}"
        stack = stack[:level]
        link = re.fullmatch(r"\[(.*)\]\((.*)\.md\)", entry)
        if link:
            name = "/".join(stack + [link.group(1)])
            if name != link.group(2):
                return f"{link.group(2)} is listed as {name}"
            rv.append(name)
            last = stack[:]
        else:
            stack.append(entry)
            if last and last[:len(stack)] == stack:
                return f"{line!r} begins again what has not ended"
    return rv


def check(files, want, ctx, case, paths="ta,tb", unordered=False):
    """ lists, runs and compares """
    for d in ("ta", "tb", "books", "lib"):
        shutil.rmtree(d, ignore_errors=True)
    write(files)

    def go():
        for m in [m for m in sys.modules if m.split(".")[0] in ("booktest", "ta", "tb", "lib")]:
            del sys.modules[m]
        os.environ["BOOKTEST_TEST_PATHS"] = paths
        os.environ["BOOKTEST_DEFAULT_TESTS"] = "*"
        import booktest.cli
        with inline.pool():
            outs = [world.call(lambda: booktest.cli.main(a)) for a in (["-l"], ["-a"], ["-p1"], ["-l", "-c"])]
        import booktest
        suites = []
        for p in paths.split(","):
            suites.append(booktest.detect_test_suite(p).all_names())
        return [(o.exc, o.exit, o.stdout) for o in outs], suites
    kind, res = ctx.forked(go)
    ctx.trace()
    ctx.step(len(want))
    ctx.state(sorted(files.items()))
    ctx.outcome(len(want))
    msg = None
    if kind != "ok":
        msg = f"{kind} {res}"
    else:
        outs, suites = res
        listed = [x[2:] for x in outs[0][2].split("\n") if x.startswith("  ")]
        ran = re.findall(r"^  (.*?)\.\.", outs[1][2], re.M)
        rep = world.report("books")
        page = (world.read("books/index.md") or b"").decode()
        exc = [o[0] for o in outs if o[0]]
        if exc:
            msg = exc[0][-1500:]
        elif sorted(listed) != sorted(want):
            msg = f"listed {listed}"
        elif ran != listed:
            msg = f"listed {listed}, but run in the order {ran}"
        elif sorted(overview(page)) != sorted(want):
            msg = f"overview page: {overview(page)}"
        elif rep != {n: "OK" for n in want}:
            msg = f"report of a parallel run: {rep}"
        elif outs[3][2].strip():
            msg = f"left to do after everything passed: {outs[3][2]}"
        elif sorted(k for k in world.snapshots("books") if k.endswith(".md")) != sorted(n + ".md" for n in want):
            msg = f"accepted documents {sorted(world.snapshots('books'))}"
        elif sorted({n for s in suites for n in s}) != sorted(want) or any(len(set(s)) != len(s) for s in suites):
            msg = f"detect_test_suite: {suites}"
    if msg:
        ctx.bad(f"files {files}, paths {paths}: expected the tests {want}; {msg}", case=case)
    return msg is None


def source(defs):
    return "".join(DEFS[x][0] for x in defs)


def run_file(case, ctx):
    _, f, x, k = case
    dirs = DIRS if f in FILES[:2] else DIRS[:1]
    for d in dirs:
        for n in range(k):
            for rest in itertools.product(DEFS, repeat=n):
                defs = [x, *rest]
                if len(set(defs)) < len(defs):
                    continue
                if not check({f"{d}/{f}": source(defs)}, expected(d, f, defs), ctx, case):
                    return


def run_pair(case, ctx):
    x = case[1]
    for y in DEFS:
        for (p, q) in (("ta/a_test.py", "ta/b_book.py"), ("ta/a_test.py", "tb/a_test.py"), ("ta/a_test.py", "ta/a/c_test.py"),
                       ("ta/test_a.py", "ta/a_suite.py")):
            want = expected(*os.path.split(p), [x])
            more = expected(*os.path.split(q), [y])
            if set(want) & set(more) or x == y:
                continue
            if not check({p: source([x]), q: source([y])}, want + more, ctx, case):
                return


def run_class(case, ctx):
    f, c, suite = NAMES[case[1]]
    text = f"class {c}(bt.TestBook):\n    def test_m_x(self, t):\n        t.tln('x')\n"
    for d in DIRS:
        suite_ = f"{d}/{suite}".rstrip("/")
        if not check({f"{d}/{f}": text}, [f"{suite_}/m_x"], ctx, case):
            return
        if not check({f"{d}/{f}": text + "def test_fn(t):\n    t.tln('x')\n"},
                     [f"{suite_}/m_x", os.path.join(d, stem(f), "fn")], ctx, case):
            return


def run_paths(case, ctx):
    paths, dirs = PATHS[case[1]]
    files = {f"{d}/x_test.py": source(["fn", "class"]) for d in DIRS}
    want = [n for d in dirs for n in expected(d, "x_test.py", ["fn", "class"])]
    check(files, want, ctx, case, paths)


SUBDIRS = ["_inner", "__sub", "test", "a-b", "Sub_2", "books", "a b", "1", "a/b/c/d/e", "x_test", "test_x", "tests", "ä", "CVS", "build",
           "node_modules", "venv", "ta", "fixtures", "__main__", "con_book"]


def run_dirs(case, ctx):
    """ directories of any name, alone and beside others """
    d = f"ta/{case[1]}"
    for x in DEFS:
        if not check({f"{d}/a_test.py": source([x])}, expected(d, "a_test.py", [x]), ctx, case):
            return
    for other in ("ta", "tb", "ta/sub", os.path.dirname(d) + "/_z", d + "/more"):
        want = expected(other, "a_test.py", ["fn"]) + expected(d, "a_test.py", ["fn"])
        if not check({f"{other}/a_test.py": source(["fn"]), f"{d}/a_test.py": source(["fn"])}, want, ctx, case):
            return


def run_clash(case, ctx):
    """ two files whose names differ in what is left out of test names """
    def go():
        os.environ["BOOKTEST_TEST_PATHS"] = "ta"
        for m in [m for m in sys.modules if m.split(".")[0] == "booktest"]:
            del sys.modules[m]
        import booktest.cli
        return world.call(lambda: booktest.cli.main(["-a", "*"])).exc
    write({"ta/a_test.py": "def test_one(t):\n    open('ran', 'a').write('test')\n",
           "ta/a_book.py": "def test_one(t):\n    open('ran', 'a').write('book')\n"})
    kind, exc = ctx.forked(go)
    ran = (world.read("ran") or b"").decode()
    ctx.trace()
    if ran not in ("testbook", "booktest"):
        ctx.bad(f"ta/a_test.py and ta/a_book.py both define test_one: {ran} ran {exc or kind}", key="same-name", case=case)


def run_import(case, ctx):
    """ what a file imports from another test file, or from a module that is none, is still found once """
    x = case[1]
    names = re.findall(r"^class (\w+)|^(\w+) =", DEFS[x][0], re.M)
    names = [a or b for a, b in names] or ["bt"]
    if x == "fn":
        names = ["test_one as one"]
    imp = ", ".join(names)
    for p, q in (("ta/a_test.py", "ta/b_test.py"), ("ta/b_test.py", "ta/a_test.py"), ("ta/a_test.py", "tb/a_book.py"),
                 ("tb/a_book.py", "ta/a_test.py")):
        text = f"from {p[:-3].replace('/', '.')} import {imp}\n"
        want = expected(*os.path.split(p), [x])
        if not check({p: source([x]), q: text}, want, ctx, case):
            return
        if not check({p: source([x]), q: text + source(["fn2"])}, want + expected(*os.path.split(q), ["fn2"]), ctx, case):
            return
        if x in ("class", "inherit"):
            base = names[0]
            sub = f"class NuBook({base}):\n    def test_n(self, t):\n        t.tln('x')\n"
            if not check({p: source([x]), q: text + sub},
                         want + [f"{os.path.dirname(q)}/{stem(os.path.basename(q))}/nu/n"], ctx, case):
                return
