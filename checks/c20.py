"""C20: clean-up removes garbage and only garbage."""
import itertools
import os
import shutil

import booktest as bt
from mc import inline, world

ID = "C20"
TITLE = "Clean-up removes garbage and only garbage"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sets of up to 3 of 6 test names (prefixes and extensions of each other) x all sets of up to 3 (2 for 3 tests) of 23 files "
             "whose names are equal to, extend or are extended by them, and all 23 at once, listed and cleaned, in 5 "
             "spellings of the books directory; all sets of 7 links within the books directory to places outside; all sequences of 3 of run, accept, clean, remove a test, for 3 suites",
    "thorough": "all sets of up to 4 files; sequences of 4 steps"}
CASE_TIMEOUT = 240

NAMES = ["s/a", "s/ab", "s", "a", "s/a.b", "s/a/c"]
FILES = ["s/a.md", "s/a/x", "s/a/d/y", "s/ab.md", "s/ab/x", "s/a.md.bak", "s/a.txt", "s/A.md", "s/a b.md", "index.md",
         "s/index.md", "index.md.old", "s.md", "a.md", "a/x", "s/a.b.md", "s/a.b/x", ".out/s/a.md", ".out/s/a/x", "ss/a.md",
         ".gitignore", "s/.gitignore", "s/a/.hidden"]
# place in the books directory, what it links to
LINKS = [("link", "outside"), ("s/link", "outside/d"), ("loop", "books"), ("s/x.md", "outside/x.md"), ("gone.md", "outside/gone"),
         ("s/a/more", "outside"), ("s/a/y", "outside/d/y")]
ROOTS = ["books", "books/", "./b", "deep/er/books", "/abs"]


def cases(tier):
    rv = []
    n = 3 if tier == "quick" else 4
    for k in range(4):
        for names in itertools.combinations(NAMES, k):
            for first in range(len(FILES)):
                rv.append(["files", list(names), first, n - (k == 3)])
    for names in ([], NAMES[:1], NAMES[:2], NAMES[2:4], NAMES):
        for r in ROOTS:
            rv.append(["all", list(names), r])
    for names in ([], NAMES[:1], NAMES[2:3], NAMES):
        for k in range(1, len(LINKS) + 1):
            rv.append(["links", names, k])
    for i in range(len(SUITES)):
        for a in range(len(STEPS)):
            rv.append(["history", i, a, 3 if tier == "quick" else 4])
    return rv


def is_garbage(f, names):
    if f == "index.md":
        return False
    for n in names:
        if f == n + ".md" or f.startswith(n + "/"):
            return False
    return True


def make_files(root, files):
    for f in files:
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(f)


def listed(out, root, prefix=""):
    rv = []
    for l in out.stdout.split("\n"):
        if l.startswith(prefix) and l:
            rv.append(os.path.relpath(l[len(prefix):], root))
    return sorted(rv)


def check(ctx, names, files, root, case, tests=None):
    if tests is None:
        tests = world.tests_of([(n, lambda t: None) for n in names])
    full = {f: v for f, v in world.tree(root).items() if v is not None}
    want = sorted(f for f in full if is_garbage(f, names))
    keep = {f: v for f, v in full.items() if f not in want}
    out = world.execute(tests, root, ["--garbage"])
    ctx.trace()
    ctx.step(2)
    ctx.outcome(f"{len(want)} garbage")
    label = f"tests {names}, files {sorted(full)}, books directory {root}"
    if out.exc or out.exit or listed(out, root) != want:
        ctx.bad(f"{label}: --garbage lists {listed(out, root)}, expected {want} {out.exc or ''}", case=case)
        return False
    after = {f: v for f, v in world.tree(root).items() if v is not None}
    if after != full:
        ctx.bad(f"{label}: --garbage changed {world.diff_tree(full, after)}", case=case)
        return False
    out = world.execute(tests, root, ["--clean"])
    after = {f: v for f, v in world.tree(root).items() if v is not None}
    if out.exc or out.exit or after != keep:
        ctx.bad(f"{label}: --clean leaves {sorted(after)}, expected {sorted(keep)} {out.exc or ''}", case=case)
        return False
    if listed(out, root, "removed ") != want:
        ctx.bad(f"{label}: --clean says {out.stdout!r}, expected {want}", case=case)
        return False
    out = world.execute(tests, root, ["--garbage"])
    if out.stdout or out.exc:
        ctx.bad(f"{label}: garbage after cleaning: {out.stdout} {out.exc or ''}", case=case)
        return False
    return True


def fits(names, files):
    """ a path cannot be a file and a directory """
    return not any(a != b and b.startswith(a + "/") for a in files for b in files)


def run(case, ctx):
    if case[0] == "files":
        _, names, first, n = case
        tests = world.tests_of([(x, lambda t: None) for x in names])
        for k in range(n):
            for rest in itertools.combinations(range(first + 1, len(FILES)), k):
                files = [FILES[first]] + [FILES[i] for i in rest]
                if not fits(names, files):
                    continue
                shutil.rmtree("books", ignore_errors=True)
                make_files("books", files)
                ctx.state([names, files])
                if not check(ctx, names, files, "books", case, tests):
                    return
    elif case[0] == "all":
        _, names, root = case
        if root == "/abs":
            root = os.path.abspath("abs")
        make_files(root, FILES)
        make_files(".", ["outside.md", "s/a.md", "books.md", "booksx/a.md"])
        before = {f: v for f, v in world.tree(".").items() if not f.startswith(os.path.relpath(root) + "/")}
        if not check(ctx, names, FILES, root, case):
            return
        after = {f: v for f, v in world.tree(".").items() if not f.startswith(os.path.relpath(root) + "/")}
        if before != after:
            ctx.bad(f"cleaning {root} changed files outside: {world.diff_tree(before, after)}", case=case)
    elif case[0] == "links":
        run_links(case, ctx)
    else:
        run_history(case, ctx)


def run_links(case, ctx):
    """ nothing outside the books directory is reached through links """
    _, names, k = case
    tests = world.tests_of([(x, lambda t: None) for x in names])
    for links in itertools.combinations(LINKS, k):
        for d in ("books", "outside"):
            shutil.rmtree(d, ignore_errors=True)
        make_files("outside", ["x.md", "d/y", "d/e/z.md", "s/a.md"])
        make_files("books", ["s/a.md", "s/a/x", "s/q.md", "index.md", "z/z.md"])
        for place, to in links:
            os.makedirs(os.path.dirname("books/" + place), exist_ok=True)
            os.symlink(os.path.relpath(to, os.path.dirname("books/" + place)), "books/" + place)
        before = world.tree("outside")
        files = ["s/a.md", "s/a/x", "s/q.md", "index.md", "z/z.md"] + [p for p, to in links if not os.path.isdir(to)]
        want = sorted(f for f in files if is_garbage(f, names))
        label = f"tests {names}, links {links}"
        for args, prefix in ((["--garbage"], ""), (["--clean"], "removed ")):
            out = world.execute(tests, "books", args)
            ctx.trace()
            ctx.step()
            ctx.state([names, links, args])
            left = sorted(f for f in files if os.path.lexists("books/" + f))
            if out.exc or out.exit or listed(out, "books", prefix) != want or world.tree("outside") != before \
                    or left != sorted(f for f in files if prefix == "" or f not in want) \
                    or not all(os.path.lexists("books/" + p) for p, to in links if os.path.isdir(to)):
                ctx.bad(f"{label}: {args} says {listed(out, 'books', prefix)}, expected {want}; files left {left}; outside "
                        f"{world.diff_tree(before, world.tree('outside'))} {out.exc or ''}", case=case)
                return


def plain(text):
    def test(t):
        t.h1("title")
        t.tln(text)
    return test


def with_files(text):
    def test(t):
        with open(t.file("x.txt"), "w") as f:
            f.write(text)
        with open(t.tmp_file("tmp.txt"), "w") as f:
            f.write("tmp")
        t.tln("files")
        return text
    return test


def make_suite(i):
    if i == 0:
        return [["s/a", plain("1")], ["s/ab", with_files("2")], ["s/a.b", plain("3")]]
    if i == 1:
        f = with_files("v")

        @bt.depends_on(f)
        def dep(t, v):
            t.tln(v)
        return [["s/a", f], ["s/abc", dep], ["t", plain("x")]]
    return [["a", with_files("1")], ["index", plain("2")], ["x/index", with_files("3")]]


SUITES = [0, 1, 2]
STEPS = ["run", "accept", "update", "clean", "drop", "parallel"]


def run_history(case, ctx):
    _, i, first, n = case
    for tail in itertools.product(range(len(STEPS)), repeat=n - 1):
        shutil.rmtree("books", ignore_errors=True)
        cases_ = make_suite(i)
        steps = [STEPS[k] for k in (first, *tail)]
        accepted = False
        for s in steps + ["clean", "run"]:
            tests = bt.Tests([list(c) for c in cases_])
            names = [c[0] for c in cases_]
            if s == "clean":
                if os.path.isdir("books") and not check(ctx, names, None, "books", case, tests):
                    return
                continue
            if s == "drop":
                if len(cases_) > 1:
                    cases_ = cases_[:-1]
                continue
            args = {"run": [], "accept": ["-a"], "update": ["-u", "-a"], "parallel": ["-p2"]}[s]
            with inline.pool():
                out = world.execute(tests, "books", args + ["*"])
            accepted = accepted or s in ("accept", "update")
            ctx.trace()
            ctx.step()
            ctx.state([i, steps, s])
            want = "OK" if accepted else "DIFF"
            rep = world.report("books")
            if out.exc or {x: rep.get(x) for x in names} != {x: want for x in names}:
                # the document of a test named "index" is the overview page
                others = {x: rep.get(x) for x in names if x != "index"} == {x: want for x in names if x != "index"}
                known = "index-name" if others and not out.exc and "index" in names else None
                ctx.bad(f"suite {names}, steps {steps}: {s} gives {rep}, expected {want} for all {out.exc or ''}", case=case,
                        key=known)
                if not known:
                    return
