"""C21: every test works in its own fresh files."""
import itertools
import logging
import os
import shutil
import sys

import booktest as bt
from mc import inline, world

ID = "C21"
TITLE = "Every test works in its own fresh files"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "10 pairs of similar names: all sequences of 2 steps (run one or both tests with 6 behaviours, plain, -a, -u, "
             "interactive accept, parallel, continued, refreshing; review with acceptance; clean-up of nothing else), one pair with sequences of 3 of "
             "the steps of one test; every file of the books directory compared with a model after every step",
    "thorough": "sequences of 3 steps for 4 pairs"}
CASE_TIMEOUT = 600

PAIRS = [("s/a", "s/ab"), ("s/a", "t/a"), ("a", "s/a"), ("s/a", "s/a_tmp"), ("s/a", "s/A"), ("a", "ab"),
         ("s/t1", "s/t10"), ("a/b", "ab"), ("s/a", "s/_a"), ("s/sub/a", "s/a")]
NESTED = [("s/a", "s/a/b"), ("s/a/b", "s/a")]
# behaviour: (text, files, temporary files)
BEH = [("1", (), ()), ("1", ("x",), ("x",)), ("2", ("x", "d/y"), ("x", "d/y")), ("1", ("y", ".h"), ()),
       ("2", (), ("z",)), ("fail", ("x",), ("x",))]
MODES = [[], ["-a"], ["-u"], ["-i"], ["-p2"], ["-c"], ["-c", "-a", "-p2"], ["-v", "-r", "-S"]]


def steps(full=True):
    rv = []
    for b in range(len(BEH)):
        for m in range(len(MODES)):
            if BEH[b][0] == "fail" and m > 2 or b in (0, 3) and m > 4:
                continue
            rv.append(["run", 0, b, m])
            if full:
                rv.append(["run", 1, b, m])
    if full:
        rv += [["run", 2, 1, 0], ["run", 2, 2, 1], ["run", 2, 4, 4], ["run", 2, 1, 5]]
        rv += [["review", 1, 0], ["review", 2, 0]]
    rv += [["review", 0, 0]]
    return rv


def cases(tier):
    rv = []
    for p in PAIRS + NESTED:
        for s in steps():
            rv.append(["seq", list(p), [s], 1])
    for s in itertools.product(steps(False)[::2] if tier == "thorough" else steps(False)[::4], repeat=2):
        rv.append(["seq", list(PAIRS[0]), list(s), 1])
    if tier == "thorough":
        for p in PAIRS[:4]:
            for s in itertools.product(steps(), repeat=2):
                rv.append(["seq", list(p), list(s), 1])
    return rv


class Suite:
    def __init__(self, names):
        self.names = names
        self.beh = [0, 0]
        self.token = ["", ""]
        self.problems = []
        self.tests = world.tests_of([(n, self.make(i)) for i, n in enumerate(names)])

    def make(self, i):
        def test(t):
            text, files, tmps = BEH[self.beh[i]]
            paths = {}
            for what, getter in (("file", t.file), ("tmp", t.tmp_file)):
                d = os.path.dirname(getter("probe"))
                paths[what] = os.path.abspath(d)
                if os.listdir(d):
                    self.problems.append(f"{self.names[i]}: {what} directory {d} holds {sorted(os.listdir(d))} at the start")
            if paths["file"] == paths["tmp"]:
                self.problems.append("files and temporary files in the same directory")
            for getter, fs in ((t.file, files), (t.tmp_file, tmps)):
                for f in fs:
                    p = getter(f)
                    if getter == t.tmp_file:
                        # the other ways of asking
                        if t.tmp_path(f) != p:
                            self.problems.append(f"tmp_path {t.tmp_path(f)}, tmp_file {p}")
                        if "/" in f:
                            d = t.tmp_dir(os.path.dirname(f))
                            if not os.path.isdir(d) or os.listdir(d) or os.path.abspath(d) != os.path.dirname(os.path.abspath(p)):
                                self.problems.append(f"tmp_dir {d} for {p}")
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as h:
                        h.write(f"{self.names[i]} {f} {self.token[i]}")
            print(f"stderr {self.token[i]}", file=sys.stderr)
            logging.warning("logged %s", self.token[i])
            t.tln(text)
            if text == "fail":
                t.fail()
            return self.token[i]
        return test


def content(name, f, token):
    return f"{name} {f} {token}".encode()


class Model:
    """ the files each test owns, as {path: content} """

    def __init__(self, names):
        self.names = names
        self.exp_doc = [None, None]
        self.exp_files = [{}, {}]
        self.out_doc = [None, None]
        self.out_files = [None, None]
        self.tmp = [{}, {}]
        self.verdict = {}

    def run(self, i, beh, token, mode):
        text, files, tmps = BEH[beh]
        n = self.names[i]
        self.out_doc[i] = (text + "\n").encode()
        self.out_files[i] = {f: content(n, f, token) for f in files}
        self.tmp[i] = {f: content(n, f, token) for f in tmps}
        v = "FAIL" if text == "fail" else "OK" if self.exp_doc[i] == self.out_doc[i] else "DIFF"
        if (v == "DIFF" and ("-a" in mode or "-i" in mode)) or (v == "OK" and "-u" in mode):
            self.accept(i)
            v = "OK"
        self.verdict[n] = v

    def accept(self, i):
        if self.out_doc[i] is not None:
            self.exp_doc[i] = self.out_doc[i]
            self.exp_files[i] = self.out_files[i]
            self.out_doc[i] = None
            self.out_files[i] = None
        # otherwise it has been accepted already

    def review(self, which):
        for i in which:
            if self.verdict.get(self.names[i]) == "DIFF":
                self.accept(i)
                self.verdict[self.names[i]] = "OK"

    def tree(self):
        rv = {}
        for i, n in enumerate(self.names):
            if self.exp_doc[i] is not None:
                rv[n + ".md"] = self.exp_doc[i]
            if self.out_doc[i] is not None:
                rv[f".out/{n}.md"] = self.out_doc[i]
            for f, c in self.exp_files[i].items():
                rv[f"{n}/{f}"] = c
            for f, c in (self.out_files[i] or {}).items():
                rv[f".out/{n}/{f}"] = c
            for f, c in self.tmp[i].items():
                rv[f".out/{n}.tmp/{f}"] = c
        return rv


def real_tree(names):
    """ documents, files and temporary files; and everything else by owner """
    full = {k: v for k, v in world.tree("books").items() if v is not None}
    docs, rest = {}, {}
    for k, v in full.items():
        if k in ("index.md", ".out/cases.txt", ".out/metrics.json", ".out/output.txt") or k.startswith(".out/.batches/"):
            continue
        for ext in (".txt", ".log", ".bin"):
            if k in [f".out/{n}{ext}" for n in names]:
                rest[k] = v
                break
        else:
            docs[k] = v
    return docs, rest


def apply(s, m, step, k, ctx):
    """ runs one step on the code and the model; a message when they disagree """
    before = real_tree(s.names)[1] if os.path.isdir("books") else {}
    s.problems.clear()
    which = [0, 1] if step[1] == 2 else [step[1]]
    sel = [s.names[i] for i in which]
    if step[0] == "run" and "-c" in MODES[step[3]]:
        # what has succeeded does not run again
        which = [i for i in which if m.verdict.get(s.names[i]) != "OK"]
    ran = [s.names[i] for i in which]
    if step[0] == "run":
        mode = MODES[step[3]]
        for i in which:
            s.beh[i] = step[2]
            s.token[i] = str(k)
            m.run(i, step[2], str(k), mode)
        with inline.pool():
            out = world.execute(s.tests, "books", mode + sel, default_answer="a" if "-i" in mode else "c")
    else:
        out = world.execute(s.tests, "books", ["-w", "-a"] + sel)
        m.review(which)
    docs, rest = real_tree(s.names)
    ctx.step()
    if out.exc:
        return out.exc
    if s.problems:
        return s.problems[0]
    want = m.tree()
    if docs != want:
        return "files (expected -> found): " + world.diff_tree(want, docs)
    for n in s.names:
        for ext in (".txt", ".log", ".bin"):
            f = f".out/{n}{ext}"
            if (step[0] != "run" or n not in ran) and rest.get(f) != before.get(f):
                return f"{f} of the test that did not run: {before.get(f)} -> {rest.get(f)}"
        if step[0] == "run" and n in ran:
            log = (rest.get(f".out/{n}.log") or b"").decode()
            if sorted(log.split("\n")) != sorted([f"stderr {k}", f"logged {k}", ""]):
                return f".out/{n}.log of the test that ran last in step {k}: {log!r}"
    rep = world.report("books")
    if rep != m.verdict:
        return f"report {rep}, expected {m.verdict}"
    return None


def run(case, ctx):
    _, names, prefix, more = case
    s = Suite(names)
    nested = any(a != b and b.startswith(a + "/") for a in names for b in names)
    for tail in itertools.product(steps(), repeat=more):
        shutil.rmtree("books", ignore_errors=True)
        m = Model(names)
        todo = prefix + list(tail)
        for k, step in enumerate(todo):
            msg = apply(s, m, step, k, ctx)
            if msg:
                ctx.bad(f"tests {names}, steps {todo[:k + 1]}\n{msg}", case=case, key="nested-names" if nested else None)
                return
        ctx.trace()
        ctx.state([names, todo])
        ctx.outcome(str(sorted(m.verdict.values())))
