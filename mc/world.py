"""Drives booktest through its public entry points and observes the effects from outside."""
import builtins
import io
import os
import sys
import traceback

import booktest as bt


class Out:
    """ what one command did """
    exit = None        # return value (None counts as 0), or the SystemExit code
    exc = None         # text of an exception that escaped
    exc_type = None
    stdout = ""
    stderr = ""
    prompts = 0
    stderr_ok = True

    @property
    def ok(self):
        return self.exc is None and not self.exit


def call(fn, answers=(), default_answer="c", on_prompt=None):
    """ calls fn() with captured streams and scripted answers to input() """
    out = Out()
    policy = answers if callable(answers) else None
    answers = [] if policy else list(answers)
    so, se, inp = sys.stdout, sys.stderr, builtins.input
    o, e = io.StringIO(), io.StringIO()

    seen = [0]

    def fake_input(prompt=""):
        out.prompts += 1
        if on_prompt is not None:
            on_prompt(out.prompts, prompt)
        if policy:
            text = o.getvalue()
            a = policy(text[seen[0]:], str(prompt))
            o.write(str(prompt) + "\n")
            seen[0] = len(o.getvalue())
        else:
            o.write(str(prompt) + "\n")
            a = answers.pop(0) if answers else default_answer
        if isinstance(a, BaseException):
            raise a
        if out.prompts > 1000:
            raise EOFError("asked a thousand times")
        return a

    sys.stdout, sys.stderr, builtins.input = o, e, fake_input
    try:
        out.exit = fn()
        out.stderr_ok = sys.stderr is e
    except SystemExit as x:
        out.exit = x.code if x.code is not None else 0
        out.exc_type = "SystemExit"
        out.stderr_ok = sys.stderr is e
    except Exception as x:
        out.exc = traceback.format_exc()
        out.exc_type = type(x).__name__
        out.stderr_ok = sys.stderr is e
    except KeyboardInterrupt:
        out.exc = "KeyboardInterrupt"
        out.exc_type = "KeyboardInterrupt"
        out.stderr_ok = sys.stderr is e
    finally:
        sys.stdout, sys.stderr, builtins.input = so, se, inp
    out.stdout = o.getvalue()
    out.stderr = e.getvalue()
    return out


def tests_of(cases):
    return bt.Tests([list(c) for c in cases])


def execute(tests, books, args=(), answers=(), cache=None, **kw):
    if isinstance(tests, (list, tuple)):
        tests = tests_of(tests)
    args = list(args)
    if cache is None:
        return call(lambda: tests.exec(books, args), answers, **kw)
    return call(lambda: tests.exec(books, args, cache), answers, **kw)


def report(books):
    """ the stored report as {name: verdict}, "DUP" for a repeated name; own strict parser """
    rv = {}
    p = os.path.join(books, ".out", "cases.txt")
    if not os.path.exists(p):
        return rv
    with open(p, newline="", errors="replace") as f:
        for line in f.read().split("\n"):
            if line == "":
                continue
            parts = line.split("\t")
            if len(parts) != 3 or parts[1] not in ("OK", "DIFF", "FAIL"):
                rv[line] = "BAD"
                continue
            try:
                float(parts[2])
            except ValueError:
                rv[line] = "BAD"
                continue
            rv[parts[0]] = "DUP" if parts[0] in rv else parts[1]
    return rv


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def tree(root, skip=()):
    """ {relative path: content} of all files, {path/: None} for empty directories """
    rv = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = sorted(x for x in dirs if (rel + x) not in skip)
        for f in files:
            if rel + f in skip:
                continue
            p = os.path.join(d, f)
            if os.path.islink(p):
                rv[rel + f] = b"link:" + os.readlink(p).encode()
            else:
                with open(p, "rb") as h:
                    rv[rel + f] = h.read()
        if rel and not dirs and not files:
            rv[rel] = None
    return rv


def snapshots(books):
    """ everything in the books directory except the output directory and the overview page """
    rv = tree(books, skip=(".out", "index.md"))
    return {k: v for k, v in rv.items() if v is not None}


def diff_tree(a, b, limit=6):
    rv = []
    for k in sorted(set(a) | set(b)):
        if a.get(k, "absent") != b.get(k, "absent"):
            rv.append(f"{k}: {short(a.get(k, 'absent'))} -> {short(b.get(k, 'absent'))}")
    return "; ".join(rv[:limit])


def short(x, n=200):
    x = repr(x)
    return x if len(x) <= n else x[:n] + "..."
