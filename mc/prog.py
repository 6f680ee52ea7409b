"""
Test programs as data: a program is a list of operations [name, args...].

  run_ops(t, ops)   executes it with the real test API
  doc(ops)          the document it must write, from the documentation of the operations
  verdict(ops, snapshot)  reference comparator: "OK", "DIFF" or "FAIL"
"""
import asyncio
import json
import re
import threading

import os


class Stop(Exception):
    pass


class BadText(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot be stored")


async def not_awaited():
    raise Stop("never runs")


def generator():
    yield Stop("never runs")


def deep():
    rv = []
    for _ in range(5000):
        rv = [rv]
    return rv


# what cannot be stored: also what a test returns whose body has not run
BAD_VALUES = {"reduce": Unpicklable, "lambda": lambda: (lambda: 1), "coroutine": not_awaited, "generator": generator,
              "lock": threading.Lock, "deep": deep, "member": lambda: {"a": [lambda: 2]}}


def python(text):
    """ values JSON does not have """
    import collections
    import enum
    import fractions
    return eval(text, {"OD": collections.OrderedDict, "DD": collections.defaultdict, "NT": collections.namedtuple("NT", "x y"),
                       "L": type("L", (list,), {}), "D": type("D", (dict,), {}), "E": enum.Enum("E", "a b"),
                       "Fraction": fractions.Fraction})


def busy(ms):
    import time
    end = time.time() + ms / 1000
    while time.time() <= end:
        pass


def chained(t, rv):
    """ tests chain the operations, as in t.h1("title").tln("text") """
    if rv is not t:
        raise Stop(f"an operation returns {rv} instead of the test")


def run_ops(t, ops):
    rv = None
    for op in ops:
        n, a = op[0], op[1:]
        if n in ("t", "tln", "i", "iln", "h1", "h2", "h3", "header", "anchor", "anchorln", "tformat"):
            chained(t, getattr(t, n)(*a))
        elif n == "ifloatln":
            t.ifloatln(*a)
        elif n == "h":
            chained(t, t.h(a[0], a[1]))
        elif n == "kv":
            chained(t, t.keyvalueln(a[0], a[1]))
        elif n == "tlist":
            t.tlist(list(a[0]), *a[1:])
        elif n == "tset":
            t.tset(list(a[0]), *a[1:])
        elif n == "tfmt":
            chained(t, t.tformat(python(a[0])))
        elif n == "ttable":
            chained(t, t.ttable(a[0]))
        elif n == "tdf":
            import pandas as pd
            chained(t, t.tdf(pd.DataFrame(a[0])))
        elif n == "assertln":
            if len(a) > 1:
                t.assertln(a[0], a[1])
            else:
                t.assertln(a[0])
        elif n == "it":
            it = t.it(a[0], a[1])
            for m in a[2]:
                if m[0] == "contain":
                    it = it.must_contain(m[1])
                elif m[0] == "equal":
                    it = it.must_equal(m[1])
                elif m[0] == "be_a":
                    it = it.must_be_a({"list": list, "str": str, "int": int}[m[1]])
                elif m[0] == "apply":
                    it = it.must_apply(m[1], lambda x: m[2])
                elif m[0] == "member":
                    it = it.member(str(m[1]), lambda x, k=m[1]: x[k])
        elif n == "tms":
            t.tmsln(lambda: None, a[0])
        elif n == "slow":
            t.tmsln(lambda: busy(a[0]), a[1])
        elif n == "ims":
            t.imsln(lambda: None)
        elif n == "fail":
            chained(t, t.fail())
        elif n == "diff":
            chained(t, t.diff())
        elif n == "raise":
            raise {"exc": Stop, "key": KeyError, "assert": AssertionError, "base": RecursionError,
                   "cancel": asyncio.CancelledError, "stop": StopIteration, "badstr": BadText}[a[0]](
                       *(a[1:] if len(a) > 1 else ["stop"]))
        elif n == "exit":
            raise SystemExit(a[0])
        elif n == "interrupt":
            raise KeyboardInterrupt()
        elif n == "ret":
            rv = a[0]
        elif n == "ret_bad":
            rv = BAD_VALUES[a[0]]()
        elif n == "file":
            with open(t.file(a[0]), "w") as f:
                f.write(a[1])
        elif n == "tmpfile":
            with open(t.tmp_file(a[0]), "w") as f:
                f.write(a[1])
        elif n == "log":
            import logging
            logging.getLogger().warning(a[0])
        elif n == "stderr":
            import sys
            print(a[0], file=sys.stderr)
        else:
            raise ValueError(f"unknown operation {op}")
    return rv


def make_test(ops):
    def test(t):
        return run_ops(t, ops() if callable(ops) else ops)
    return test


# ---------------------------------------------------------------- document model

def cell(x):
    return str(x).replace("\r", " ").replace("\n", " ").strip()


def table(columns):
    names = list(columns)
    rows = len(columns[names[0]]) if names else 0
    pads = [max([len(c)] + [len(str(v)) for v in columns[c]]) for c in names]
    lines = ["|" + "".join(c.ljust(p) + "|" for c, p in zip(names, pads)),
             "|" + "".join("-" * p + "|" for p in pads)]
    for r in range(rows):
        line = "|"
        for c, p in zip(names, pads):
            v = cell(columns[c][r])
            line += v + " " * (p - len(v)) + "|"
        lines.append(line)
    return lines


def types_of(v):
    if type(v) is list:
        return [types_of(i) for i in v]
    if type(v) is dict:
        return {k: types_of(i) for k, i in v.items()}
    return type(v).__name__


def atoms(ops):
    """
    the program as primitive steps: ("text", s, checked), ("seek", line) / ("seekp", prefix), ("head", ) for the
    conditional line end before a heading, ("set", elements, prefix), ("float", value, unit), ("fail",), ("diff",),
    ("stop",) for an exception
    """
    for op in ops:
        n, a = op[0], op[1:]
        if n == "t":
            yield "text", str(a[0]), True
        elif n == "tln":
            yield "text", str(a[0] if a else "") + "\n", True
        elif n == "i":
            yield "text", str(a[0]), False
        elif n == "iln":
            yield "text", str(a[0] if a else "") + "\n", False
        elif n in ("h1", "h2", "h3", "header", "h"):
            line = a[0] if n == "header" else "#" * (a[0] if n == "h" else int(n[1])) + " " + a[-1]
            yield ("head",)
            yield "seek", line
            yield "text", line + "\n\n", True
        elif n == "anchor":
            yield "seekp", a[0]
            yield "text", a[0], True
        elif n == "anchorln":
            yield "seek", a[0]
            yield "text", a[0] + "\n", True
        elif n == "kv":
            yield "seekp", a[0]
            yield "text", f"{a[0]} {a[1]}\n", True
        elif n == "tlist":
            for i in a[0]:
                yield "text", (a[1] if len(a) > 1 else " * ") + str(i) + "\n", True
        elif n == "tset":
            yield "set", [str(i) for i in a[0]], (a[1] if len(a) > 1 else " * ")
        elif n in ("ttable", "tdf"):
            lines = table(a[0])
            yield "text", lines[0] + "\n", False
            yield "text", lines[1] + "\n", True
            names = list(a[0])
            for r in range(len(lines) - 2):
                yield "text", "|", True
                for j, c in enumerate(names):
                    v = cell(a[0][c][r])
                    pad = max([len(c)] + [len(str(x)) for x in a[0][c]])
                    yield "text", v, True
                    yield "text", " " * (pad - len(v)), False
                    yield "text", "|", True
                yield "text", "\n", True
        elif n == "tformat":
            yield "text", json.dumps(types_of(a[0]), indent=2) + "\n", True
        elif n == "tfmt":
            yield "text", json.dumps(types_of(python(a[0])), indent=2) + "\n", True
        elif n == "ifloatln":
            yield "float", a[0], (" " + a[1] if len(a) > 1 else "")
        elif n in ("tms", "ims", "slow"):
            if n == "slow" or n == "tms" and a[0] < 0:
                yield ("fail",)
                yield "time", True
            else:
                yield "time", False
        elif n == "assertln":
            if not a[0]:
                yield ("fail",)
            yield "text", ("ok" if a[0] else (a[1] if len(a) > 1 and a[1] else "FAILED")) + "\n", False
        elif n == "it":
            title, it = a[0], a[1]
            for x in atoms([["h2", title + ".."]]):
                yield x
            for m in a[2]:
                if m[0] == "member":
                    title, it = title + "." + str(m[1]), it[m[1]]
                    for x in atoms([["h2", title + ".."]]):
                        yield x
                    continue
                what = {"contain": "have {}", "equal": "equal {}", "be_a": "be a {}", "apply": "{}"}[m[0]]
                shown = m[1]
                err = None
                if m[0] == "contain":
                    good = m[1] in it
                elif m[0] == "equal":
                    good = it == m[1]
                elif m[0] == "be_a":
                    typ = {"list": list, "str": str, "int": int}[m[1]]
                    good = type(it) == typ
                    shown = typ
                    err = f"was {type(it)}"
                else:
                    good = m[2]
                yield "text", f" * MUST {what.format(shown)}...", False
                for x in atoms([["assertln", good, err]]):
                    yield x
        elif n == "fail":
            yield ("fail",)
        elif n == "diff":
            yield ("diff",)
        elif n in ("raise", "exit"):
            yield ("stop",)
            return
        elif n == "ret_bad":
            yield ("bad",)
        elif n in ("ret", "file", "tmpfile", "log", "stderr"):
            pass
        else:
            raise ValueError(op)


def doc(ops):
    """ the document, as a list of ("lit", text) | ("re", pattern) pieces joined to a regular expression """
    s = ""        # literal text so far, with regex pieces marked
    out = []
    newlines = 0
    at_start = True

    def put(text):
        nonlocal newlines, at_start
        if text:
            out.append(re.escape(text))
            newlines += text.count("\n")
            at_start = text.endswith("\n")

    bad = False
    for a in atoms(ops):
        if a[0] == "text":
            put(a[1])
        elif a[0] == "head":
            if newlines or not at_start:
                put("\n")
        elif a[0] == "set":
            for i in a[1]:
                put(a[2] + i + "\n")
        elif a[0] == "float":
            put(f"{a[1]:.3f}{a[2]}")
            out.append(r"( \(was [^\n]*\))?")
            put("\n")
        elif a[0] == "time":
            out.append(r"[^\n]*")
            put("\n")
        elif a[0] == "bad":
            bad = True
        elif a[0] == "stop":
            out.append(r"(?s:.*)")
            return re.compile("".join(out) + r"\Z")
    if bad:
        out.append(r"(?s:.*)")
    elif not at_start:
        put("\n")
    return re.compile("".join(out) + r"\Z")


def plain_doc(ops):
    """ the document of a program without measured values and exceptions """
    out = ""
    for a in atoms(ops):
        if a[0] == "text":
            out += a[1]
        elif a[0] == "head":
            if out:
                out += "\n"
        elif a[0] == "set":
            for i in a[1]:
                out += a[2] + i + "\n"
        elif a[0] in ("float", "time", "stop", "bad"):
            raise ValueError(a)
    if out and not out.endswith("\n"):
        out += "\n"
    return out


def lines_of(ops):
    """ the lines a program writes, each a list of the pieces it is written in ("set"/None marks lines of sets) """
    line = []
    kind = None
    for a in atoms(ops):
        if a[0] == "text":
            parts = a[1].split("\n")
            for k, p in enumerate(parts):
                if p:
                    line.append(p)
                if k < len(parts) - 1:
                    yield kind, line
                    line = []
        elif a[0] == "head":
            yield kind, line
            line = []
        elif a[0] == "set":
            yield "setbegin", a[2]
            for i in a[1]:
                yield "set", [a[2] + i]
            yield "setend", a[2]
        elif a[0] == "float":
            yield kind, line + [f"{a[1]:.3f}", a[2]]
            line = []
        elif a[0] == "time":
            yield kind, line + ["1.000", " ms"]
            line = []
    if line:
        yield kind, line


def regular(ops):
    """
    the programs the properties about repeated output quantify over: adjacent pieces of a line do not join into one
    word, number or blank; anchors and sets begin at a line start; the line after a set is not an element
    """
    at_start = True
    for a in atoms(ops):
        if a[0] == "text":
            if a[1]:
                at_start = a[1].endswith("\n")
        elif a[0] == "head":
            at_start = True
        elif a[0] in ("seek", "seekp", "set"):
            if not at_start:
                return False
        elif a[0] in ("float", "time"):
            at_start = True
    pending = set()       # prefixes the next line must not have
    for kind, x in lines_of(ops):
        if kind == "setbegin":
            first = True
        elif kind == "setend":
            pending.add(x)
        else:
            text = "".join(x)
            if (kind != "set" or first) and any(text.startswith(p) for p in pending):
                return False
            pending = set()
            first = False
            if kind != "set" and sum((tokens(p) for p in x), []) != tokens(text):
                return False
    return True


def measured(ops):
    return any(op[0] in ("ifloatln", "tms", "ims", "slow") for op in ops)


# ---------------------------------------------------------------- reference comparator

NUM = re.compile(r"[+-]?[0-9]+(\.[0-9]+)?")


def tokens(s):
    """ words, numbers with sign and decimals, runs of blanks, single other characters (independent of the code) """
    rv = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in " \t":
            m = re.compile(r"[ \t]+").match(s, i)
            rv.append(m.group())
        else:
            sign = 1 if c in "+-" else 0
            j = i + sign
            if j < len(s) and s[j].isnumeric():
                while j < len(s) and s[j].isnumeric():
                    j += 1
                if j + 1 < len(s) and s[j] == "." and s[j + 1].isnumeric():
                    j += 1
                    while j < len(s) and s[j].isnumeric():
                        j += 1
                rv.append(s[i:j])
            elif c.isalnum():
                j = i
                while j < len(s) and s[j].isalnum():
                    j += 1
                rv.append(s[i:j])
            else:
                rv.append(c)
        i += len(rv[-1])
    return rv


class Cursor:
    """ the place of comparison in the snapshot """

    def __init__(self, text):
        lines = text.split("\n")
        if lines[-1] == "":
            lines.pop()
        self.lines = lines
        self.toks = [tokens(x) for x in lines]
        self.at = 0
        self.k = 0
        self.hit = set()       # lines with checked text that agreed

    def ended(self):
        return self.at >= len(self.lines)

    def take(self):
        if self.ended():
            return None
        t = self.toks[self.at]
        self.k += 1
        return t[self.k - 1] if self.k <= len(t) else "\n"

    def next_line(self):
        if not self.ended():
            self.at += 1
        self.k = 0

    def cut_off(self):
        """ lines follow that have not been written elsewhere in the document """
        if self.ended():
            return False
        i = self.at
        while i < len(self.lines) and self.lines[i] == "" and i not in self.hit:
            i += 1
        return i not in self.hit

    def find(self, pred):
        """ the next matching line from here on, else the first one before; else stay where the search ended """
        n = len(self.lines)
        for i in list(range(self.at, n)):
            if pred(self.lines[i]):
                if i != self.at:
                    self.at, self.k = i, 0
                return
        start = self.at
        for i in range(0, start):
            if pred(self.lines[i]):
                self.at, self.k = i, 0
                return
        self.at, self.k = start, 0


def verdict(ops, snapshot):
    """ snapshot: text of the accepted document or None """
    c = Cursor(snapshot) if snapshot is not None else None
    diff = fail = False
    line = False       # text in the current line
    count = 0
    checked = False

    def feed(tok, chk):
        nonlocal diff, line, count, checked
        if c is not None:
            at = c.at
            e = c.take()
            if chk and e != tok:
                diff = True
            elif chk:
                c.hit.add(at)
        checked = chk
        if tok == "\n":
            line = False
            count += 1
            if c is not None:
                c.next_line()
        else:
            line = True

    for a in atoms(ops):
        if a[0] == "text":
            for tok in tokens(a[1]):
                feed(tok, a[2])
        elif a[0] == "head":
            if count or line:
                feed("\n", checked and c is not None and not c.ended())
        elif a[0] == "seek":
            if c is not None:
                c.find(lambda x: x == a[1])
        elif a[0] == "seekp":
            if c is not None:
                c.find(lambda x: x.startswith(a[1]))
        elif a[0] == "set":
            if c is not None:
                exp = set()
                while not c.ended() and c.lines[c.at].startswith(a[2]):
                    exp.add(c.lines[c.at][len(a[2]):])
                    c.next_line()
                if exp != set(a[1]):
                    diff = True
            if a[1]:
                checked = False
                count += len(a[1])
        elif a[0] in ("float", "time"):
            feed("x", False)
            feed("\n", False)
            if a[0] == "time" and a[1]:
                pass
        elif a[0] == "fail":
            fail = True
        elif a[0] == "diff":
            diff = True
        elif a[0] in ("stop", "bad"):
            fail = True
            break
    if fail:
        return "FAIL"
    if line:
        feed("\n", checked)
    if c is None or diff:
        return "DIFF"
    if (checked or count == 0) and c.cut_off():
        return "DIFF"
    return "OK"
