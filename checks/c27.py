"""C27: paths are taken literally and effects stay in the books directory."""
import argparse
import itertools
import os
import re
import shutil

from mc import inline, world

ID = "C27"
TITLE = "Paths are taken literally and effects stay in the books directory"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "37 special characters and 22 injections in the name of the test (inside, at both ends), of its suite, and of the "
             "books directory, and books directories given in 10 other ways (links, .., absolute), x a history of 26 commands: run, accept, interactive run and review with every tool, parallel "
             "run, continue, list, print, path, view, garbage, clean, forget",
    "thorough": "the same with all pairs of special characters"}
ASSUMPTIONS = ["names contain no line break, tabulator or leading dash", "the recording tool runs in place of viewers"]
CASE_TIMEOUT = 200

CHARS = list(" '\"`$;&|<>()*?[]{}~#!\\%=^,@+:") + ["ä", "€", "--", "$$", "${HOME}", "$(touch in)", "`touch in`", "\\'", "''"]
INJECT = ["x; touch in", "x && touch in", "x | touch in", "x > in", "x' ; touch in; '", "x\"; touch in; \"", "$(touch in)",
          "x & touch in", "* *", "? in", "x y z", "a  b", "'", "''", "'\"'\"'", "$HOME", "~", "~root", "!!", "#", "x # y", "\\x"]


# books directories given in other ways; ln is a link to deep/dir
WAYS = ["./books", "books/", "books/.", "deep/../books", "ln/../books", "books//in", "ln", "ln/", "ln/books", "ABSOLUTE"]


def positions(c):
    rv = [f"s/x{c}y", f"s/x{c}", f"s{c}t/xy"]
    if c.strip() and not c.startswith("-"):
        rv += [f"s/{c}x", f"s/{c}", f"{c}s/x"]
    return rv


def cases(tier):
    rv = []
    for c in CHARS:
        for n in positions(c):
            if n not in ("*s/x",):
                rv.append([n, "books"])
    for n in INJECT:
        rv.append([f"s/{n}", "books"])
        rv.append([f"{n}/t", "books"])
        rv.append(["s/t", n])
        rv.append(["s/t", f"sub/{n}"])
    for c in CHARS:
        rv.append(["s/t", f"b{c}c"])
        rv.append([f"s{c}/x{c}y", f"b{c}"])
        if c.strip() and not c.startswith("-"):
            rv.append(["s/t", c])
    for w in WAYS:
        for n in ("s/t", "t", "s/it's x", "a/b/c"):
            rv.append([n, w])
    if tier == "thorough":
        for a, b in itertools.permutations(CHARS, 2):
            rv.append([f"s/x{a}y{b}", "books"])
            rv.append([f"s/t{b}u", f"b{a}c{b}"])
    return rv


def run(case, ctx):
    name, rel = case
    ctx.state(case)
    os.makedirs("project")
    os.chdir("project")
    # things nothing may touch
    decoys = {"in.txt": "1", "x": "1", "y": "1", "xy.md": "1", "books2/s/x.md": "1", "../outside": "1", "t.md": "1", "s/t": "1",
              "b": "1", "sub2/x": "1"}
    for d, text in decoys.items():
        if os.path.dirname(d):
            os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "w") as f:
            f.write(text)
    os.makedirs("deep/dir")
    os.symlink("deep/dir", "ln")
    special = rel in WAYS
    if rel == "ABSOLUTE":
        rel = os.path.abspath("books")
    place = os.path.relpath(os.path.realpath(rel), os.getcwd()) if special else rel

    def where(path):
        """ the file meant """
        return os.path.realpath(path) if special else path
    rec = os.path.abspath("../tool.sh")
    log = os.path.abspath("../tool.log")
    with open(rec, "w") as f:
        f.write(f"#!/bin/sh\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; done >> {log}\necho -- >> {log}\n")
    os.chmod(rec, 0o755)
    top = rel.split("/")[0]
    version = [1]
    other = "s/other" if not name.startswith("s/other") else "s/more"

    def test(t):
        t.tln(f"content {version[0]}")
        with open(t.file("f.txt"), "w") as h:
            h.write(f"file {version[0]}")
        with open(t.tmp_file("tmp.txt"), "w") as h:
            h.write("tmp")

    def plain(t):
        t.tln("plain")
    tests = world.tests_of([(name, test), (other, plain)])

    def outside():
        keep = os.getcwd()
        rv = {}
        for k, v in world.tree(os.path.dirname(keep), skip=("tool.log", "tool.sh")).items():
            if k == f"project/{place}" or k.startswith(f"project/{place}/"):
                continue
            # the directories on the way to the books directory
            if k.endswith("/") and f"project/{place}/".startswith(k):
                continue
            rv[k] = v
        return rv
    clean = outside()
    history = []

    def command(*args, answers="c", tools=()):
        """ -> output; everything outside the books directory has to stay """
        if os.path.exists(log):
            os.remove(log)
        history.append(list(args))
        parser = argparse.ArgumentParser()
        tests.setup_parser(parser)
        parsed = parser.parse_args(list(args))
        config = {x: rec for x in ("md_viewer", "diff_tool", "fast_diff_tool", "log_viewer")}
        with inline.pool():
            out = world.call(lambda: tests.exec_parsed(rel, parsed, extra_default_config=config), answers)
        ctx.trace()
        ctx.step()
        called = (world.read(log) or b"").decode()
        called = [[where(y) for y in x.split("\n")[:-1]] for x in called.split("--\n")[:-1]]
        msg = None
        if out.exc:
            msg = out.exc[-1200:]
        elif outside() != clean:
            msg = "changes outside: " + world.diff_tree(clean, outside())
        elif called != [[where(y) for y in x] for x in tools]:
            msg = f"the tools got {called}, expected {[list(x) for x in tools]}"
        if msg:
            raise Wrong(msg)
        return out

    exp, outp, logp = f"{rel}/{name}.md", f"{rel}/.out/{name}.md", f"{rel}/.out/{name}.log"

    def expect(what, ok):
        if not ok:
            raise Wrong(what)

    def doc(path, text):
        got = world.read(path)
        expect(f"{path} is {got}", got == (text.encode() if text is not None else None))

    try:
        command("*")
        doc(outp, "content 1\n")
        doc(exp, None)
        expect("files of the test", world.read(f"{rel}/.out/{name}/f.txt") == b"file 1" and
               world.read(f"{rel}/.out/{name}.tmp/tmp.txt") == b"tmp")
        expect("report", world.report(rel) == {name: "DIFF", other: "DIFF"})
        command("-w", "-i", name, answers="vldDc", tools=[[outp], [logp], [exp, outp], [exp, outp]])
        command("-a", name)
        doc(exp, "content 1\n")
        doc(outp, None)
        expect("accepted files", world.read(f"{rel}/{name}/f.txt") == b"file 1")
        doc(f"{rel}/{other}.md", None)
        command("-a", "-p1", other)
        command("*")
        expect("report", world.report(rel) == {name: "OK", other: "OK"})
        o = command("--print", name)
        expect(f"--print: {o.stdout!r}", o.stdout == "content 1\n")
        o = command("--path", name)
        expect(f"--path: {o.stdout!r}", o.stdout[-1:] == "\n" and where(o.stdout[:-1]) == where(exp))
        o = command("-l", name)
        expect(f"-l: {o.stdout!r}", o.stdout == f"  {name}\n")
        command("--view", name, tools=[[exp]])
        command("--view", "*", tools=[[exp, f"{rel}/{other}.md"]])
        o = command("-l", "skip:" + name, "*")
        expect(f"-l without it: {o.stdout!r}", o.stdout == f"  {other}\n")
        version[0] = 2
        o = command("-i", "-v", name, answers="vldDc", tools=[[exp, outp], [logp], [exp, outp], [exp, outp]])
        expect("report", world.report(rel).get(name) == "DIFF")
        o = command("-c", "-p1", "*")
        expect(f"parallel report {world.report(rel)}", world.report(rel) == {name: "DIFF", other: "OK"})
        doc(outp, "content 2\n")
        o = command("-w", "-i", "-L", "*", answers="vldDa", tools=[[exp, outp], [logp], [exp, outp], [exp, outp]])
        doc(exp, "content 2\n")
        expect("report", world.report(rel) == {name: "OK", other: "OK"})
        o = command("-p1", "-c", "*")
        command("-r", name)
        command("-p2", name)
        expect("report", world.report(rel).get(name) == "OK")
        command("-u", name)
        # garbage
        bad = [f"{rel}/{os.path.dirname(name)}/old {os.path.basename(name)}.md", f"{rel}/g.txt"]
        for b in bad:
            with open(b, "w") as f:
                f.write("old")
        have = {where(f"{rel}/{k}") for k in world.tree(rel) if not k.endswith("/")}
        good = {where(x) for x in (exp, f"{rel}/{name}/f.txt", f"{rel}/{other}.md", f"{rel}/index.md")}
        o = command("--garbage")
        expect(f"--garbage: {o.stdout!r}", sorted(map(where, o.stdout.split("\n")[:-1])) == sorted(have - good))
        o = command("--clean")
        expect(f"--clean: {world.diff_tree({k: 1 for k in good}, {where(f'{rel}/{k}'): 1 for k in world.tree(rel) if not k.endswith('/')})}",
               {where(f"{rel}/{k}") for k in world.tree(rel) if not k.endswith("/")} == good)
        command("*")
        expect("report", world.report(rel) == {name: "OK", other: "OK"})
        command("--forget", name)
        expect("report", world.report(rel) == {other: "OK"})
        o = command("-l", "-c", "*")
        expect(f"-l -c: {o.stdout!r}", o.stdout == f"  {name}\n")
        command("-c", "*")
        expect("report", world.report(rel) == {name: "OK", other: "OK"})
        ctx.outcome("literal")
    except Wrong as e:
        ctx.bad(f"test {name!r}, books directory {rel!r}, commands {history}: {e}", case=case)


class Wrong(Exception):
    pass
