"""C19: configuration sources are layered and never leak."""
import itertools
import os
import shutil
import sys

import booktest as bt
from mc import inline, world

ID = "C19"
TITLE = "Configuration sources are layered and never leak"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "14 flags x (absent, 0, 1) in the home file, the project file and the environment x command line, shown by "
             "--config and by what a run does; 5 text settings x all subsets of sources x 10 kinds of values x (no, other, the same) extra defaults; all pairs of 17 names of environment variables; all mixtures of 7 values (none, empty, 0, 1, ...) in home file, project file and environment; the same as extra "
             "defaults; all sequences of 3 runs over 9 option sets (5 with other defaults) in one process compared with runs of "
             "their own; set-up: all single and paired answers of 6 kinds over 7 questions x 3 earlier configurations, read "
             "back by a new process",
    "thorough": "all sequences of 4 runs over 9 option sets, triples of answers"}
CASE_TIMEOUT = 240

FLAGS = {   # setting: (option, value the option gives)
    "interactive": ("-i", True), "always_interactive": ("-I", True), "verbose": ("-v", True),
    "print_logs": ("-L", True), "fail_fast": ("-f", True), "continue": ("-c", True), "refresh_sources": ("-r", True),
    "update": ("-u", True), "accept": ("-a", True), "parallel": ("-p2", 2), "complete_snapshots": ("-s", True),
    "refresh_snapshots": ("-S", True), "coverage": ("--cov", True), "other_setting": (None, None)}
TOOLS = {"diff_tool": "-diff-tool", "md_viewer": "-md-viewer", "log_viewer": None, "fast_diff_tool": None, "my_own": None}
VALUES = ["tool", "tool --flag x", "a=b", "x=1 y==", "'quoted'", "# hash", "0x", "10", "äö", "x #1 ; 2"]
MIXED = [None, "", "0", "1", "x y", " ", "="]
OPTIONS = [[], ["-a"], ["-v"], ["-f"], ["-c"], ["-p2"], ["-u", "-L"], ["-s", "-diff-tool", "d2"], ["-r", "-i"]]
EXTRAS = [{}, {"accept": True}, {"verbose": True, "diff_tool": "extra"}, {"fail_fast": True}, {"continue": True}]
ANSWERS = ["", "x", "with blank", "a=b", "a,b/c", "# no"]
KEYS = ["diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "default_tests", "books_path"]
DEFAULTS = {"diff_tool": "meld", "fast_diff_tool": "diff", "md_viewer": "retext --preview", "log_viewer": "less",
            "test_paths": "test,book,run", "default_tests": "test,book", "books_path": "books"}


def cases(tier):
    rv = []
    for f in FLAGS:
        for h in (None, "0", "1"):
            rv.append(["flag", f, h])
    for t in TOOLS:
        for v in range(len(VALUES)):
            rv.append(["tool", t, v])
        for v in range(len(MIXED)):
            rv.append(["mixed", t, v])
    for i in range(len(OPTIONS)):
        rv.append(["seq", i, 3 if tier == "quick" else 4])
    for i in range(len(EXTRAS)):
        rv.append(["extra", i])
    for k in range(len(KEYS)):
        for old in range(3):
            rv.append(["setup", k, old, 2 if tier == "quick" else 3])
    rv.append(["main", 0])
    rv.append(["lines", 0])
    rv.append(["names", 0])
    return rv


# the tests of a project: one passes, two differ, one needs the recorded variable

class Project:
    def __init__(self):
        import logging
        self.log = []

        def ok(t):
            self.log.append("ok")
            logging.warning("LOGTEXT")
            t.tln("ok")

        def make(n):
            def test(t):
                self.log.append(n)
                t.tln(n)
            return test

        @bt.depends_on(ok)
        def dep(t, v):
            self.log.append("dep")
            t.tln("dep")

        @bt.snapshot_env("VP_X")
        def env(t):
            self.log.append("env=" + os.environ.get("VP_X", ""))
            t.tln("env")

        self.tests = world.tests_of([("s/ok", ok), ("s/d1", make("d1")), ("s/d2", make("d2")), ("s/dep", dep),
                                     ("s/env", env)])

    def run(self, args, **kw):
        self.log.clear()
        return world.execute(self.tests, "books", args, **kw)


def prepared(base):
    """ books in which ok, dep and env are accepted and recorded, d1 and d2 are not; made without any configuration """
    os.makedirs(base)
    os.chdir(base)
    p = Project()
    os.environ["VP_X"] = "rec"
    p.run(["-S", "-a", "s/ok", "s/dep", "s/env"])
    shutil.rmtree("books/.out")


def effects(args, store):
    """ what a run with these arguments shows to be on """
    rv = {}
    p = Project()
    os.environ["VP_X"] = "cur"

    def fresh(*sel, before=None, answers=()):
        shutil.rmtree("books", ignore_errors=True)
        shutil.copytree(store, "books")
        for s in before or []:
            os.makedirs("books/.out/s", exist_ok=True)
            if s.endswith(".bin"):
                shutil.copy(store + "/../value.bin", "books/.out/s/" + s)
            else:
                with open("books/.out/cases.txt", "w") as f:
                    f.write(s)
        pools = []
        with inline.pool():
            old = inline.Context.Pool
            try:
                inline.Context.Pool = staticmethod(lambda *a, **k: pools.append(1) or old(*a, **k))
                out = p.run(args + list(sel), answers=answers)
            finally:
                inline.Context.Pool = old
        return out, pools, list(p.log), world.report("books")

    out, pools, log, rep = fresh("s/ok")
    rv["verbose"] = "test s/ok..." in out.stdout or "s/ok ok in" in out.stdout
    rv["always_interactive"] = out.prompts > 0
    rv["print_logs"] = "LOGTEXT" in out.stdout
    rv["parallel"] = len(pools) > 0
    rv["update"] = not os.path.exists("books/.out/s/ok.md")
    out, pools, log, rep = fresh("s/d1", "s/d2")
    rv["interactive"] = out.prompts > 0
    rv["accept"] = rep.get("s/d1") == "OK"
    if not rv["accept"] and not rv["parallel"]:
        rv["fail_fast"] = "s/d2" not in rep
    out, pools, log, rep = fresh("s/ok", before=["s/ok\tOK\t1.0\n"])
    rv["continue"] = log == []
    out, pools, log, rep = fresh("s/dep", before=["ok.bin"])
    rv["refresh_sources"] = "ok" in log
    out, pools, log, rep = fresh("s/env")
    rv["refresh_snapshots"] = log == ["env=cur"]
    os.remove("books/s/env/.env.json")
    out = p.run(args + ["s/env"]) if not rv["parallel"] else None
    if out is not None:
        rv["complete_snapshots"] = p.log != []
    return rv


def world_of(home, project, env):
    """ sets up the sources in the current directory (for a forked child) """
    os.makedirs("home", exist_ok=True)
    os.environ["HOME"] = os.path.abspath("home")
    for path, conf in (("home/.booktest", home), (".booktest", project)):
        if conf is not None:
            with open(path, "w") as f:
                for k, v in conf.items():
                    f.write(f"{k}={v}\n")
    for k, v in (env or {}).items():
        os.environ["BOOKTEST_" + k.upper()] = v


def config(args=(), extra=None):
    """ the settings that --config prints """
    p = Project()
    if extra is None:
        out = p.run(["--config"] + list(args))
    else:
        import argparse
        parser = argparse.ArgumentParser()
        p.tests.setup_parser(parser)
        out = world.call(lambda: p.tests.exec_parsed("books", parser.parse_args(["--config"] + list(args)),
                                                     extra_default_config=extra))
    if out.exc or out.exit:
        return {"exception": out.exc or out.exit}
    rv = {}
    for line in out.stdout.split("\n"):
        if "=" in line:
            k, v = line.split("=", 1)
            rv[k] = v
    return rv


def child(ctx, fn):
    kind, value = ctx.forked(fn, 60)
    if kind != "ok":
        return {"exception": f"{kind}: {value}"}
    return value


def shown(v):
    return {"1": "True", "0": "False"}.get(v, v)


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def in_dir(name, fn):
    def go():
        os.makedirs(name, exist_ok=True)
        os.chdir(name)
        return fn()
    return go


def run_flag(case, ctx):
    _, flag, home = case
    option, given = FLAGS[flag]

    def prep():
        os.environ["HOME"] = os.getcwd()
        prepared(os.path.abspath("prep"))
        Project().run(["s/ok"])
        shutil.copy("books/.out/s/ok.bin", "value.bin")
        shutil.rmtree("books/.out")
        return True
    if child(ctx, prep) is not True:
        raise RuntimeError("the preparation failed")
    store = os.path.abspath("prep/books")
    n = 0
    for project, env, cli in itertools.product((None, "0", "1"), (None, "0", "1"), (0, 1) if option else (0,)):
        args = [option] if cli else []
        values = [x for x in (env, project, home) if x is not None]
        want = str(given) if cli else shown(values[0]) if values else None
        n += 1

        def go():
            world_of({flag: home} if home else None, {flag: project} if project else None,
                     {flag: env} if env else None)
            return config(args), effects(args, store) if flag not in ("coverage", "other_setting") else {}
        got = child(ctx, in_dir(f"d{n}", go))
        label = f"{flag}: home {home}, project {project}, environment {env}, arguments {args}"
        ctx.trace()
        ctx.step(8)
        ctx.state([flag, home, project, env, cli])
        if isinstance(got, dict):
            ctx.bad(label + "\n" + str(got["exception"]), case=case)
            return
        conf, eff = got
        on = want not in (None, "False")
        ctx.outcome(f"{flag} {on}")
        if conf.get(flag) != want:
            ctx.bad(f"{label}\n--config shows {conf.get(flag)}, expected {want}", case=case)
            return
        for k, v in eff.items():
            w = on if k == flag else False
            if k == "interactive":
                w = flag in ("interactive", "always_interactive") and on
            if k == "parallel" and flag == "parallel":
                w = on
            if k == "fail_fast" and flag == "fail_fast":
                w = on
            if k == "complete_snapshots" and flag == "refresh_snapshots":
                w = on
            if k in ("interactive", "always_interactive") and flag in ("interactive", "always_interactive") and \
                    k == "interactive":
                w = on
            if v != w:
                ctx.bad(f"{label}\nthe run behaves as if {k} was {'on' if v else 'off'}", case=case)
                return


def run_tool(case, ctx):
    _, key, vi = case
    v = VALUES[vi]
    n = 0
    for bits in itertools.product((0, 1), repeat=4):
        cli, env, project, home = bits
        if cli and TOOLS[key] is None:
            continue
        n += 1
        val = {s: f"{v} {s}" for s in ("cli", "env", "project", "home")}
        want = next((val[s] for s, b in zip(("cli", "env", "project", "home"), bits) if b), None)

        def go(extra=None):
            world_of({key: val["home"], "home_only": "h"} if home else None,
                     {key: val["project"], "project_only": "p"} if project else None, {key: val["env"]} if env else None)
            args = [TOOLS[key], val["cli"]] if cli else []
            return config(args, extra)
        for extra in (None, {"unrelated": "u"}, {"unrelated": "u", key: v + " extra"}):
            got = child(ctx, in_dir(f"d{n}{len(extra or ())}", lambda: go(extra)))
            ctx.trace()
            ctx.step()
            ctx.state([key, vi, bits])
            # extra defaults come before all but the command line
            want2 = extra[key] if key in (extra or {}) and not cli else want
            wanted = {k: w for k, w in ((key, want2), ("home_only", "h" if home else None), ("unrelated", extra and "u"),
                                        ("project_only", "p" if project else None)) if w}
            if got != wanted:
                ctx.bad(f"{key}: sources {[s for s, b in zip(('cli', 'env', 'project', 'home'), bits) if b]}: --config shows "
                        f"{got}, expected {wanted}", case=case)
                return


def run_mixed(case, ctx):
    """ different kinds of values in the three sources, settings to nothing among them """
    _, key, hi = case
    for n, (project, env) in enumerate(itertools.product(MIXED, repeat=2)):
        home = MIXED[hi]
        values = [v for v in (env, project and project.strip(), home and home.strip()) if v is not None]

        def go():
            world_of(*[None if v is None else {key: v, "last": "end"} for v in (home, project, env)])
            return config()
        got = child(ctx, in_dir(f"m{n}", go))
        ctx.trace()
        ctx.step()
        ctx.state([key, home, project, env])
        wanted = {key: shown(values[0]), "last": "end"} if values else {}
        if got != wanted:
            ctx.bad(f"{key}: home file {home!r}, project file {project!r}, environment {env!r}: --config shows {got}, "
                    f"expected {wanted}")
            return


def run_lines(case, ctx):
    """ comments, empty lines, outer blanks and repeated settings in the files """
    text = ["# c=1", "", "   ", "verbose=1", "diff_tool=a=b", "  md_viewer=x", "log_viewer=y  ", "verbose=0", "#verbose=1"]
    for perm in itertools.permutations(range(len(text)), 3):
        lines = [text[i] for i in perm]
        want = {}
        for l in lines:
            if not l.startswith("#") and l.strip():
                k, v = l.strip().split("=", 1)
                want[k] = shown(v)
        for end in ("\n", ""):
            def go():
                with open(".booktest", "w") as f:
                    f.write("\n".join(lines) + end)
                os.makedirs("home", exist_ok=True)
                os.environ["HOME"] = os.path.abspath("home")
                return config()
            got = child(ctx, in_dir("d", go))
            ctx.trace()
            ctx.state([lines, end])
            if got != want:
                ctx.bad(f"project file {lines}: --config shows {got}, expected {want}", case=case)
                return


def run_names(case, ctx):
    """ only variables that begin with BOOKTEST_ are settings, named by the rest in lower case """
    names = ["BOOKTEST_VERBOSE", "BOOKTEST_verbose", "BOOKTEST_My_Own", "BOOKTEST_BOOKTEST_X", "BOOKTEST_A_BOOKTEST_B",
             "MY_BOOKTEST_VERBOSE", "XBOOKTEST_VERBOSE", "_BOOKTEST_A", "booktest_verbose", "Booktest_A", "BOOKTEST",
             "BOOKTESTX_A", "BOOKTEST-A", "BOOK_TEST_A", "VERBOSE", "BOOKTEST_ X", "BOOKTEST_1"]
    for k in (1, 2):
        for some in itertools.combinations(names, k):
            want = {}
            for i, x in enumerate(some):
                if x.startswith("BOOKTEST_"):
                    want[x[9:].lower()] = f"value {i}"
            if len(want) < sum(x.startswith("BOOKTEST_") for x in some):
                continue

            def go():
                os.environ["HOME"] = os.getcwd()
                for i, x in enumerate(some):
                    os.environ[x] = f"value {i}"
                return config()
            got = child(ctx, in_dir("n", go))
            ctx.trace()
            ctx.step()
            ctx.state(some)
            if got != want:
                ctx.bad(f"environment variables {some}: --config shows {got}, expected {want}")
                return


def outcome(p, args, extra=None):
    """ everything a run shows, for comparing it with the same run in another process """
    shutil.rmtree("books/.out", ignore_errors=True)
    with inline.pool():
        if extra is None:
            out = p.run(args + ["s/ok", "s/d1", "s/d2"])
        else:
            import argparse
            parser = argparse.ArgumentParser()
            p.tests.setup_parser(parser)
            p.log.clear()
            out = world.call(lambda: p.tests.exec_parsed("books", parser.parse_args(args + ["s/ok", "s/d1", "s/d2"]),
                                                         extra_default_config=extra))
    rep = world.report("books")
    conf = config(args, extra)
    verbose = "test s/ok..." in out.stdout or "s/ok ok in" in out.stdout
    for n in ("d1", "d2"):
        if os.path.exists(f"books/s/{n}.md"):
            os.remove(f"books/s/{n}.md")
    return [out.exc, out.exit, sorted(p.log), sorted(rep.items()), conf, verbose, "LOGTEXT" in out.stdout, out.prompts]


def sequences(ctx, case, what, first, n, run_it):
    def alone(i):
        def go():
            world_of(None, {"diff_tool": "proj"}, {"md_viewer": "env"})
            p = Project()
            p.run(["-a", "s/ok"])
            return run_it(p, what[i])
        return go
    single = [child(ctx, in_dir(f"a{i}", alone(i))) for i in range(len(what))]
    for tail in itertools.product(range(len(what)), repeat=n - 1):
        seq = [first, *tail]

        def go():
            world_of(None, {"diff_tool": "proj"}, {"md_viewer": "env"})
            p = Project()
            p.run(["-a", "s/ok"])
            return [run_it(p, what[i]) for i in seq]
        got = child(ctx, in_dir("s", go))
        ctx.trace()
        ctx.step(n)
        ctx.state([case[0], seq])
        if got != [single[i] for i in seq]:
            ctx.bad(f"runs with {[what[i] for i in seq]} in one process give {got}, in processes of their own "
                    f"{[single[i] for i in seq]}", case=case)
            return


def run_seq(case, ctx):
    sequences(ctx, case, OPTIONS, case[1], case[2], lambda p, o: outcome(p, o))


def run_extra(case, ctx):
    sequences(ctx, case, EXTRAS, case[1], 3, lambda p, e: outcome(p, [], e))


def run_setup(case, ctx):
    _, k, old, n = case
    old = [None, {"diff_tool": "old tool", "books_path": "ob"}, {"test_paths": "a,b", "verbose": "1"}][old]
    combos = []
    for i, a in enumerate(ANSWERS):
        combos.append({KEYS[k]: a})
        for k2 in range(k + 1, len(KEYS)):
            for b in ANSWERS[1:]:
                combos.append({KEYS[k]: a, KEYS[k2]: b})
                if n > 2:
                    for k3 in range(k2 + 1, len(KEYS)):
                        combos.append({KEYS[k]: a, KEYS[k2]: b, KEYS[k3]: "third"})
    for c in combos:
        def go():
            shutil.rmtree("books", ignore_errors=True)
            world_of(None, old, None)
            if old is None and os.path.exists(".booktest"):
                os.remove(".booktest")
            out = Project().run(["--setup"], answers=[c.get(x, "") for x in KEYS], default_answer="TOO MANY")
            return out.exc, out.exit, out.prompts

        def back():
            os.environ["HOME"] = os.path.abspath("home")
            return config()
        got = child(ctx, in_dir("d", go))
        conf = child(ctx, in_dir("d", back))
        ctx.trace()
        ctx.step()
        ctx.state([c, old])
        want = {x: c.get(x) or (old or {}).get(x) or DEFAULTS[x] for x in KEYS}
        shown_ = {x: conf.get(x) for x in KEYS}
        if got != (None, 0, len(KEYS)) or shown_ != want:
            ctx.bad(f"set-up with the answers {c} over {old}: {got}; a later process shows {shown_}, expected {want}",
                    case=case)
            return


def run_main(case, ctx):
    """ the command line tool: test_paths, books_path and default_tests from each source """
    def go(paths, books, default, source):
        for d in ("ta", "tb"):
            os.makedirs(d, exist_ok=True)
            with open(f"{d}/x_test.py", "w") as f:
                f.write("def test_one(t):\n    t.tln('1')\n")
        conf = {k: v for k, v in (("test_paths", paths), ("books_path", books), ("default_tests", default)) if v}
        world_of(conf if source == "home" else None, conf if source == "project" else None,
                 conf if source == "env" else None)
        import booktest.cli
        out = world.call(lambda: booktest.cli.main([]))
        made = sorted(d for d in os.listdir(".") if os.path.exists(d + "/.out"))
        return out.exc, made, sorted(world.report(books or "books"))
    n = 0
    for source in ("home", "project", "env"):
        for paths in ("ta", "tb", "ta,tb", None):
            for books in (None, "bb"):
                for default in (None, "ta", "ta,tb", "skip:ta", "*"):
                    n += 1
                    got = child(ctx, in_dir(f"m{n}", lambda: go(paths, books, default, source)))
                    ctx.trace()
                    ctx.step()
                    ctx.state([source, paths, books, default])
                    tests = [p + "/x/one" for p in (paths or "").split(",") if p]
                    sel = {None: [], "ta": ["ta/x/one"], "ta,tb": ["ta/x/one", "tb/x/one"], "skip:ta": ["tb/x/one"],
                           "*": ["ta/x/one", "tb/x/one"]}[default]
                    want = (None, [books or "books"], sorted(set(tests) & set(sel)))
                    if got != want:
                        ctx.bad(f"main() with test_paths={paths} books_path={books} default_tests={default} from {source}: "
                                f"{got}, expected {want}", case=case)
                        return
