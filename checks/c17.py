"""C17: a test leaves the process as it found it."""
import asyncio
import io
import itertools
import logging
import os
import shutil
import signal
import sys
import types

import booktest as bt
from mc import inline, interrupt, world
from mc.core import REPO

ID = "C17"
TITLE = "A test leaves the process as it found it"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all stacks of up to 2 and all orders of 3 out of 5 of the supplied decorators x 12 ways of ending x plain, async "
             "and method tests x with and without a log handler of the process, serial and parallel; 5 decorators that "
             "cannot be entered, alone, inside and around each other one, in 5 modes; 7 kinds of HTTP client that exist before the "
             "test, in 5 stacks, with 3 sequences of requests, 4 endings and 5 runs; an interrupt "
             "(SIGINT) at every executed line of a run of three tests with all decorators",
    "thorough": "all stacks of up to 3 of the supplied decorators, 4 out of 6; two interrupts histories"}
CASE_TIMEOUT = 240

# a module whose functions are replaced during tests
vpmod = types.ModuleType("vpmod")
exec("def f(x):\n    return [x]\ndef g(x):\n    return x\ndef h(x):\n    return x\n", vpmod.__dict__)
sys.modules["vpmod"] = vpmod
REAL = {n: getattr(vpmod, n) for n in "fgh"}
DEP = []


def dep_test(t):
    t.tln("dep")
    return 7


def around(log):
    def gen():
        log.append("setup")
        yield
        log.append("teardown")
    return gen


def decorators(log):
    return {
        "requests": bt.snapshot_requests(),
        "httpx": bt.snapshot_httpx(),
        "functions": bt.snapshot_functions(REAL["f"]),
        "mock": bt.mock_functions({REAL["g"]: lambda x: "mocked"}),
        "mock2": bt.mock_functions({REAL["g"]: lambda x: "again", REAL["h"]: lambda x: "too"}),
        "env": bt.snapshot_env("VP_A"),
        "mockenv": bt.mock_env({"VP_B": "m", "VP_A": None}),
        "missing": bt.mock_missing_env({"VP_C": "d"}),
        "setup": bt.setup_teardown(around(log)),
        # these fail halfway
        "halfmock": bt.mock_functions({REAL["g"]: lambda x: "mocked", "abc".upper: lambda: "x", REAL["h"]: lambda x: 1}),
        "halffunctions": bt.snapshot_functions(REAL["g"], "abc".upper, REAL["h"]),
        "halfenv": bt.mock_env({"VP_B": "m", "VP_A": 5, "VP_C": None}),
        "halfmissing": bt.mock_missing_env({"VP_C": "d", "VP_D": 5}),
        "halfnames": bt.snapshot_env("VP_B", "VP_C", "VP_A", "VP=D"),
    }


NAMES = ["requests", "httpx", "functions", "mock", "mock2", "env", "mockenv", "missing", "setup"]
ENDS = ["pass", "differ", "fail", "raise", "exit", "interrupt", "value", "call", "http", "late", "text", "pending"]
KINDS = ["function", "async", "method"]
BAD = ["halfmock", "halffunctions", "halfenv", "halfmissing", "halfnames"]


def cases(tier):
    rv = []
    thorough = tier == "thorough"
    for k in (0, 1, 2):
        for s in itertools.permutations(NAMES, k):
            rv.append(["stack", "function", list(s)])
    for k in (0, 1) if not thorough else (0, 1, 2):
        for s in itertools.permutations(NAMES, k):
            for kind in KINDS[1:]:
                rv.append(["stack", kind, list(s)])
    for s in itertools.permutations(NAMES if thorough else ["requests", "httpx", "functions", "env", "setup"], 3):
        rv.append(["stack", "function", list(s)])
    if thorough:
        for s in itertools.permutations(["requests", "httpx", "functions", "mock", "env", "setup"], 4):
            rv.append(["stack", "function", list(s)])
    # decorators that fail halfway
    for bad in BAD:
        for kind in KINDS:
            rv.append(["half", kind, [bad]])
            for n in NAMES:
                rv.append(["half", kind, [n, bad]])
                rv.append(["half", kind, [bad, n]])
    for client in CLIENTS:
        for stack in (["requests"], ["httpx"], ["requests", "requests"], ["httpx", "httpx"], ["requests", "httpx"]):
            rv.append(["clients", client, stack])
    for kind in KINDS[:2]:
        for part in range(24):
            rv.append(["sigint", kind, part, 24])
    return rv


def base_vector():
    """ what a test must leave as it was """
    import httpx
    import requests
    return {"stderr": sys.stderr, "stdout": sys.stdout, "stdin": sys.stdin,
            "log handlers": list(logging.getLogger().handlers), "log level": logging.getLogger().level,
            "environment": dict(os.environ), "working directory": os.getcwd(),
            "functions": tuple(getattr(vpmod, n) for n in "fgh"),
            "requests": (requests.Session.send, requests.Session.get_adapter, requests.adapters.HTTPAdapter.send,
                         requests.Session.request),
            "httpx": (httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request,
                      httpx.Client.send, httpx.AsyncClient.send),
            "SIGINT handler": signal.getsignal(signal.SIGINT)}


INSIDE = ["environment", "functions", "requests", "httpx", "working directory"]


def changed(a, b, keys=None):
    return [k for k in a if (keys is None or k in keys) and a[k] != b[k]]


def say(name):
    logging.getLogger().warning("LOG-" + name)
    logging.getLogger("vp.child").error("CHILD-" + name)
    print("ERR-" + name, file=sys.stderr)


class World:
    def __init__(self, kind, stack):
        self.end = "pass"
        self.probes = []
        self.log = []
        self.kind = kind
        decs = decorators(self.log)
        stack_ = [decs[x] for x in stack]

        def body(t, name="a"):
            say(name)
            t.tln("x" if self.end != "differ" or name != "a" else "other")
            if name == "a":
                end = self.end
                if "functions" in stack:
                    t.keyvalueln("f", str(vpmod.f(1)))
                if end == "fail":
                    t.fail()
                elif end == "raise":
                    raise ValueError("raised")
                elif end == "exit":
                    sys.exit(4)
                elif end == "interrupt":
                    raise KeyboardInterrupt()
                elif end == "value":
                    return lambda: 0
                elif end == "call":
                    vpmod.f(2)          # not recorded
                elif end == "http":
                    if "requests" in stack:
                        import requests
                        requests.get("http://127.0.0.1:9/none")
                    if "httpx" in stack:
                        import httpx
                        httpx.get("http://127.0.0.1:9/none")
                elif end == "text":
                    raise ValueError("not text \udc80")
                elif end == "pending":
                    t.i("not text \udc80")
                elif end == "late":
                    # the test changes what is swapped itself
                    logging.getLogger().addHandler(logging.NullHandler())
                    sys.stderr = io.StringIO()
                    vpmod_set(stack)
            return 1

        def deco(fn):
            for d in reversed(stack_):
                fn = d(fn)
            return fn

        def probe(t):
            say("b")
            t.tln("b")
            self.probes.append(base_vector())

        def third(t):
            return body(t, "c")

        if kind == "method":
            class ProbeBook(bt.TestBook):
                def __init__(self):
                    super().__init__("s")

                test_a = deco(lambda self, t: body(t))
                test_b = lambda self, t: probe(t)
                test_c = deco(lambda self, t: third(t))
            self.tests = bt.Tests(ProbeBook().cases)
        elif kind == "async":
            async def test_a(t):
                await asyncio.sleep(0)
                rv = body(t)
                await asyncio.sleep(0)
                return rv

            async def test_b(t):
                await asyncio.sleep(0)
                probe(t)

            async def test_c(t):
                third(t)
                await asyncio.sleep(0)
            self.tests = world.tests_of([("s/a", deco(test_a)), ("s/b", test_b), ("s/c", deco(test_c))])
        else:
            self.tests = world.tests_of([("s/a", deco(lambda t: body(t))), ("s/b", probe),
                                         ("s/c", deco(lambda t: third(t)))])

    def run(self, args):
        """ (outcome, state before, state after) """
        self.probes.clear()
        self.log.clear()
        states = []

        def go():
            states.append(base_vector())
            try:
                return self.tests.exec("books", args)
            finally:
                states.append(base_vector())
        out = world.call(go)
        return out, states[0], states[1]


def vpmod_set(stack):
    """ what the decorators manage may be changed by the test as well """
    if "functions" in stack:
        vpmod.f = lambda x: 0
    if "mock" in stack:
        vpmod.g = lambda x: 0
    if "env" in stack or "mockenv" in stack:
        os.environ["VP_A"] = "changed"
    if "missing" in stack:
        os.environ["VP_C"] = "changed"


def reset():
    for n in "fgh":
        setattr(vpmod, n, REAL[n])
    os.environ["VP_A"] = "a"
    os.environ["VP_B"] = ""
    os.environ.pop("VP_C", None)


def logs(books="books"):
    rv = {}
    for n in "abc":
        rv[n] = (world.read(f"{books}/.out/s/{n}.log") or b"").decode()
    return rv


def check_logs(ran, out, sink):
    got = logs()
    for n in "abc":
        for mark in ("LOG-", "CHILD-", "ERR-"):
            for m in "abc":
                want = 1 if m == n and n in ran else 0
                if m not in ran:
                    continue        # an old log
                if got[m].count(mark + n) != want:
                    return f"the log of {m} has {mark + n} {got[m].count(mark + n)} times: {got[m][:300]!r}"
            if mark + n in out.stderr or mark + n in out.stdout or mark + n in sink:
                return f"{mark + n} appears outside its test's log"
    return None


CLIENTS = ["session", "own adapter", "own send", "instance adapter", "mounted", "client", "own transport"]


def run_clients(case, ctx):
    """ clients that exist before the test and are used in it are what they were afterwards """
    import httpx
    import requests
    from mc import http
    _, client, stack = case
    server = http.Server()

    class OwnAdapter(requests.adapters.HTTPAdapter):
        pass

    own = OwnAdapter()

    class OwnSession(requests.Session):
        def get_adapter(self, url):
            return own

    class SendSession(requests.Session):
        def send(self, request, **kw):
            return super().send(request, **kw)

    class OwnTransport(httpx.HTTPTransport):
        def handle_request(self, request):
            return super().handle_request(request)

    def make():
        if client == "client":
            return httpx.Client(trust_env=False, follow_redirects=True, verify=http.SSL)
        if client == "own transport":
            return httpx.Client(trust_env=False, follow_redirects=True, transport=OwnTransport(verify=http.SSL))
        c = {"own adapter": OwnSession, "own send": SendSession}.get(client, requests.Session)()
        if client == "instance adapter":
            c.get_adapter = lambda url: own
        if client == "mounted":
            c.mount("http://", own)
        return c

    def state(c):
        rv = {k: id(v) for k, v in vars(c).items() if k not in ("_state",)}
        rv["type"] = type(c)
        if isinstance(c, requests.Session):
            rv["adapter"] = id(c.get_adapter(http.HOST + "/a"))
            rv["adapters"] = [(k, id(v)) for k, v in c.adapters.items()]
            rv["send"] = c.send.__func__
        else:
            rv["transport"] = id(c._transport_for_url(httpx.URL(http.HOST + "/a")))
            rv["handle"] = type(c._transport).handle_request
        return rv

    decs = decorators([])
    for ops in (["a"], ["r"], ["a", "r", "a"]):
        for end in ("pass", "raise", "missing", "error"):
            shutil.rmtree("books", ignore_errors=True)
            c = make()
            now = {"end": "pass"}

            def test(t):
                for op in ops:
                    http.rq_call(c.request, op) if client not in ("client", "own transport") else http.hx_call(c, op)
                t.tln("x")
                if now["end"] == "missing":
                    c.request("GET", http.HOST + "/other")
                elif now["end"] == "error":
                    c.request("GET", "nosuch://vp.test/x")
                elif now["end"] == "raise":
                    raise ValueError("raised")

            for d in stack:
                test = decs[d](test)
            tests = world.tests_of([("s/a", test)])
            with http.network(server):
                before = state(c)
                for args, e in ((["-S", "-a"], "pass"), ([], "pass"), ([], end), (["-s"], end), ([], "pass")):
                    now["end"] = e
                    out = world.execute(tests, "books", args + ["*"])
                    verdict = world.report("books").get("s/a")
                    lib = "requests" if isinstance(c, requests.Session) else "httpx"
                    want = "FAIL" if e == "raise" or e != "pass" and lib in stack and args != ["-s"] else None
                    after = state(c)
                    ctx.step(1)
                    ctx.trace()
                    ctx.state([case, ops, end, args])
                    ctx.outcome("client")
                    if verdict is None or want and verdict != want:
                        ctx.bad(f"{client} used in a test with {stack}, operations {ops}, end {e}, arguments {args}: {verdict}\n"
                                f"{(world.read('books/.out/s/a.md') or b'').decode()[-900:]}")
                        return
                    if out.exc or after != before:
                        ctx.bad(f"{client} used in a test with {stack}, operations {ops}, end {e}, arguments {args}: "
                                f"{[k for k in {**before, **after} if before.get(k) != after.get(k)]} of the client changed "
                                f"{out.exc or ''}")
                        return


def run(case, ctx):
    if case[0] == "clients":
        return run_clients(case, ctx)
    if case[0] == "sigint":
        return run_sigint(case, ctx)
    if case[0] == "half":
        return run_half(case, ctx)
    _, kind, stack = case
    w = World(kind, stack)
    reset()
    root = logging.getLogger()
    sink = io.StringIO()
    out, v0, v1 = w.run(["-S", "-a", "*"])
    if changed(v0, v1) or out.exc or set(world.report("books").values()) != {"OK"}:
        ctx.bad(f"{kind} with {stack}: the capturing run: changed {changed(v0, v1)}, {world.report('books')}, "
                f"{out.exc or ''}", case=case)
        return
    store = os.path.abspath("store")
    shutil.copytree("books", store)
    for end in ENDS:
        if end == "http" and not {"requests", "httpx"} & set(stack):
            continue
        if end == "call" and "functions" not in stack:
            continue
        plans = [([], 0), (["-p1"], 0)]
        if len(stack) < 2:
            # 2: a handler that shows errors only
                plans += [([], 1), (["-v"], 0), (["-s"], 2), (["-L", "-f"], 0), (["-a"], 0), (["-p2"], 2)]
        for args, handler in plans:
            shutil.rmtree("books")
            shutil.copytree(store, "books")
            reset()
            os.environ["VP_A"] = "elsewhere"
            root.handlers = []
            h = None
            if handler:
                sink = io.StringIO()
                h = logging.StreamHandler(sink)
                h.setFormatter(logging.Formatter("F %(message)s"))
                h.setLevel(logging.ERROR if handler == 2 else logging.NOTSET)
                root.addHandler(h)
            w.end = end
            with inline.pool():
                out, v0, v1 = w.run(args + ["*"])
            root.handlers = []
            ctx.trace()
            ctx.step(3)
            ctx.state([kind, stack, end, args, handler])
            ctx.outcome(end)
            label = f"{kind} with {stack}, ending: {end}, {args}, handler of the process: {handler}"
            msg = None
            broke = end == "interrupt"
            if changed(v0, v1):
                k = changed(v0, v1)[0]
                msg = f"changed by the run: {changed(v0, v1)}: {world.short(v0[k])} -> {world.short(v1[k])}"
            elif not broke and out.exc:
                msg = out.exc
            else:
                stop = broke and "-p1" not in args and "-p2" not in args or "-f" in args and end not in ("pass", "late")
                ran = "a" if stop else "abc"
                if not stop and len(w.probes) != 1:
                    msg = f"the second test ran {len(w.probes)} times"
                for p in w.probes:
                    if changed(v0, p, INSIDE):
                        msg = f"the next test finds a changed {changed(v0, p, INSIDE)}"
                count = [w.log.count("setup"), w.log.count("teardown")]
                n = stack.count("setup") * (1 if stop else 2)
                if count != [n, n]:
                    msg = msg or f"set-up and tear-down ran {count} times, expected {n}"
                if handler and "-L" not in args:
                    msg = msg or check_logs(ran, out, sink.getvalue())
                elif "-L" not in args:
                    late = end == "late" and "-p1" not in args
                    msg = msg or check_logs(ran, out, "")
                if not stop and not broke and not msg:
                    rep = world.report("books")
                    if rep.get("s/b") != "OK" or rep.get("s/c") != "OK":
                        msg = f"the other tests are {rep}"
            if msg:
                reset()
                ctx.bad(f"{label}\n{msg}", case=case)
                return
    reset()


OWN = ("body", "probe", "third", "test_a", "test_b", "test_c", "gen", "say")
ALL = ["setup", "requests", "httpx", "functions", "mock", "mockenv", "env", "missing"]


def run_sigint(case, ctx):
    """ an interrupt at every executed line """
    _, kind, part, parts = case[:4]
    w = World(kind, ALL)
    reset()
    out, v0, v1 = w.run(["-S", "-a", "*"])
    shutil.copytree("books", "store")
    match = lambda c: c.co_filename.startswith(REPO + "/booktest/") or c.co_filename == __file__ and c.co_name in OWN
    with interrupt.Points(match) as p:
        w.run(["*"])
    n = p.count
    k = case[4] if len(case) > 4 else part
    while k < n + parts:
        shutil.rmtree("books")
        shutil.copytree("store", "books")
        reset()
        with interrupt.Points(match, k) as p:
            out, v0, v1 = w.run(["*"])
        ctx.trace()
        ctx.step()
        ctx.state([kind, p.where])
        ctx.outcome(out.exc_type or "ended")
        msg = None
        if changed(v0, v1):
            c = changed(v0, v1)[0]
            msg = f"changed by the run: {changed(v0, v1)}: {world.short(v0[c])} -> {world.short(v1[c])}"
        elif out.exc and out.exc_type != "KeyboardInterrupt":
            msg = out.exc
        elif w.log.count("setup") != w.log.count("teardown"):
            msg = f"set-up and tear-down: {w.log}"
        else:
            for p_ in w.probes:
                if changed(v0, p_, INSIDE):
                    msg = f"the next test finds a changed {changed(v0, p_, INSIDE)}"
        if msg:
            reset()
            ctx.bad(f"{kind}, interrupted at line event {k} ({p.where})\n{msg}", case=[*case[:4], k])
            return
        if len(case) > 4:
            break
        k += parts
    reset()


def run_half(case, ctx):
    """ one of the decorators cannot be entered: the test fails, and what had been replaced is given back """
    _, kind, stack = case
    w = World(kind, stack)
    for args in ([], ["-s"], ["-S", "-a"], ["-v"], ["-p1"]):
        shutil.rmtree("books", ignore_errors=True)
        for again in (0, 1):
            reset()
            with inline.pool():
                out, v0, v1 = w.run(args + ["*"])
            ctx.trace()
            ctx.step(3)
            ctx.state([kind, stack, args, again])
            msg = None
            if changed(v0, v1):
                msg = f"changed by the run: {[(k, world.short(v0[k]), world.short(v1[k])) for k in changed(v0, v1)]}"
            elif out.exc:
                msg = out.exc
            else:
                for p in w.probes:
                    if changed(v0, p, INSIDE):
                        msg = f"the next test finds a changed {changed(v0, p, INSIDE)}"
                rep = world.report("books")
                # capturing runs mock no missing variables, and record variables of any name
                sure = "halfnames" not in stack and ("halfmissing" not in stack or "-s" not in args and "-S" not in args)
                if rep.get("s/b") not in ("OK", "DIFF") or sure and [rep.get("s/a"), rep.get("s/c")] != ["FAIL"] * 2:
                    msg = msg or f"the verdicts are {rep}"
            if msg:
                reset()
                ctx.bad(f"{kind} with {stack}, {args}, run {again + 1}\n{msg}", case=case)
                return
    reset()
