"""C14: HTTP traffic is replayed exactly as it was recorded."""
import asyncio
import itertools
import json
import os
import shutil
import subprocess
import sys
import threading
import zlib

import httpx
import requests

import booktest as bt
from booktest.httpx import snapshot_httpx
from booktest.requests import snapshot_requests
from mc import http, world

ID = "C14"
TITLE = "HTTP traffic is replayed exactly as it was recorded"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "5 ways of making requests (requests with and without a session, httpx with a client, asynchronous in sequence "
             "and all at once) x all sequences of up to 2 of 22 requests (methods, bodies, headers, redirect, binary, "
             "compressed, character sets, error, empty, cookies, streamed, sent in parts, digest authentication): record with -s and with -S, replay, complete, "
             "refresh; all recorded sequences of up to 2 and current ones of up to 3 out of 4 requests x plain, -s, -S, "
             "followed by a plain run; 9 sets of options x sequences of up to 3 out of 5; every order of completion of 3 "
             "concurrent requests; all ordered pairs of 27 similar requests (some differ only after thousands of characters), recorded in one order and made in another; threads; several scopes in one test; recordings in the older form",
    "thorough": "sequences of up to 3 of 22 requests; recorded up to 3 and current up to 3 out of 5; options with sequences "
                "of up to 4; every order of completion of 4 concurrent requests"}
CASE_TIMEOUT = 300
CHUNK = 3
LIBS = ["rq", "rqs", "hx", "hxa", "hxg"]
OPS = ["a", "b", "q", "h", "p", "P", "B", "J", "d", "H", "r", "bin", "gz", "lat", "u", "json", "e", "n", "c", "s", "g", "D"]
PAIR = ["a", "h", "p", "r", "bin"]
# requests that are alike but not the same
KINDS = ["a", "g", "d", "z", "p", "P", "O", "A", "J", "B", "B2", "B3", "B4", "j1", "j2", "j3", "q", "q2", "q3", "q4", "q5", "a/", "UP", "L1", "L2", "l1", "l2"]
OPTION_OPS = ["a", "h", "i", "p", "P"]


def url_only(json_object):
    return "U" + json_object["url"].replace("/", "_")


def no_body(body, url, method):
    return "body"


OPTIONS = {
    "default": {}, "details": {"lose_request_details": False}, "list": {"ignore_headers": ["X-KEY", "user-agent"]},
    "list, details": {"ignore_headers": ["x-key"], "lose_request_details": False}, "headers": {"ignore_headers": False},
    "headers, details": {"ignore_headers": False, "lose_request_details": False},
    "other list": {"ignore_headers": ["X-Other"]},
    "hash": {"json_to_hash": url_only}, "encode": {"encode_body": no_body},
}


def key(op, option):
    """ what makes two requests identical """
    m, url, kw = http.req(op)
    kw.pop("stream", None)
    x = {k.lower(): v for k, v in (kw.pop("headers", None) or {}).items()}.get("x-key")
    if option == "hash":
        return url
    k = [m, url, repr(bool(kw) if option == "encode" else kw)]
    if option in ("headers", "headers, details", "other list"):
        k.append(x)
    return tuple(k)


def cases(tier):
    quick = tier == "quick"
    rv = []
    for lib in LIBS:
        for op in OPS:
            rv.append(["seq", lib, op, 1 if quick else 2])
    for lib in (["rqs", "hx", "hxa"] if quick else LIBS):
        for k in range(0, 3 if quick else 4):
            for s in itertools.product(PAIR[:4] if quick else PAIR, repeat=k):
                rv.append(["pair", lib, list(s), "default"])
    for option in OPTIONS:
        for lib in ("rqs", "hx"):
            for op in OPTION_OPS:
                rv.append(["option", lib, option, op, 2 if quick else 3])
    for lib in (["rqs", "hx"] if quick else LIBS[:4]):
        for op in KINDS:
            rv.append(["kinds", lib, op])
    n = 3 if quick else 4
    for s in itertools.product(["a", "b", "h"], repeat=n):
        rv.append(["gather", list(s)])
    for s in set(itertools.permutations(["r", "b", "b", "p"], n)):
        if "r" in s:
            rv.append(["gather", list(s)])
    for lib in ("rq", "rqs", "hx"):
        rv.append(["threads", lib])
        rv.append(["legacy", lib])
    for lib in ("rqs", "hx"):
        for s in SCOPES:
            rv.append(["scopes", lib, s])
    for lib in ("rq", "hx", "hxa"):
        rv.append(["real", lib])
    return rv


def deco(lib):
    return snapshot_requests if lib.startswith("rq") else snapshot_httpx


class Project:
    """ one test whose requests can be changed, and the network """

    def __init__(self, lib, options, books="books"):
        self.server = http.Server()
        self.ops, self.books, self.lib = [], books, lib
        self.got = None
        self.order = None
        self.tests = world.tests_of([("s/a", deco(lib)(**options)(self.make()))])

    def make(self):
        lib = self.lib
        if lib in ("hxa", "hxg"):
            async def test(t):
                async with http.hx_client(httpx.AsyncClient) as c:
                    if lib == "hxa":
                        for op in self.ops:
                            self.got.append(await http.ahx_call(c, op))
                    elif self.ops:
                        gate = self.server.gate = http.Gate(self.order or [])
                        async def control():
                            await gate.control(1000)
                        rv, _ = await asyncio.gather(asyncio.gather(*[http.ahx_call(c, op) for op in self.ops]), control())
                        self.got.extend(rv)
                self.write(t)
        elif lib == "rq":
            def test(t):
                for op in self.ops:
                    self.got.append(http.rq_call(requests.request, op))
                self.write(t)
        elif lib == "rqs":
            def test(t):
                with requests.Session() as s:
                    for op in self.ops:
                        self.got.append(http.rq_call(s.request, op))
                self.write(t)
        else:
            def test(t):
                with http.hx_client() as c:
                    for op in self.ops:
                        self.got.append(http.hx_call(c, op))
                self.write(t)
        return test

    def write(self, t):
        t.h1("responses")
        for g in self.got:
            t.tln(f"{zlib.crc32(json.dumps(g).encode()):08x}")

    def run(self, args, ops=None, version=None, order=None):
        """ -> verdict, what the test got, requests that went out """
        if ops is not None:
            self.ops = list(ops)
        self.order = order
        self.got = []
        self.server.reset(version)
        with http.network(self.server):
            out = world.execute(self.tests, self.books, list(args) + ["*"])
        self.server.gate = None
        if out.exc:
            return out.exc, self.got, len(self.server.calls)
        return world.report(self.books).get("s/a"), self.got, len(self.server.calls)

    def accept(self):
        world.execute(self.tests, self.books, ["-w", "-a", "*"])


def run(case, ctx):
    ctx.state(case)
    globals()["run_" + case[0]](case, ctx)


def check_history(p, ops, ctx, what, first="-s"):
    """ record, replay, complete, refresh """
    shutil.rmtree("books", ignore_errors=True)
    v1, rec, n1 = p.run([first, "-a"], ops, 1)
    hops = sum(2 if o in "rD" else 1 for o in ops)
    ctx.trace(6)
    ctx.step(6 * len(ops))
    if v1 != "OK" or len(rec) != len(ops) or n1 != hops:
        ctx.bad(f"{what}: recording with {first}: {v1}, {n1} requests instead of {hops}, got {world.short(rec)}")
        return False
    for name, args, version in (("replay", [], 2), ("completing", ["-s"], 3), ("replay in a later run", [], 4)):
        v, got, n = p.run(args, ops, version)
        ctx.outcome(f"{name} {v}")
        if v != "OK" or got != rec or n:
            ctx.bad(f"{what}: {name}: {v}, {n} real requests, got {world.short(got, 700)}, recorded {world.short(rec, 700)}")
            return False
    v, got, n = p.run(["-S"], ops, 5)
    want_changed = bool(ops)
    if n != hops or (want_changed and got == rec) or v == "FAIL":
        ctx.bad(f"{what}: refreshing: {v}, {n} requests instead of {hops}, got {world.short(got)}")
        return False
    new = got
    p.accept()
    v, got, n = p.run([], ops, 6)
    # what was refreshed counts once it is accepted
    if v != "OK" or n or got != new:
        ctx.bad(f"{what}: replay of the refreshed: {v}, {n} real requests, got {world.short(got)}, recorded {world.short(new)}")
        return False
    return True


def run_seq(case, ctx):
    _, lib, op, more = case
    p = Project(lib, {})
    for k in range(more + 1):
        for rest in itertools.product(OPS, repeat=k):
            ops = [op, *rest]
            if lib == "hxg" and ("r" in ops and sum(o in ("r", "a", "h", "s") for o in ops) > 1 or ops.count("D") > 1):
                # which of the identical requests comes first is a matter of time, see run_gather
                continue
            if not check_history(p, ops, ctx, f"{lib} {ops}", "-S" if k else "-s"):
                return


def numbered(ops, option):
    """ [(key, n)] of every single request, redirects followed, and which operation it belongs to """
    count = {}
    rv = []
    for i, o in enumerate(ops):
        for x in (["r", "a"] if o == "r" else [o]):
            k = key(x, option)
            count[k] = count.get(k, 0) + 1
            rv.append(((k, count[k]), i))
    return rv


def compare(p, rec_ops, option, ops_list, ctx, what):
    """ records rec_ops, then makes other requests in every mode """
    shutil.rmtree("books", ignore_errors=True)
    shutil.rmtree("keep", ignore_errors=True)
    v, rec, n = p.run(["-s", "-a"], rec_ops, 1)
    if v != "OK":
        ctx.bad(f"{what}: recording: {v}")
        return False
    recorded = {k for k, _ in numbered(rec_ops, option)}
    os.rename("books", "keep")
    for ops in ops_list:
        single = numbered(ops, option)
        missing = [k for k, _ in single if k not in recorded]
        for mode in ([], ["-s"], ["-S"]):
            shutil.rmtree("books", ignore_errors=True)
            shutil.copytree("keep", "books")
            before = world.snapshots("books")
            v, got, n = p.run(mode, ops, 2)
            ctx.trace()
            ctx.step(len(ops))
            ctx.outcome(f"{mode} {'missing' if missing else 'complete'} {v}")
            msg = None
            if not mode:
                if missing and (v != "FAIL" or n):
                    msg = f"a missing recording: {v}, {n} real requests"
                elif not missing and (v == "FAIL" or n):
                    msg = f"everything is recorded: {v}, {n} real requests"
            else:
                want = len(missing) if mode == ["-s"] else len(single)
                if v == "FAIL" or n != want or len(got) != len(ops):
                    msg = f"{n} real requests instead of {want}, {v}"
            if msg is None and world.snapshots("books") != before:
                msg = "the snapshot changed"
            # the responses: of version 1 where recorded, of version 2 where fetched
            if msg is None and len(got) == len(ops):
                last = dict((i, k) for k, i in single)
                for i, g in enumerate(got):
                    fresh = mode == ["-S"] or last[i] not in recorded
                    text = bytes.fromhex(g[1])
                    if ops[i] not in ("n", "H") and (b"v2 " in text) != fresh:
                        msg = f"response {i} is {text}"
            if msg is None and not missing and mode != ["-S"]:
                # the responses to the same (request, n)
                have = {}
                for (k, i) in numbered(rec_ops, option):
                    have[k] = rec[i]
                last = dict((i, k) for k, i in single)
                for i, g in enumerate(got):
                    if len(g) > 2 and len(have[last[i]]) > 2 and g[:3] != have[last[i]][:3]:
                        msg = f"response {i} is {g[:3]}, recorded {have[last[i]][:3]}"
            if msg is None and mode:
                p.accept()
                if mode == ["-s"] and not missing and len(single) < len(recorded):
                    pass
                v2, got2, n2 = p.run([], ops, 3)
                if v2 != "OK" or n2 or got2 != got:
                    msg = f"the next plain run: {v2}, {n2} real requests, {world.short(got2)} instead of {world.short(got)}"
            if msg:
                ctx.bad(f"{what}, recorded {rec_ops}, now {ops} {mode}: {msg}")
                return False
    return True


SCOPES = [["a", "b"], ["a", "p"], ["h", "q"], ["r", "b"], ["e", "a"]]


def run_scopes(case, ctx):
    """ several scopes in one test, each with requests of its own """
    _, lib, ops = case
    from booktest.requests import SnapshotRequests
    from booktest.httpx import SnapshotHttpx
    scope = SnapshotRequests if lib == "rqs" else SnapshotHttpx
    p = Project(lib, {})
    plan = []

    def test(t):
        for part in plan:
            with scope(t):
                if lib == "rqs":
                    with requests.Session() as s:
                        p.got.extend(http.rq_call(s.request, op) for op in part)
                else:
                    with http.hx_client(httpx.Client) as c:
                        p.got.extend(http.hx_call(c, op) for op in part)
        p.write(t)

    p.tests = world.tests_of([("s/a", test)])
    x, y = ops
    for plan[:] in ([[x], [y]], [[x], []], [[], [y]], [[x, x], [y]], [[x], [y, y]], [[y], [x], []], [[x], [], [y, y]]):
        if not check_history(p, [o for part in plan for o in part], ctx, f"{lib}, scopes {plan}"):
            return


def run_pair(case, ctx):
    _, lib, rec_ops, option = case
    p = Project(lib, OPTIONS[option])
    names = PAIR[:4] if ctx.tier == "quick" else PAIR
    lists = [list(s) for k in range(4) for s in itertools.product(names, repeat=k)
             if k < 3 or ctx.tier != "quick" or len(set(s)) < 3]
    compare(p, rec_ops, option, lists, ctx, lib)


def run_kinds(case, ctx):
    """ every two of the requests that are alike, now in the other order, one only, and the other one only """
    _, lib, x = case
    p = Project(lib, {})
    for y in KINDS:
        if y != x:
            for rec, lists in (([x, y], [[y, x], [y], [x, x], [y, x, y]]), ([x], [[y]])):
                if not compare(p, rec, "default", lists, ctx, lib):
                    return


def run_option(case, ctx):
    _, lib, option, op, more = case
    p = Project(lib, OPTIONS[option])
    for k in range(more + 1):
        for rest in itertools.product(OPTION_OPS, repeat=k):
            ops = [op, *rest]
            if not check_history(p, ops, ctx, f"{lib}, {option}, {ops}"):
                return
            if k < (1 if ctx.tier == "quick" else 2) and not compare(p, ops, option, [[x, *y] for x in OPTION_OPS for y in ([], [op])], ctx,
                                     f"{lib}, {option}"):
                return


def run_gather(case, ctx):
    """ every order of completion when recording, every order when completing the recording """
    ops = case[1]
    p = Project("hxg", {})
    total = sum(2 if o in "rD" else 1 for o in ops)
    seen = set()
    for order in itertools.product(*[range(min(total - i, len(ops))) for i in range(total)]):
        shutil.rmtree("books", ignore_errors=True)
        v1, rec, n1 = p.run(["-s", "-a"], ops, 1, order)
        v2, got, n2 = p.run([], ops, 2)
        ctx.trace(2)
        ctx.step(total)
        ctx.state([ops, rec])
        if v1 != "OK" or n1 != total or n2 or got != rec or v2 != "OK":
            ctx.bad(f"concurrent {ops}, completed in the order {order}: recording {v1} ({n1} requests), replay {v2} "
                    f"({n2} real requests): {world.short(got)} instead of {world.short(rec)}")
            return
        # one more: identical ones are still told apart
        if order == tuple([0] * total):
            for mode in (["-s"], ["-S"]):
                v, got, n = p.run(mode + ["-a"], ops + ["b"], 3, order)
                v2, got2, n2 = p.run([], ops + ["b"], 4)
                if v != "OK" or v2 != "OK" or n2 or n != (1 if mode == ["-s"] else total + 1) or got != got2:
                    ctx.bad(f"concurrent {ops} and another one with {mode}: {v}, {n} requests, then {v2}, {n2}")
                    return


def run_threads(case, ctx):
    """ identical and different requests from several threads: all are recorded and replayed """
    lib = case[1]
    for ops in itertools.product("ab", repeat=3):
        for meet in (False, True):
            server = http.Server()
            got = []

            def test(t):
                def work(op, i):
                    if lib == "rq":
                        r = http.rq_call(requests.request, op)
                    elif lib == "rqs":
                        with requests.Session() as s:
                            r = http.rq_call(s.request, op)
                    else:
                        with http.hx_client() as c:
                            r = http.hx_call(c, op)
                    got.append((op, r[2]))
                ts = [threading.Thread(target=work, args=(op, i)) for i, op in enumerate(ops)]
                for x in ts:
                    x.start()
                for x in ts:
                    x.join()
                t.tln(json.dumps(sorted(got)))
            tests = world.tests_of([("s/a", deco(lib)()(test))])
            shutil.rmtree("books", ignore_errors=True)
            res = []
            for args in (["-s", "-a"], []):
                got.clear()
                server.reset()
                if meet and lib == "hx":
                    # all requests are under way before the first response comes
                    bar = threading.Barrier(3)

                    def gate():
                        try:
                            bar.wait(2)
                        except threading.BrokenBarrierError:
                            pass
                    server.gate = gate
                with http.network(server):
                    out = world.execute(tests, "books", args + ["*"])
                res.append((world.report("books").get("s/a"), sorted(got), len(server.calls), out.exc))
            ctx.trace()
            ctx.step(3)
            ctx.state([lib, ops, meet])
            if res[0][0] != "OK" or res[1][0] != "OK" or res[1][2] or res[0][1] != res[1][1] or len(res[1][1]) != 3:
                ctx.bad(f"{lib}: {ops} from three threads: recording {res[0]}, replay {res[1]}")
                return


def run_legacy(case, ctx):
    """ recordings in a directory, one file each, alone and beside the newer file """
    lib = case[1]
    p = Project(lib, {})
    name = ".requests" if lib.startswith("rq") else ".httpx"
    for ops in (["a"], ["a", "a"], ["a", "p", "bin"], ["r", "b"]):
        shutil.rmtree("books", ignore_errors=True)
        v, rec, _ = p.run(["-s", "-a"], ops, 1)
        stored = json.load(open(f"books/s/a/{name}.json"))
        keys = sorted(stored)
        os.mkdir(f"books/s/a/{name}")
        for how in ("all", "half", "both"):
            for f in os.listdir(f"books/s/a/{name}"):
                os.remove(f"books/s/a/{name}/{f}")
            old = keys if how != "half" else keys[:len(keys) // 2]
            for k in old:
                entry = json.loads(json.dumps(stored[k]))
                if how == "both":
                    # the newer file counts
                    entry["response"]["statusCode"] = 299
                with open(f"books/s/a/{name}/{k}.json", "w") as f:
                    json.dump(entry, f)
            with open(f"books/s/a/{name}.json", "w") as f:
                json.dump({k: x for k, x in stored.items() if how == "both" or k not in old}, f)
            if how == "all":
                os.remove(f"books/s/a/{name}.json")
            for args in ([], ["-s"]):
                v, got, n = p.run(args, ops, 2)
                ctx.trace()
                ctx.step(len(ops))
                if v != "OK" or n or got != rec:
                    ctx.bad(f"{lib}: older recordings ({how}) of {ops}, {args}: {v}, {n} real requests, {world.short(got)}")
                    return
            v, got, n = p.run(["-S"], ops, 2)
            if v == "FAIL" or n != sum(2 if o in "rD" else 1 for o in ops) or got == rec:
                ctx.bad(f"{lib}: older recordings ({how}) of {ops}, refreshed: {v}, {n} real requests, {world.short(got)}")
                return


SERVER = """
import http.server, threading
class H(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    n = [0]
    def do_GET(self):
        H.n[0] += 1
        if self.path == "/r":
            self.send_response(302); self.send_header("Location", "/x"); self.send_header("Content-Length", "0"); self.end_headers()
            return
        body = b"\\xff" + f"{self.path} {H.n[0]}".encode()
        self.send_response(200); self.send_header("Content-Length", str(len(body))); self.send_header("X-N", str(H.n[0]))
        self.end_headers(); self.wfile.write(body)
    def log_message(self, *a): pass
"""


def run_real(case, ctx):
    """ a real server on the loopback interface, shut down for the replay """
    lib = case[1]

    def go():
        ns = {}
        exec(SERVER, ns)
        from http.server import ThreadingHTTPServer
        srv = ThreadingHTTPServer(("127.0.0.1", 0), ns["H"])
        srv.daemon_threads = True
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        base = f"http://127.0.0.1:{srv.server_port}"
        got = []
        urls = [base + x for x in ("/a", "/a", "/r", "/b")]

        if lib == "hxa":
            async def test(t):
                async with http.hx_client(httpx.AsyncClient) as c:
                    rs = await asyncio.gather(*[c.get(u) for u in urls])
                got.extend([r.status_code, r.content, r.headers["X-N"]] for r in rs)
        elif lib == "hx":
            def test(t):
                with http.hx_client() as c:
                    got.extend([r.status_code, r.content, r.headers["X-N"]] for r in [c.get(u) for u in urls])
        else:
            def test(t):
                with requests.Session() as s:
                    s.trust_env = False
                    got.extend([r.status_code, r.content, r.headers["X-N"]] for r in [s.get(u) for u in urls])
        tests = world.tests_of([("s/a", deco(lib)()(test))])
        world.execute(tests, "books", ["-s", "-a", "*"])
        first = list(got), world.report("books")
        srv.shutdown()
        srv.server_close()
        got.clear()
        out = world.execute(tests, "books", ["*"])
        return first, (list(got), world.report("books")), out.stdout
    kind, res = ctx.forked(go, 60)
    ctx.trace(2)
    ctx.step(8)
    if kind != "ok":
        ctx.bad(f"{lib}, a real server: {kind} {res}")
        return
    first, second, text = res
    if first != second or first[1] != {"s/a": "OK"} or len(first[0]) != 4:
        ctx.bad(f"{lib}, a real server: recorded {first}, replayed {second}\n{text}")
