"""C25: recorded traffic does not reveal request secrets."""
import asyncio
import base64
import itertools
import json
import os
import shutil

import httpx
import requests

import booktest as bt
from booktest.httpx import snapshot_httpx
from booktest.requests import snapshot_requests
from mc import http, world

ID = "C25"
TITLE = "Recorded traffic does not reveal request secrets"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "4 ways of making requests x 6 ways of passing secrets (headers of the request and of the client, "
             "authorisation, cookies, form, JSON, bytes, several parts, a redirect) x 3 spellings of the header x 12 sets of "
             "options (details kept or not; all headers ignored, a list in 4 spellings, none ignored) x recording with -s and -S, "
             "replaying with other values of every header, the request made once, twice and three times; all changes from one set of options to another followed by a "
             "plain run, -s and -S",
    "thorough": "the same with all pairs of requests"}
CASE_TIMEOUT = 200
CHUNK = 1
LIBS = ["rq", "rqs", "hx", "hxa"]
SPELL = ["X-Secret", "x-secret", "X-SECRET"]
IGNORE = [True, False, ["X-Secret"], ["x-secret"], ["X-SECRET"], ["X-Other", "x-SeCrEt"]]
KINDS = ["get", "form", "json", "bytes", "files", "auth", "client", "cookie", "redirect"]


def cases(tier):
    rv = []
    for lib in LIBS:
        for kind in KINDS:
            rv.append(["record", lib, kind, 1 if tier == "quick" else 2])
        for i in range(len(IGNORE)):
            rv.append(["change", lib, i])
    return rv


class Silent(http.Server):
    """ does not repeat anything of the request """

    def answer(self, method, url, headers, body):
        path = url[len(http.HOST):]
        with self.lock:
            self.calls.append((method, path, body, {k.lower(): v for k, v in headers}))
        if path == "/r":
            return 302, [("Location", http.HOST + "/a")], b""
        return 200, [("Content-Type", "text/plain")], b"answer %d to %s" % (self.version, path.encode())


SECRET, PUBLIC, BODY, AUTH, COOKIE = "SECRETHEADER", "PUBLICHEADER", "SECRETBODY", "SECRETPASS", "SECRETCOOKIE"


def tokens():
    return {"secret header": SECRET, "other header": PUBLIC, "body": BODY, "authorisation": AUTH, "cookie": COOKIE}


def arguments(kind, spell, gen, lib):
    """ the request and what of the client; gen distinguishes the values of one run from those of another """
    url = http.HOST + ("/r" if kind == "redirect" else "/a")
    kw, client = {}, {}
    headers = {spell: SECRET + gen, "X-Public": PUBLIC}
    if kind == "client":
        client["headers"] = headers
    else:
        kw["headers"] = headers
    if kind == "form":
        kw["data"] = {"k": BODY}
    if kind == "json":
        kw["json"] = {"k": [BODY]}
    if kind == "bytes":
        kw["data" if lib.startswith("rq") else "content"] = b"\xff\x00" + BODY.encode()
    if kind == "files":
        kw["files"] = {"f": ("name", BODY.encode())}
        kw["headers"]["Content-Type"] = "multipart/form-data; boundary=b"
        kw["files"] = None
        kw["data" if lib.startswith("rq") else "content"] = \
            f'--b\r\nContent-Disposition: form-data; name="f"\r\n\r\n{BODY}\r\n--b--\r\n'.encode()
        del kw["files"]
    if kind == "auth":
        kw["auth"] = ("user", AUTH)
    if kind == "cookie":
        client["cookies"] = {"c": COOKIE}
    return ("GET" if kind in ("get", "auth", "client", "cookie", "redirect") else "POST"), url, kw, client


class Project:
    def __init__(self, lib):
        self.lib = lib
        self.server = Silent()
        self.requests, self.gen = [], ""

    def test(self):
        lib = self.lib

        def parts():
            for kind, spell in self.requests:
                yield arguments(kind, spell, self.gen, lib)

        if lib == "hxa":
            async def test(t):
                got = []
                for m, url, kw, client in parts():
                    async with httpx.AsyncClient(follow_redirects=True, trust_env=False, verify=http.SSL, **client) as c:
                        got.append((await c.request(m, url, **kw)).text)
                write(t, got)
        elif lib == "hx":
            def test(t):
                got = []
                for m, url, kw, client in parts():
                    with httpx.Client(follow_redirects=True, trust_env=False, verify=http.SSL, **client) as c:
                        got.append(c.request(m, url, **kw).text)
                write(t, got)
        elif lib == "rqs":
            def test(t):
                got = []
                for m, url, kw, client in parts():
                    with requests.Session() as s:
                        s.trust_env = False
                        s.headers.update(client.get("headers", {}))
                        s.cookies.update(client.get("cookies", {}))
                        got.append(s.request(m, url, **kw).text)
                write(t, got)
        else:
            def test(t):
                write(t, [requests.request(m, url, **kw, **client).text for m, url, kw, client in parts()])
        return test

    def run(self, args, options, wanted, gen, version):
        self.requests, self.gen = wanted, gen
        self.server.reset(version)
        deco = snapshot_requests if self.lib.startswith("rq") else snapshot_httpx
        tests = world.tests_of([("s/a", deco(**options)(self.test()))])
        with http.network(self.server):
            out = world.execute(tests, "books", list(args) + ["*"])
        return out.exc or world.report("books").get("s/a"), len(self.server.calls)


def write(t, got):
    t.h1("answers")
    for g in got:
        t.tln(g)


def strings(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from strings(k)
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)
    elif isinstance(x, str):
        yield x


def revealed(root):
    """ {token: file it was found in}, plain or encoded, in any file of the books directory """
    rv = {}
    for name, data in world.tree(root).items():
        texts = [data or b"", name.encode()]
        try:
            for s in strings(json.loads(data)):
                texts.append(s.encode())
                for part in s.replace(":", " ").split() + [s]:
                    try:
                        texts.append(base64.b64decode(part + "=" * (-len(part) % 4)))
                    except ValueError:
                        pass
        except (ValueError, TypeError):
            pass
        for what, token in tokens().items():
            if any(token.encode() in x for x in texts):
                rv[what] = name
    return rv


def allowed(options, wanted):
    """ what the recordings may contain, and what they have to because the test asks for it """
    kinds = {k for k, _ in wanted}
    rv = set()
    if options.get("lose_request_details", True):
        return rv
    if kinds & {"form", "json", "bytes", "files"}:
        rv.add("body")
    ignore = options.get("ignore_headers", True)
    if ignore is True:
        return rv
    rv.add("other header")
    if ignore is False:
        rv.add("secret header")
    if "auth" in kinds:
        rv.add("authorisation")
    if "cookie" in kinds:
        rv.add("cookie")
    return rv


def all_options():
    for lose in (None, True, False):
        for i in [None] + IGNORE:
            o = {}
            if lose is not None:
                o["lose_request_details"] = lose
            if i is not None:
                o["ignore_headers"] = i
            yield o


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_record(case, ctx):
    _, lib, kind, n = case
    p = Project(lib)
    others = [()] if n == 1 else [()] + [((k, s),) for k in KINDS for s in SPELL[:2]]
    for options in all_options():
        for spell in SPELL:
            again = ((kind, spell),)
            for rest in others + [again, again + again]:
                wanted = [(kind, spell), *rest]
                hops = sum(2 if k == "redirect" else 1 for k, _ in wanted)
                for first in ("-s", "-S"):
                    what = f"{lib}, {wanted}, {options}, {first}"
                    shutil.rmtree("books", ignore_errors=True)
                    v, n = p.run([first, "-a"], options, wanted, "1", 1)
                    sent = [t for t in tokens().values() if any(t in str(c) for c in p.server.calls)]
                    ctx.trace()
                    ctx.step(hops)
                    ctx.state([wanted, options, first])
                    if v != "OK" or n != hops or SECRET not in sent:
                        ctx.bad(f"{what}: recording: {v}, {n} requests", case=case)
                        return
                    found = revealed("books")
                    may = allowed(options, wanted)
                    ctx.outcome(sorted(found))
                    if set(found) != may:
                        ctx.bad(f"{what}: the recordings contain {found}, expected {sorted(may)}", case=case)
                        return
                    # replay with the same and another value of the header
                    exact = options.get("ignore_headers") is False
                    for gen in ("1", "2"):
                        for mode in ([], ["-s"]):
                            if gen == "2" and exact and mode:
                                continue
                            v, n = p.run(mode, options, wanted, gen, 2)
                            ctx.trace()
                            ctx.step(hops)
                            want = "FAIL" if gen == "2" and exact else "OK"
                            if v != want or n:
                                ctx.bad(f"{what}: replay {mode} with {'the same' if gen == '1' else 'another'} value of the "
                                        f"header: {v}, {n} real requests", case=case)
                                return
                    if set(revealed("books")) - may:
                        ctx.bad(f"{what}: after replay: the files contain {revealed('books')}", case=case)
                        return


def run_change(case, ctx):
    """ recorded with one set of options, continued with another one """
    _, lib, i = case
    p = Project(lib)
    for lose in (True, False):
        one = {"ignore_headers": IGNORE[i], "lose_request_details": lose}
        for two in all_options():
            for mode in ([], ["-s"], ["-S"]):
                shutil.rmtree("books", ignore_errors=True)
                wanted = [("form", "X-Secret"), ("get", "x-secret")]
                v, n = p.run(["-s", "-a"], one, wanted, "1", 1)
                v2, n2 = p.run(mode, two, wanted, "1", 1)
                ctx.trace(2)
                ctx.step(4)
                ctx.state([one, two, mode])
                what = f"{lib}, recorded with {one}, then {mode} with {two}"
                if v != "OK" or mode == ["-S"] and n2 != 2 or mode == [] and n2:
                    ctx.bad(f"{what}: {v}, {n}, {v2}, {n2} requests", case=case)
                    return
                same = one["ignore_headers"] == two.get("ignore_headers", True)
                if same and (v2 != "OK" or n2 and mode != ["-S"]):
                    ctx.bad(f"{what}: {v2}, {n2} real requests", case=case)
                    return
                if mode:
                    found = revealed("books/.out")
                    may = allowed(two, wanted)
                    # what was recorded without details stays so when completed
                    if set(found) - may or mode == ["-S"] and set(found) != may:
                        ctx.bad(f"{what}: the new recordings contain {found}, expected {sorted(may)}", case=case)
                        return
