"""
A fake network below requests and httpx: every request that would leave the process is answered by Server and counted.
The response shows the server's version, the request and how often it was made, so that any mix-up is visible.
"""
import asyncio
import contextlib
import gzip
import http.client
import io
import ssl
import threading
import zlib

import httpx
import requests
import requests.adapters
import urllib3

HOST = "http://vp.test"
REASON = "A reason"
SSL = ssl.create_default_context()


class Server:
    def __init__(self):
        self.version = 0
        self.calls = []
        self.counts = {}
        self.lock = threading.Lock()
        self.gate = None        # asynchronous: awaited before the response is given

    def reset(self, version=None):
        self.calls = []
        self.counts = {}
        if version is not None:
            self.version = version

    def answer(self, method, url, headers, body):
        """ -> status, [(header, value)], content """
        with self.lock:
            path = url[len(HOST):] if url.startswith(HOST) else url
            x = {k.lower(): v for k, v in headers}
            ident = (method, path, body or b"", x.get("x-key", ""))
            n = self.counts[ident] = self.counts.get(ident, 0) + 1
            self.calls.append((method, path, body or b"", dict(x)))
        text = f"v{self.version} {method} {path} {body!r} key={x.get('x-key')} no {n}"
        plain = [("Content-Type", "text/plain; charset=utf-8"), ("X-Served", f"v{self.version} {path} {n}")]
        if method == "HEAD":
            return 200, plain, b""
        if path == "/r":
            return 302, [("Location", f"{HOST}/a"), ("X-Served", f"r{n}")], b""
        if path == "/bin":
            return 200, [("Content-Type", "application/octet-stream")], b"\xff\xfe\x00" + text.encode() + b"\x80\r\n\n"
        if path == "/gz":
            return 200, plain + [("Content-Encoding", "gzip")], gzip.compress(("z" * 50 + text).encode(), mtime=0)
        if path == "/lat":
            return 200, [("Content-Type", "text/plain; charset=iso-8859-1")], ("ä€é"[:1] + text).encode("latin-1") + b"\xe9"
        if path == "/u":
            return 200, [("Content-Type", "text/plain; charset=utf-8")], ("\ufeffä€ \U0001f600\u2028\r\n\t" + text).encode()
        if path == "/json":
            return 200, [("Content-Type", "application/json")], ('{"text": "ä \\u20ac %s", "n": [1, 2.5, null]}' %
                                                               text.replace('"', "'").replace("\\", "/")).encode()
        if path == "/dig":
            if not x.get("authorization", "").startswith("Digest "):
                return 401, plain + [("WWW-Authenticate", f'Digest realm="vp", nonce="n{n}", qop="auth"')], b"who? " + text.encode()
            return 200, plain, text.encode()
        if path == "/e":
            return 503, plain + [("Retry-After", "1")], text.encode()
        if path == "/n":
            return 204, [("X-Served", f"v{self.version} n{n}")], b""
        if path == "/c":
            return 200, plain + [("Set-Cookie", f"one={n}; Path=/"), ("Set-Cookie", "two=2; Path=/")], text.encode()
        return 200, plain, text.encode()


def body_bytes(body):
    if isinstance(body, str):
        return body.encode()
    return body


@contextlib.contextmanager
def network(server):
    """ everything that would go out goes to the server """

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        status, headers, content = server.answer(request.method, request.url, list(request.headers.items()),
                                                 body_bytes(request.body))
        msg = http.client.HTTPMessage()
        for k, v in headers:
            msg[k] = v

        class Original:
            def __init__(self):
                self.msg = msg

            def isclosed(self):
                return True
        raw = urllib3.HTTPResponse(body=io.BytesIO(content), headers=urllib3.HTTPHeaderDict(headers), status=status,
                                   reason=REASON, preload_content=False, decode_content=False, original_response=Original(),
                                   request_method=request.method)
        return self.build_response(request, raw)

    def make(request, body):
        status, headers, content = server.answer(request.method, str(request.url), list(request.headers.multi_items()), body)
        headers = [(k.encode(), v.encode()) for k, v in headers]
        if request.method != "HEAD" and status != 204 and str(request.url) != HOST + "/json":
            headers.append((b"content-length", str(len(content)).encode()))

        class Stream(httpx.SyncByteStream, httpx.AsyncByteStream):
            def __iter__(self):
                for i in range(0, len(content), 7):
                    yield content[i:i + 7]

            async def __aiter__(self):
                for i in range(0, len(content), 7):
                    await asyncio.sleep(0)
                    yield content[i:i + 7]
        return httpx.Response(status, headers=headers, stream=Stream(), extensions={"http_version": b"HTTP/1.1", "reason_phrase": REASON.encode()})

    def handle(self, request):
        r = make(request, request.read())
        if server.gate is not None:
            server.gate()
        return r

    async def ahandle(self, request):
        r = make(request, await request.aread())
        if server.gate is not None:
            await server.gate(request)
        else:
            await asyncio.sleep(0)
        return r

    old = requests.adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, \
        httpx.AsyncHTTPTransport.handle_async_request, requests.Session.send
    requests.adapters.HTTPAdapter.send = send
    httpx.HTTPTransport.handle_request = handle
    httpx.AsyncHTTPTransport.handle_async_request = ahandle
    try:
        yield
    finally:
        requests.adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, \
            httpx.AsyncHTTPTransport.handle_async_request, requests.Session.send = old


def req(op):
    """ one operation -> method, url, keyword arguments """
    table = {
        "a": ("GET", "/a", {}), "b": ("GET", "/b", {}), "q": ("GET", "/a?x=1", {}),
        "h": ("GET", "/a", {"headers": {"X-Key": "1"}}), "i": ("GET", "/a", {"headers": {"x-kEY": "2"}}),
        "p": ("POST", "/a", {"data": {"k": "1"}}), "P": ("POST", "/a", {"data": {"k": "2"}}),
        "B": ("POST", "/a", {"content": b"\xff\x00\n"}), "J": ("PUT", "/a", {"json": {"k": [1, "ä"]}}),
        "d": ("DELETE", "/a", {}), "H": ("HEAD", "/a", {}),
        "r": ("GET", "/r", {}), "bin": ("GET", "/bin", {}), "gz": ("GET", "/gz", {}), "lat": ("GET", "/lat", {}),
        "u": ("GET", "/u", {}), "json": ("GET", "/json", {}), "e": ("GET", "/e", {}), "n": ("GET", "/n", {}),
        "c": ("GET", "/c", {}), "s": ("GET", "/a", {"stream": True}),
        "z": ("POST", "/a", {}), "O": ("PUT", "/a", {"data": {"k": "1"}}), "A": ("PATCH", "/a", {"data": {"k": "1"}}),
        "q2": ("GET", "/a?x=2", {}), "q3": ("GET", "/a?X=1", {}), "q4": ("GET", "/a?x=1&y=2", {}),
        "q5": ("GET", "/a?y=2&x=1", {}), "a/": ("GET", "/a/", {}), "UP": ("GET", "/A", {}),
        "j1": ("POST", "/a", {"json": {"k": 1, "l": 2}}), "j2": ("POST", "/a", {"json": {"l": 2, "k": 1}}),
        "j3": ("POST", "/a", {"json": {"k": "1", "l": 2}}), "B2": ("POST", "/a", {"content": b"\xfe\x00\n"}),
        "B3": ("POST", "/a", {"content": b"\xff\x00\r\n"}), "B4": ("POST", "/a", {"content": b"k=1 "}),
        # sent in parts
        "g": ("POST", "/a", {"chunks": [b"g", b"\xff\n", b"", b"end"]}),
        # two requests
        "D": ("GET", "/dig", {"auth": True}),
        # they differ after a long common part
        "L1": ("POST", "/a", {"content": b"x" * 5000 + b"1"}), "L2": ("POST", "/a", {"content": b"x" * 5000 + b"2"}),
        "l1": ("GET", "/a?x=" + "x" * 3000 + "1", {}), "l2": ("GET", "/a?x=" + "x" * 3000 + "2", {}),
    }
    m, p, kw = table[op]
    return m, HOST + p, dict(kw)


def seen(r, httpx_=False):
    """ what a test sees of a response """
    headers = sorted((k.lower(), v) for k, v in r.headers.items())
    skip = ("content-encoding", "content-length") if httpx_ else ()
    return [r.status_code, r.content.hex(), r.text, [h for h in headers if h[0] not in skip], str(r.url),
            [h.status_code for h in r.history], sorted(r.cookies.items()) if not httpx_ else
            sorted((c.name, c.value) for c in r.cookies.jar), r.request.method, str(r.request.url),
            r.encoding, list(r.iter_lines()) if httpx_ else [x.hex() for x in r.iter_lines()], problem(r),
            r.reason_phrase if httpx_ else r.reason, r.is_redirect,
            r.is_success if httpx_ else r.ok,
            [[h.content.hex(), sorted((k.lower(), v) for k, v in h.headers.items() if k.lower() not in skip), str(h.url)]
             for h in r.history]]


def problem(r):
    """ what a test that checks the status is told """
    try:
        r.raise_for_status()
    except Exception as e:
        return f"{type(e).__name__} {e}"
    return None


def rq_call(fn, op):
    m, url, kw = req(op)
    if "content" in kw:
        kw["data"] = kw.pop("content")
    if "chunks" in kw:
        kw["data"] = b"".join(kw.pop("chunks"))
    if "auth" in kw:
        kw["auth"] = requests.auth.HTTPDigestAuth("user", "secret")
    if kw.get("stream"):
        with fn(m, url, **kw) as r:
            data = b"".join(r.iter_content(5))
            return [r.status_code, data.hex()]
    return seen(fn(m, url, allow_redirects=True, **kw))


def hx_call(client, op):
    m, url, kw = req(op)
    if "chunks" in kw:
        kw["content"] = iter(kw.pop("chunks"))
    if "auth" in kw:
        kw["auth"] = httpx.DigestAuth("user", "secret")
    if kw.pop("stream", None):
        with client.stream(m, url, **kw) as r:
            data = b"".join(r.iter_bytes(5))
            return [r.status_code, data.hex()]
    return seen(client.request(m, url, **kw), True)


async def parts(chunks):
    for c in chunks:
        await asyncio.sleep(0)
        yield c


async def ahx_call(client, op):
    m, url, kw = req(op)
    if "chunks" in kw:
        kw["content"] = parts(kw.pop("chunks"))
    if "auth" in kw:
        kw["auth"] = httpx.DigestAuth("user", "secret")
    if kw.pop("stream", None):
        async with client.stream(m, url, **kw) as r:
            data = b"".join([x async for x in r.aiter_bytes(5)])
            return [r.status_code, data.hex()]
    return seen(await client.request(m, url, **kw), True)


def hx_client(cls=httpx.Client):
    return cls(follow_redirects=True, trust_env=False, verify=SSL)


class Gate:
    """ completes concurrent requests in a chosen order """

    def __init__(self, order):
        self.order = list(order)
        self.waiting = []

    async def __call__(self, request):
        f = asyncio.get_running_loop().create_future()
        self.waiting.append(f)
        await f

    async def control(self, total):
        """ releases one waiting request after the other: the order-th of those waiting at that moment """
        done = 0
        while done < total:
            for _ in range(30):
                await asyncio.sleep(0)
            if not self.waiting:
                return
            k = self.order.pop(0) if self.order else 0
            self.waiting.pop(k % len(self.waiting)).set_result(None)
            done += 1
