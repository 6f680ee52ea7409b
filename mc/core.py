"""
Driver of all checks: enumerates the cases of a check, shards them over forked workers, watches for hangs,
confirms violations in a fresh process, filters known findings and writes the evidence.

A check is a module checks/<id>.py with

  ID, TITLE            strings
  LEVEL                "model_checking"
  BOUNDS               text for the evidence
  cases(tier)          iterable of JSON-able cases, simplest first (the complete bounded space)
  run(case, ctx)       executes the case on the real code and compares with the model; reports through ctx

ctx offers dir (fresh scratch directory), bad(msg, key=None, case=None), state(x), step(n), trace(n), outcome(x).
"""
import faulthandler
import hashlib
import importlib
import itertools
import json
import mmap
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVIDENCE = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VP_JOBS") or 0) or min(8, os.cpu_count() or 1)
DEBUG = os.environ.get("VP_DEBUG")
STRIDE = int(os.environ.get("VP_STRIDE") or 1)


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """the machinery itself is wrong"""


def fp(x):
    """ 64 bit fingerprint of a JSON-able or string value """
    if not isinstance(x, (str, bytes)):
        x = json.dumps(x, sort_keys=True, default=repr)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, root, tier):
        self.root = root
        self.tier = tier
        self.n = 0
        self.dir = None
        self.reset_stats()

    def reset_stats(self):
        self.viol = []
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.extra = {}
        self.slowest = (0.0, 0)

    # -- reporting
    def bad(self, msg, key=None, case=None):
        self.viol.append({"msg": str(msg), "key": key, "case": case})

    def state(self, x):
        self.states.add(fp(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        x = str(x)
        self.outcomes[x] = self.outcomes.get(x, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- scratch
    def fresh(self):
        """ a new empty scratch directory (also the current directory) """
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = os.path.join(self.root, f"c{self.n}")
        os.mkdir(self.dir)
        os.chdir(self.dir)
        return self.dir

    def clean(self):
        os.chdir(self.root)
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def forked(self, fn, timeout=60):
        """ runs fn() in a forked child, returns ("ok", value) | ("exc", text) | ("hang", None) | ("died", status) """
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                try:
                    data = pickle.dumps(("ok", fn()))
                except BaseException:
                    data = pickle.dumps(("exc", traceback.format_exc()))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        end = time.monotonic() + timeout
        buf = b""
        hang = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                hang = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                hang = True
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
        os.close(r)
        if hang:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        if hang:
            return "hang", None
        if not buf:
            return "died", status
        return pickle.loads(buf)


class BaseState:
    """ process state that code under test could leave changed; restored after every case """

    def __init__(self):
        import logging
        self.stdout, self.stderr, self.stdin = sys.stdout, sys.stderr, sys.stdin
        self.env = dict(os.environ)
        self.handlers = list(logging.getLogger().handlers)
        self.level = logging.getLogger().level
        self.path = list(sys.path)

    def restore(self):
        import logging
        sys.stdout, sys.stderr, sys.stdin = self.stdout, self.stderr, self.stdin
        if dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        logging.getLogger().handlers = list(self.handlers)
        logging.getLogger().setLevel(self.level)
        sys.path[:] = self.path


def drop_privileges(root):
    try:
        os.chown(root, 65534, 65534)
        os.setgroups([])
        os.setresgid(65534, 65534, 65534)
        os.setresuid(65534, 65534, 65534)
    except OSError:
        pass
    os.environ["HOME"] = root
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def on_alarm(_sig, _frm):
    raise Hang()


def run_one(check, case, ctx, base, timeout):
    """ one case under a soft watchdog; exceptions of the code under test are violations """
    ctx.fresh()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        check.run(case, ctx)
    except Hang:
        ctx.bad(f"no end within {timeout} s", key="hang")
    except HarnessError:
        raise
    except BaseException:
        # of the code under test, or of the check, which met a state it didn't expect
        ctx.bad("unexpected exception\n" + traceback.format_exc(), key="exception")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        base.restore()
        ctx.clean()


def worker(check, cases, ranges, scratch, wid, out_fd, progress, tier, timeout):
    root = os.path.join(scratch, f"w{wid}")
    os.mkdir(root)
    drop_privileges(root)
    os.chdir(root)
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 0)
    ctx = Ctx(root, tier)
    base = BaseState()
    out = os.fdopen(out_fd, "wb", buffering=0)

    def send(msg):
        data = pickle.dumps(msg)
        data = struct.pack("<I", len(data)) + data
        while data:
            n = out.write(data)
            data = data[n:]

    def flush():
        send(("stats", ctx.states, ctx.transitions, ctx.traces, ctx.outcomes, ctx.extra, ctx.slowest))
        ctx.reset_stats()

    last = time.monotonic()
    try:
        for begin, end in ranges():
            for i in range(begin, end):
                progress[wid * 16:wid * 16 + 16] = struct.pack("<qd", i, time.monotonic())
                t0 = time.monotonic()
                run_one(check, cases[i], ctx, base, timeout)
                ctx.slowest = max(ctx.slowest, (time.monotonic() - t0, i))
                for v in ctx.viol:
                    send(("viol", i, v))
                ctx.viol = []
                if time.monotonic() - last > 0.5:
                    flush()
                    last = time.monotonic()
        progress[wid * 16:wid * 16 + 16] = struct.pack("<qd", -1, 0.0)
        flush()
        send(("done",))
    except BaseException:
        send(("error", traceback.format_exc()))
    out.close()
    os._exit(0)


def load_known(prop):
    """ {key: what} of the known, unrepaired findings of a property """
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                _, pr, key, what = line.rstrip("\n").split(" ", 3)
                if pr == "property=" + prop:
                    known[key[len("key="):]] = what
    return known


class Driver:
    def __init__(self, check, tier):
        self.check = check
        self.tier = tier
        self.begin = time.monotonic()
        self.known = load_known(check.ID)
        self.known_seen = {}
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.extra = {}
        self.unconfirmed = []
        self.confirmed = None
        self.slowest = (0.0, 0)
        self.timeout = float(os.environ.get("VP_CASE_TIMEOUT") or getattr(check, "CASE_TIMEOUT", 60))

    def in_child(self, scratch, name, cases):
        """ runs cases in one fresh child, returns the list of violations """
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = None
            try:
                root = os.path.join(scratch, name)
                os.mkdir(root)
                drop_privileges(root)
                os.chdir(root)
                ctx = Ctx(root, self.tier)
                base = BaseState()
                for c in cases:
                    run_one(self.check, c, ctx, base, self.timeout)
                res = ("ok", ctx.viol)
            except BaseException:
                res = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
            os._exit(0)
        os.close(w)
        buf = b""
        end = time.monotonic() + self.timeout * (len(cases) + 1) + 30
        hang = False
        while True:
            ready, _, _ = select.select([r], [], [], max(0.1, end - time.monotonic()))
            if not ready:
                hang = True
                os.kill(pid, signal.SIGKILL)
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
        os.close(r)
        os.waitpid(pid, 0)
        if hang:
            return [{"msg": "no end (killed)", "key": "hang", "case": None}]
        if not buf:
            return [{"msg": "the process died", "key": "died", "case": None}]
        kind, value = pickle.loads(buf)
        if kind == "error":
            raise HarnessError(value)
        return value

    def new_ones(self, viols):
        return [v for v in viols if v.get("key") not in self.known]

    def main(self, replay=None):
        scratch_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        scratch = tempfile.mkdtemp(prefix=f"vpmc-{self.check.ID}-", dir=scratch_base)
        os.chmod(scratch, 0o755)
        try:
            if hasattr(self.check, "prepare"):
                self.check.prepare(scratch)
            if replay:
                return self.replay(scratch, replay)
            return self.explore(scratch)
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)

    def replay(self, scratch, path):
        with open(path) as f:
            rec = json.load(f)
        v = self.in_child(scratch, "replay", rec["cases"])
        v = self.new_ones(v)
        for i in v:
            print("violated:", i["msg"])
        if v:
            print(f"VIOLATION property={self.check.ID} replay={path}")
            return 1
        print("not violated")
        return 0

    def explore(self, scratch):
        cases = list(self.check.cases(self.tier))
        if not cases:
            raise HarnessError("no cases")
        if STRIDE > 1:
            # only for tools/mutate.py: a part of the space, to see quickly whether a change is noticed
            cases = cases[STRIDE // 2::STRIDE] or cases[:1]
        n = len(cases)
        chunk = getattr(self.check, "CHUNK", None) or max(1, min(200, n // (JOBS * 20)))
        nchunks = (n + chunk - 1) // chunk
        while nchunks > 8000:
            chunk *= 2
            nchunks = (n + chunk - 1) // chunk
        qr, qw = os.pipe()
        os.write(qw, b"".join(struct.pack("<q", i) for i in range(nchunks)))
        os.close(qw)
        progress = mmap.mmap(-1, 16 * 4096)
        jobs = min(JOBS, nchunks, getattr(self.check, "MAX_JOBS", JOBS))
        procs = {}   # fd -> [pid, wid, buffer]
        next_wid = 0

        def ranges(first=None):
            def gen():
                if first is not None and first[0] < first[1]:
                    yield first
                while True:
                    b = os.read(qr, 8)
                    if len(b) < 8:
                        return
                    i = struct.unpack("<q", b)[0]
                    yield i * chunk, min(n, (i + 1) * chunk)
            return gen

        def start(first=None):
            nonlocal next_wid
            wid = next_wid
            next_wid += 1
            progress[wid * 16:wid * 16 + 16] = struct.pack("<qd", -1, 0.0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                worker(self.check, cases, ranges(first), scratch, wid, w, progress, self.tier, self.timeout)
                os._exit(0)
            os.close(w)
            procs[r] = [pid, wid, b"", False, None]

        for _ in range(jobs):
            start()

        pending = []        # unconfirmed violations (index, viol)
        stop_at = None
        ok = True
        tried = 0
        while procs and ok:
            ready, _, _ = select.select(list(procs), [], [], 0.5)
            for r in ready:
                data = os.read(r, 1 << 20)
                p = procs[r]
                if not data:
                    os.close(r)
                    del procs[r]
                    os.waitpid(p[0], 0)
                    if not p[3]:
                        # the worker died: the case it was in is the culprit
                        i, _ = struct.unpack_from("<qd", progress, p[1] * 16)
                        if i >= 0:
                            pending.append((i, {"msg": "the process running the case died", "key": "died",
                                                "case": None}))
                            start((i + 1, min(n, (i // chunk + 1) * chunk)))
                    continue
                p[2] += data
                while len(p[2]) >= 4:
                    ln = struct.unpack_from("<I", p[2])[0]
                    if len(p[2]) < 4 + ln:
                        break
                    msg = pickle.loads(p[2][4:4 + ln])
                    p[2] = p[2][4 + ln:]
                    if msg[0] == "stats":
                        self.states |= msg[1]
                        self.transitions += msg[2]
                        self.traces += msg[3]
                        for k, v in msg[4].items():
                            self.outcomes[k] = self.outcomes.get(k, 0) + v
                        for k, v in msg[5].items():
                            self.extra[k] = self.extra.get(k, 0) + v
                        self.slowest = max(self.slowest, msg[6])
                    elif msg[0] == "viol":
                        pending.append((msg[1], msg[2]))
                    elif msg[0] == "done":
                        p[3] = True
                    elif msg[0] == "error":
                        p[3] = True
                        print(msg[1], file=sys.stderr)
                        raise HarnessError("a worker failed")
            now = time.monotonic()
            for r, p in list(procs.items()):
                i, since = struct.unpack_from("<qd", progress, p[1] * 16)
                late = i >= 0 and since > 0 and now - since > self.timeout + 15
                # seen twice, as the worker may be writing
                suspect, p[4] = p[4], (i, since) if late else None
                if late and suspect == (i, since):
                    os.kill(p[0], signal.SIGKILL)
                    pending.append((i, {"msg": "no end (killed)", "key": "hang", "case": None}))
                    p[3] = True
                    progress[p[1] * 16:p[1] * 16 + 16] = struct.pack("<qd", -1, 0.0)
                    start((i + 1, min(n, (i // chunk + 1) * chunk)))
            fresh = []
            for i, v in pending:
                if v.get("key") in self.known:
                    self.known_seen.setdefault(v["key"], (i, v))
                else:
                    fresh.append((i, v))
            pending = fresh
            if pending and stop_at is None:
                stop_at = now + 1.0
            if pending and (now >= stop_at or not procs):
                pending.sort(key=lambda x: x[0])
                for i, v in pending:
                    tried += 1
                    if self.confirm(scratch, cases, chunk, i, v, tried):
                        ok = False
                        break
                    if tried >= 12:
                        break
                pending = []
                stop_at = None
                if tried >= 12:
                    break
        for r, p in procs.items():
            try:
                os.kill(p[0], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p[0], 0)
        if ok and pending:
            for i, v in pending:
                tried += 1
                if self.confirm(scratch, cases, chunk, i, v, tried):
                    break
        return self.finish(cases, n)

    def confirm(self, scratch, cases, chunk, i, v, no):
        """ a violation counts when it happens again in a fresh process """
        tries = []
        if v.get("case") is not None:
            tries.append([v["case"]])
        tries.append([cases[i]])
        if i % chunk:
            tries.append(cases[i - i % chunk:i + 1])
        for k, t in enumerate(tries):
            got = self.new_ones(self.in_child(scratch, f"confirm{no}-{k}", t))
            if got:
                self.confirmed = (t, got[0])
                return True
        self.unconfirmed.append({"case": cases[i], "msg": v["msg"][:2000]})
        return False

    def finish(self, cases, n):
        check = self.check
        os.makedirs(EVIDENCE, exist_ok=True)
        for key, (i, v) in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={check.ID} {self.known[key]}")
        rc = 0
        nviol = 0
        if self.confirmed is not None:
            t, v = self.confirmed
            nviol = 1
            rc = 1
            path = os.path.join(EVIDENCE, f"replay-{check.ID}.json")
            with open(path, "w") as f:
                json.dump({"property": check.ID, "message": v["msg"], "key": v.get("key"), "cases": t,
                           "replay_with": f"/verif/run.sh {check.ID} --replay {path}"}, f, indent=1)
            print(f"property {check.ID} ({check.TITLE}) is violated:")
            print(v["msg"][:4000])
            print("case:", json.dumps(t[-1])[:2000])
            print(f"VIOLATION property={check.ID} replay={path}")
        elif self.unconfirmed:
            # seen in the long-lived worker only: the machinery's fault or a nondeterminism it does not own
            print(f"note: {len(self.unconfirmed)} observations could not be reproduced in a fresh process")
        wall = time.monotonic() - self.begin
        idx = sorted({0, 1, n // 3, n // 2, 2 * n // 3, n - 1} & set(range(n)))
        cov = {
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": [json.loads(json.dumps(cases[i], default=repr)) for i in idx],
            "cases": n,
            "distinct_outcomes": len(self.outcomes),
            "outcomes": dict(sorted(self.outcomes.items(), key=lambda x: -x[1])[:40]),
            "bounds": check.BOUNDS if isinstance(check.BOUNDS, str) else check.BOUNDS[self.tier],
            "exhaustive": rc == 0 and not getattr(check, "CAPPED", False),
            "known_findings_observed": sorted(self.known_seen),
            "unconfirmed": self.unconfirmed[:5],
        }
        cov.update(self.extra)
        ev = {"property": check.ID, "tier": self.tier, "seed": SEED, "level": check.LEVEL, "coverage": cov,
              "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
              "wall_s": round(wall, 2), "violations": nviol}
        with open(os.path.join(EVIDENCE, f"{check.ID}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if DEBUG:
            print(f"slowest case: {self.slowest[0]:.1f} s, {json.dumps(cases[self.slowest[1]])[:200]}")
        print(f"{check.ID} {self.tier}: {n} cases, {self.traces} executions compared with the model, "
              f"{len(self.states)} states, {self.transitions} transitions, {len(self.outcomes)} outcomes, {wall:.1f} s")
        return rc


def main(argv):
    faulthandler.enable()
    # a check started in the background inherits, that it is ignored
    signal.signal(signal.SIGINT, signal.default_int_handler)
    cid = argv[0].upper()
    replay = None
    if len(argv) > 2 and argv[1] == "--replay":
        replay = argv[2]
    import booktest
    if not os.path.abspath(booktest.__file__).startswith(os.path.abspath(REPO) + "/"):
        print(f"booktest imported from {booktest.__file__}, not {REPO}", file=sys.stderr)
        return 2
    check = importlib.import_module(f"checks.{cid.lower()}")
    d = Driver(check, TIER)
    try:
        return d.main(replay)
    except HarnessError:
        traceback.print_exc()
        return 2

