"""
A controlled scheduler for parallel runs: the real code of the parallel runner (the reviewing main thread, its scheduling
thread) and the jobs it hands to its pool are executed as actors of which exactly one runs at a time, in virtual time.

  - time.sleep, locks, conditions, threads and the process pool are replaced by ones that belong to the scheduler
  - a worker process is an actor with streams, logging, environment and value cache of its own
  - what may happen is enumerated from outside: the virtual durations of the tests and of the user's answers, the delay with
    which workers start, an interrupt at a moment, and delays of an actor before any line it executes in the runner
  - a run that makes no progress any more (virtual time passes, or nothing can run) is reported as hanging
"""
import dis
import _thread
import builtins
import contextlib
import ctypes
import logging
import multiprocessing
import os
import pickle
import queue
import sys
import threading
import time

from mc import procstate

REAL_TIME, REAL_SLEEP = time.time, time.sleep
EPOCH = 1700000000.0
RUNAWAY = 20.0      # real seconds, an actor may run without giving the turn back


class Killed(BaseException):
    pass


class Stuck(Exception):
    pass


SHARED = []         # modules of which every process has its own


class Process:
    """ the state a process has of its own """

    def __init__(self, fresh):
        if fresh:
            self.state = [open(os.devnull, "w"), open(os.devnull, "w"), [], logging.getLogger().level, procstate.fresh(),
                          dict(os.environ._data), [dict(m.__dict__) for m in SHARED]]
        else:
            self.save()

    def save(self):
        root = logging.getLogger()
        self.state = [sys.stdout, sys.stderr, root.handlers, root.level, procstate.save(),
                      dict(os.environ._data), [dict(m.__dict__) for m in SHARED]]

    def load(self):
        root = logging.getLogger()
        sys.stdout, sys.stderr, root.handlers, level, data, env, mods = self.state
        procstate.load(data)
        root.setLevel(level)
        if os.environ._data != env:
            os.environ.clear()
            for k, v in env.items():
                os.environ[os.fsdecode(k)] = os.fsdecode(v)
        for m, d in zip(SHARED, mods):
            m.__dict__.clear()
            m.__dict__.update(d)


class Known:
    """ what threading knows of the thread of an actor """
    daemon, ident, native_id = True, None, None

    def __init__(self, name):
        self.name = name

    def is_alive(self):
        return True

    def join(self, timeout=None):
        pass


class Actor:
    def __init__(self, sched, name, fn, process, trace):
        self.sched, self.name, self.fn, self.process, self.trace = sched, name, fn, process, trace
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.wake = sched.now       # None: blocked until woken
        self.seq = sched.next_seq()
        self.done = False
        self.kill = False
        self.pending = None         # exception to raise when it continues
        self.error = None
        self.waiters = []
        self.lines = 0
        self.dead = False
        self.pool = None
        self.thread = None

    def start(self):
        _thread.start_new_thread(self.run, ())

    def run(self):
        self.thread = _thread.get_ident()
        self.go.acquire()
        self.sched.ids[_thread.get_ident()] = self
        threading._active[_thread.get_ident()] = Known(self.name)
        try:
            if not self.kill:
                if self.trace:
                    sys.settrace(self.trace)
                self.fn()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            threading._active.pop(_thread.get_ident(), None)
            for w in self.waiters:
                self.sched.ready(w)
            self.sched.back.release()


class Sched:
    def __init__(self, horizon=4.0, delays=(), trace_files=(), interrupt=None, worker_delay=0.0, max_steps=60000,
                 interrupt_at=None):
        """
        delays: {(actor name, line number in order): virtual seconds}; interrupt: (time, who);
        interrupt_at: (actor name, line number in order)
        """
        self.now = 0.0
        self.seq = 0
        self.actors = []
        self.ids = {}
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.current = None
        self.horizon = horizon
        self.progress_at = 0.0
        self.progress_no = 0
        self.delays = dict(delays)
        self.interrupt_at = interrupt_at
        self.leave_cache = {}
        self.points = {}            # actor: [(index, where)] of the lines worth a delay
        self.seen_lines = set()
        self.trace_files = tuple(trace_files)
        self.interrupt = interrupt
        self.interrupted = False
        self.worker_delay = worker_delay
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.log = []
        self.pools = []
        self.threads = 0
        self.code_cache = {}

    # -- bookkeeping
    def next_seq(self):
        self.seq += 1
        return self.seq

    def progress(self):
        self.progress_at = self.now
        self.progress_no += 1

    def event(self, *what):
        self.log.append((round(self.now, 5),) + what)
        self.progress()

    def me(self):
        return self.ids.get(_thread.get_ident())

    def ready(self, actor, at=None):
        if actor.wake is None or at is not None:
            actor.wake = self.now if at is None else at
            actor.seq = self.next_seq()

    # -- called by actors
    def pause(self, wake):
        """ gives the turn back until the moment wake (None: until woken) """
        me = self.me()
        me.wake = wake
        me.seq = self.next_seq()
        self.back.release()
        me.go.acquire()
        if me.kill:
            raise Killed()
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e

    def sleep(self, seconds):
        if self.me() is None:
            return REAL_SLEEP(min(seconds, 0.001))
        if self.me().kill:
            raise Killed()
        self.pause(self.now + max(0.0, seconds))

    def block(self, waiters, timeout=None):
        me = self.me()
        waiters.append(me)
        try:
            self.pause(None if timeout is None else self.now + timeout)
        finally:
            if me in waiters:
                waiters.remove(me)

    def die(self):
        """ the process of the calling worker ends at once: its job is lost, the pool starts another process """
        me = self.me()
        self.event("dies", me.name)
        me.dead = True
        me.pool.lost += 1
        me.pool.workers.append(me.pool.new_worker(len(me.pool.workers)))
        self.pause(None)

    # -- lines of the runner
    def wanted(self, code):
        v = self.code_cache.get(code)
        if v is None:
            v = self.code_cache[code] = code.co_filename in self.trace_files and not code.co_name.startswith("<") \
                and code.co_name != "__init__"
        return v

    def leaves(self, code):
        """ where with statements call __exit__: between the last line inside and the release of a lock no signal is handled """
        v = self.leave_cache.get(code)
        if v is None:
            ins = list(dis.get_instructions(code))
            v = self.leave_cache[code] = set()
            for i, x in enumerate(ins):
                j = i + (x.opname == "SWAP")
                names = [(y.opname, y.argval) for y in ins[j:j + 4]]
                if names[:3] == [("LOAD_CONST", None)] * 3 and names[3:] == [("CALL", 2)] or \
                        x.opname == "PUSH_EXC_INFO" and ins[i + 1].opname == "WITH_EXCEPT_START":
                    v.add(x.offset)
        return v

    def tracer(self, actor_name):
        def local(frame, event, arg):
            if event == "line":
                me = self.me()
                if me is None:
                    return local
                n = me.lines
                me.lines += 1
                if frame.f_lasti in self.leaves(frame.f_code):
                    return local
                key = (me.name, frame.f_code, frame.f_lineno, self.progress_no)
                if key not in self.seen_lines:
                    self.seen_lines.add(key)
                    self.points.setdefault(me.name, []).append((n, f"{frame.f_code.co_name}:{frame.f_lineno}"))
                if self.interrupt_at == (me.name, n):
                    self.event("interrupt")
                    raise KeyboardInterrupt()
                d = self.delays.get((me.name, n))
                if d is not None:
                    self.pause(self.now + d)
            return local

        def glob(frame, event, arg):
            if event == "call" and self.wanted(frame.f_code):
                return local
        return glob

    def spawn(self, name, fn, process, traced=True):
        a = Actor(self, name, fn, process, self.tracer(name) if traced and self.trace_files else None)
        self.actors.append(a)
        a.start()
        return a

    def stop(self, a):
        """ ends an actor that doesn't give the turn back """
        a.kill = True
        for _ in range(20):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(a.thread), ctypes.py_object(Killed))
            if self.back.acquire(timeout=0.5):
                return
        os._exit(13)

    # -- the loop
    def run(self, fn):
        """ runs fn() as the main thread; returns its actor """
        base = Process(False)
        main = self.spawn("main", fn, base)
        loaded = base
        why = None
        try:
            while True:
                if all(a.done or a.dead for a in self.actors):
                    break
                if self.interrupt and not self.interrupted and not main.done:
                    at = self.interrupt[0]
                    nxt = [a.wake for a in self.actors if not a.done and a.wake is not None]
                    if not nxt or min(nxt) >= at:
                        self.interrupted = True
                        self.now = max(self.now, at)
                        self.event("interrupt")
                        for a in self.actors:
                            if not a.done and (a is main or self.interrupt[1] == "all" and getattr(a, "busy", None)):
                                a.pending = KeyboardInterrupt()
                                a.wake = self.now
                        continue
                cand = [a for a in self.actors if not a.done and a.wake is not None]
                if not cand:
                    why = "deadlock: " + ", ".join(a.name for a in self.actors if not a.done and not a.name.startswith("worker"))
                    if main.done and all(a.done or a.name.startswith("worker") for a in self.actors):
                        why = None
                    break
                a = min(cand, key=lambda x: (x.wake, x.seq))
                self.now = max(self.now, a.wake)
                self.steps += 1
                if self.now - self.progress_at > self.horizon or self.steps > self.max_steps:
                    why = f"no progress for {self.now - self.progress_at:.3f} virtual seconds ({self.steps} steps)"
                    break
                if a is not self.current:
                    self.switches += 1
                    self.current = a
                if a.process is not loaded:
                    loaded.save()
                    a.process.load()
                    loaded = a.process
                a.go.release()
                if not self.back.acquire(timeout=RUNAWAY):
                    why = f"{a.name} runs on without an end"
                    self.stop(a)
                    break
        finally:
            for a in self.actors:
                while not a.done:
                    a.kill = True
                    if a.go.locked():
                        a.go.release()
                    if not self.back.acquire(timeout=RUNAWAY):
                        self.stop(a)
            if loaded is not base:
                loaded.save()
                base.load()
        if why:
            raise Stuck(why)
        return main

    @contextlib.contextmanager
    def installed(self):
        """ replaces what the parallel runner uses """
        s = self
        olds = [(time, "sleep"), (time, "time"), (threading, "Lock"), (threading, "RLock"), (threading, "_allocate_lock"),
                (threading, "Thread"), (multiprocessing, "get_context"), (multiprocessing, "Pool"), (queue, "SimpleQueue"),
                (time, "monotonic"), (time, "perf_counter"), (time, "time_ns")]
        saved = [(m, n, getattr(m, n)) for m, n in olds]
        real_lock, real_rlock = threading.Lock, threading.RLock

        class VLock:
            def __init__(self):
                self.owner = None
                self.held = False
                self.waiters = []

            def acquire(self, blocking=True, timeout=-1):
                end = None if timeout is None or timeout < 0 else s.now + timeout
                while self.held:
                    if not blocking or end is not None and s.now >= end:
                        return False
                    if s.me() is None:
                        raise RuntimeError("lock held")
                    s.block(self.waiters, None if end is None else end - s.now)
                self.held = True
                return True

            def release(self):
                if not self.held:
                    raise RuntimeError("release unlocked lock")
                self.held = False
                if self.waiters:
                    s.ready(self.waiters[0], s.now)

            def locked(self):
                return self.held

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *_):
                self.release()

            def _at_fork_reinit(self):
                self.held = False

        class VRLock(VLock):
            def __init__(self):
                super().__init__()
                self.count = 0

            def acquire(self, blocking=True, timeout=-1):
                me = _thread.get_ident()
                if self.held and self.owner == me:
                    self.count += 1
                    return True
                if super().acquire(blocking, timeout):
                    self.owner, self.count = me, 1
                    return True
                return False

            def release(self):
                self.count -= 1
                if self.count == 0:
                    self.owner = None
                    super().release()

            def _is_owned(self):
                return self.held and self.owner == _thread.get_ident()

            def _release_save(self):
                c, self.count = self.count, 1
                self.release()
                return c

            def _acquire_restore(self, c):
                self.acquire()
                self.count = c

        class VThread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                s.threads += 1
                self.name = name or f"thread{s.threads}"
                self.vname = f"thread{s.threads}"
                self.daemon = bool(daemon)
                self.actor = None

            def run(self):
                if self.target:
                    self.target(*self.args, **self.kwargs)

            def start(self):
                self.actor = s.spawn(self.vname, self.run, s.me().process)
                s.progress()

            def join(self, timeout=None):
                if self.actor is not None and not self.actor.done:
                    s.block(self.actor.waiters, timeout)
                s.progress()

            def is_alive(self):
                return self.actor is not None and not self.actor.done

        class VResult:
            def __init__(self):
                self.value = self.error = None
                self.over = False
                self.waiters = []

            def ready(self):
                return self.over

            def successful(self):
                if not self.over:
                    raise ValueError("not ready")
                return self.error is None

            def wait(self, timeout=None):
                if not self.over:
                    s.block(self.waiters, timeout)

            def get(self, timeout=None):
                self.wait(timeout)
                if not self.over:
                    raise multiprocessing.TimeoutError
                if self.error is not None:
                    raise self.error
                return self.value

            def finish(self, value=None, error=None):
                self.value, self.error, self.over = value, error, True
                for w in list(self.waiters):
                    s.ready(w, s.now)

        class VPool:
            """ as multiprocessing.Pool: the jobs start in the order they are handed in """

            def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
                self.n = processes or os.cpu_count() or 1
                if self.n < 1:
                    raise ValueError("Number of processes must be at least 1")
                self.jobs = []
                self.idle = []
                self.closed = self.terminated = False
                self.lost = 0
                self.workers = [self.new_worker(i) for i in range(self.n)]
                s.pools.append(self)

            def new_worker(self, i):
                p = Process(True)
                a = s.spawn(f"worker{i + 1}", lambda: self.work(i), p, traced=False)
                a.busy = None
                a.pool = self
                a.wake = s.now + s.worker_delay
                return a

            def work(self, i):
                me = s.me()
                s.event("up", i)
                while True:
                    while not self.jobs:
                        if self.closed:
                            return
                        s.block(self.idle)
                    func, args, kwds, result, cb, ecb = self.jobs.pop(0)
                    me.busy = True
                    s.event("start", args, i)
                    try:
                        value = pickle.loads(pickle.dumps(func(*args, **kwds)))
                    except Killed:
                        raise
                    except Exception as e:
                        s.event("end", args, i)
                        result.finish(error=e)
                        if ecb:
                            ecb(e)
                    except BaseException:
                        # the worker process ends; the pool starts another one, the job is lost
                        s.event("dies", args, i)
                        self.lost += 1
                    else:
                        s.event("end", args, i)
                        result.finish(value)
                        if cb:
                            cb(value)
                    me.busy = None

            def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
                if self.closed:
                    raise ValueError("Pool not running")
                r = VResult()
                s.event("submit", args)
                self.jobs.append((func, list(args), dict(kwds), r, callback, error_callback))
                for w in self.idle[:1]:
                    self.idle.remove(w)
                    s.ready(w, s.now)
                return r

            def apply(self, func, args=(), kwds={}):
                return self.apply_async(func, args, kwds).get()

            def starmap(self, func, iterable, chunksize=None):
                return [r.get() for r in [self.apply_async(func, a) for a in iterable]]

            def map(self, func, iterable, chunksize=None):
                return self.starmap(func, [(a,) for a in iterable])

            def imap(self, func, iterable, chunksize=1):
                return (r.get() for r in [self.apply_async(func, (a,)) for a in iterable])

            def close(self):
                self.closed = True
                for w in list(self.idle):
                    s.ready(w, s.now)

            def terminate(self):
                self.jobs.clear()
                self.terminated = True
                self.close()
                for w in self.workers:
                    if not w.done:
                        w.pending = Killed()
                        w.wake = s.now

            def join(self):
                if not self.closed:
                    raise ValueError("Pool is still running")
                for w in self.workers:
                    while not w.done and not w.dead:
                        s.block(w.waiters)
                if self.lost and not self.terminated:
                    s.block([])         # the pool waits for the results of all jobs
                s.progress()

            def __enter__(self):
                return self

            def __exit__(self, *_):
                self.terminate()

        class Context:
            Pool = VPool

            def __getattr__(self, name):
                return getattr(multiprocessing, name)
        time.sleep = s.sleep
        real_monotonic, real_perf, real_ns = time.monotonic, time.perf_counter, time.time_ns
        time.time = lambda: EPOCH + s.now if s.me() else REAL_TIME()
        time.time_ns = lambda: int((EPOCH + s.now) * 1e9) if s.me() else real_ns()

        def virtual():
            # not for the timers of asyncio, which really wait
            return s.me() and sys._getframe(2).f_globals.get("__name__", "").split(".")[0] == "booktest"
        time.monotonic = lambda: s.now if virtual() else real_monotonic()
        time.perf_counter = lambda: s.now if virtual() else real_perf()
        threading.Lock = threading._allocate_lock = VLock
        threading.RLock = VRLock
        threading.Thread = VThread
        multiprocessing.get_context = lambda method=None: Context()
        multiprocessing.Pool = VPool
        queue.SimpleQueue = queue._PySimpleQueue
        # also where the code under test has imported them by name
        new = {id(v): getattr(m, n) for m, n, v in saved}
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "booktest":
                for n, v in list(vars(m).items()):
                    if id(v) in new:
                        saved.append((m, n, v))
                        setattr(m, n, new[id(v)])
        try:
            yield self
        finally:
            for m, n, v in saved:
                setattr(m, n, v)

