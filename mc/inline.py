"""
A stand-in for the process pool that runs every job at once, in the thread that submits it, with the state a worker
process has of its own (value cache, standard streams, logging, environment) kept apart from the main process.
For checks that are about the results of parallel runs and not about their schedules (those use mc.sched).
"""
import contextlib
import logging
import multiprocessing
import os
import pickle
import sys
import time
import traceback

from mc import procstate


class Result:
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    def ready(self):
        return True

    def successful(self):
        return self.error is None

    def wait(self, timeout=None):
        pass

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value


class WorkerState:
    """ what a worker process has of its own """

    def __init__(self):
        self.data = procstate.fresh()
        self.handlers = []
        self.env = dict(os.environ)
        self.stdout = open(os.devnull, "w")
        self.stderr = open(os.devnull, "w")

    @contextlib.contextmanager
    def active(self):
        root = logging.getLogger()
        old = (sys.stdout, sys.stderr, root.handlers, procstate.save(), dict(os.environ))
        sys.stdout, sys.stderr, root.handlers = self.stdout, self.stderr, self.handlers
        procstate.load(self.data)
        setenv(self.env)
        try:
            yield
        finally:
            self.stdout, self.stderr, self.handlers = sys.stdout, sys.stderr, root.handlers
            self.data = procstate.save()
            self.env = dict(os.environ)
            sys.stdout, sys.stderr, root.handlers = old[:3]
            procstate.load(old[3])
            setenv(old[4])


def setenv(env):
    if dict(os.environ) != env:
        os.environ.clear()
        os.environ.update(env)


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), **_):
        n = processes or 1
        self.workers = [WorkerState() for _ in range(n)]
        self.next = 0
        self.closed = False

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        w = self.workers[self.next % len(self.workers)]
        self.next += 1
        try:
            with w.active():
                value = func(*args, **kwds)
            r = Result(pickle.loads(pickle.dumps(value)))
        except BaseException as e:
            r = Result(error=e if isinstance(e, Exception) else RuntimeError(f"the worker ended with {e!r}"))
        if r.error is None:
            if callback:
                callback(r.value)
        elif error_callback:
            error_callback(r.error)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class Context:
    Pool = Pool

    def __getattr__(self, name):
        return getattr(multiprocessing, name)


@contextlib.contextmanager
def pool():
    old = multiprocessing.get_context, multiprocessing.Pool, time.sleep
    real_sleep = time.sleep
    time.sleep = lambda x: real_sleep(min(x, 0.0002))
    multiprocessing.get_context = lambda method=None: Context()
    multiprocessing.Pool = Pool
    try:
        yield
    finally:
        multiprocessing.get_context, multiprocessing.Pool, time.sleep = old
