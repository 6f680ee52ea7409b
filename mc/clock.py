""" a clock that a test can turn on, for all ways the code under test may read the time """
import contextlib
import sys
import time


class Clock:
    def __init__(self):
        self.offset = 0.0


@contextlib.contextmanager
def turned():
    c = Clock()
    old = [(n, getattr(time, n)) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")]

    def shifted(f, scale):
        return lambda: f() + type(f())(c.offset * scale)
    saved = [(time, n, f) for n, f in old]
    new = {}
    for n, f in old:
        g = shifted(f, 1e9 if n.endswith("_ns") else 1)
        new[id(f)] = g
        setattr(time, n, g)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "booktest":
            for n, v in list(vars(m).items()):
                if id(v) in new:
                    saved.append((m, n, v))
                    setattr(m, n, new[id(v)])
    try:
        yield c
    finally:
        for m, n, v in saved:
            setattr(m, n, v)
