"""Delivers SIGINT at the k-th executed line of chosen files, for exploring every point of interruption."""
import signal
import sys


class Points:
    """ with Points(match, k) as p: ...   k = -1 only counts; p.count lines were executed, p.where is the k-th """

    def __init__(self, match, k=-1, times=1):
        self.match, self.k, self.times = match, k, times
        self.count = 0
        self.where = None
        self.cache = {}

    def wanted(self, code):
        v = self.cache.get(code)
        if v is None:
            v = self.cache[code] = bool(self.match(code))
        return v

    def glob(self, frame, event, arg):
        if event == "call" and self.wanted(frame.f_code):
            return self.local

    def local(self, frame, event, arg):
        if event == "line":
            n = self.count
            self.count += 1
            if n == self.k:
                self.where = f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_lineno}"
                for _ in range(self.times):
                    signal.raise_signal(signal.SIGINT)
        return self.local

    def __enter__(self):
        self.old = signal.signal(signal.SIGINT, signal.default_int_handler)
        sys.settrace(self.glob)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        signal.signal(signal.SIGINT, self.old)
