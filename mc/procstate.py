"""
What booktest keeps in its modules and every process has its own: all data in module globals. A new (spawned) process begins
with what the modules have after they are imported.
"""
import copy
import sys

NAMES = []      # (module, name)
PRISTINE = []


def is_data(v):
    return v is None or isinstance(v, (dict, list, set, bool, int, float)) \
        or not isinstance(v, type) and type(v).__module__.split(".")[0] == "booktest"


def scan():
    import booktest  # noqa: F401
    for k in sorted(sys.modules):
        if k == "booktest" or k.startswith("booktest."):
            m = sys.modules[k]
            for n, v in sorted(vars(m).items()):
                if not n.startswith("__") and is_data(v):
                    try:
                        PRISTINE.append(copy.deepcopy(v))
                    except Exception:
                        continue
                    NAMES.append((m, n))


def fresh():
    return copy.deepcopy(PRISTINE)


def save():
    return [getattr(m, n, None) for m, n in NAMES]


def load(values):
    for (m, n), v in zip(NAMES, values):
        setattr(m, n, v)


scan()
