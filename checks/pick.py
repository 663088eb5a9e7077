"""Pickle files: of the object itself, or of a call that builds it while it is unpickled (uninstrumented)."""
import io
import logging
import os
import pickle
import sys

CURRENT = [None]


def rebuild():
    return CURRENT[0]()


class Call:
    def __reduce__(self):
        return rebuild, ()


def call_pickle(thunk, proto):
    CURRENT[0] = thunk
    return pickle.dumps(Call(), protocol=proto)


def real_pickle(x, proto):
    """None if it cannot be pickled and unpickled."""
    try:
        b = pickle.dumps(x, protocol=proto)
        pickle.loads(b)
        return b
    except Exception:
        return None


def unpickle(b):
    return pickle.loads(b)


class Logs(logging.Handler):
    """What the root logger received; fresh: as a new process would have it, through stderr."""
    _sx_direct = True

    def __init__(self, fresh):
        super().__init__(0)
        self.records, self.fresh = [], fresh
        root = logging.getLogger()
        self.old = root.handlers[:], root.level, sys.stderr, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        root.handlers[:] = [] if fresh else [self]
        root.setLevel(logging.WARNING)
        self.err = sys.stderr = io.StringIO()

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def close_all(self):
        root = logging.getLogger()
        root.handlers[:], sys.stderr = self.old[0], self.old[2]
        root.setLevel(self.old[1])
        logging.disable(self.old[3])

    def warned(self):
        """Text of the warnings; None: there is none."""
        if self.fresh:
            t = self.err.getvalue()
            return t if "WARNING" in t else None
        ms = [m for lv, m in self.records if lv >= logging.WARNING]
        return "\n".join(ms) if ms else None


for _f in (rebuild, call_pickle, real_pickle, unpickle, Logs.__init__):
    _f._sx_direct = True
