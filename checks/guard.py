"""Bounded calls and process state, the same in the symbolic run and in the replay (uninstrumented)."""
import os
import sys

import numpy as np

from observe import OBS


class Hang(BaseException):
    pass


class Guard:
    """Counts the calls of functions of skops made by f; aborts above the limit."""
    _sx_direct = True

    def __init__(self):
        self.n = 0
        self.limit = 0

    def _prof(self, frame, event, arg):
        if event == "call" and "/skops/io/" in frame.f_code.co_filename:
            if frame.f_code.co_flags & 0x20 and frame.f_lasti > 12:
                return      # a generator goes on, which is no call
            self.n += 1
            if self.n > self.limit:
                sys.setprofile(None)
                raise Hang()


G = Guard()


def start(limit):
    G.n, G.limit = 0, limit
    sys.setprofile(G._prof)


def stop():
    sys.setprofile(None)
    return G.n


def state(dirs):
    st = np.random.get_state()
    return dict(cwd=os.getcwd(), env=dict(os.environ), path=list(sys.path),
                rng=(st[0], st[1].tobytes(), st[2:]), files=[sorted(os.listdir(d)) for d in dirs],
                limit=sys.getrecursionlimit(), umask=_umask())


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


def set_limit(n):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(n)
    return old


def watch_files():
    OBS.start(lambda *a: None)


def touched():
    OBS.stop()
    return [o for o in OBS.opened if not o.startswith("read")]


for _f in (set_limit, start, stop, state, diff, watch_files, touched):
    _f._sx_direct = True
