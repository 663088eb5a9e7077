"""Writes the canary modules an archive may name and gives the ledger they report to.
Executed uninstrumented in both modes."""
import importlib
import os
import sys
import tempfile

SRC = '''
import sys
def _l(*a):
    sys._sx_ledger.append(a)
_l("import", __name__)

class Danger:
    def __new__(cls, *a, **k):
        _l("new", __name__ + "." + cls.__name__)
        return object.__new__(cls)
    def __init__(self, *a, **k):
        _l("init", __name__ + "." + type(self).__name__)
    def __setstate__(self, state):
        _l("setstate", __name__ + "." + type(self).__name__)
        self.__dict__["state"] = state
    def run(self, *a, **k):
        _l("call", __name__ + ".Danger.run")
        return self
    @property
    def prop(self):
        _l("call", __name__ + ".Danger.prop")
        return self
    @classmethod
    def make(cls, *a):
        _l("call", __name__ + ".Danger.make")
        return cls
    def __hash__(self):
        return id(self)

class Plain:
    def __init__(self, *a, **k):
        _l("init", __name__ + ".Plain")
    def run(self, *a, **k):
        _l("call", __name__ + ".Plain.run")
        return self

def danger(*a, **k):
    _l("call", __name__ + ".danger")
    return {}

def danger_list(*a, **k):
    _l("call", __name__ + ".danger_list")
    return []

class Tup(tuple):
    pass

class _Danger(Danger):
    pass

class Danger2(Danger):
    pass

class danger_(Danger):
    pass

def _danger(*a, **k):
    _l("call", __name__ + "._danger")
    return {}

inst = Plain.__new__(Plain)
'''
NAMES = ("sxcan_a", "sxcan_b", "sxcan_p", "sxcan_p._sub")
_dir = []


def setup():
    if not _dir:
        d = tempfile.mkdtemp(prefix="sxcan_")
        _dir.append(d)
        os.mkdir(os.path.join(d, "sxcan_p"))
        for n in NAMES:
            with open(os.path.join(d, n.replace(".", "/") + ("/__init__.py" if n == "sxcan_p" else ".py")), "w") as f:
                f.write(SRC)
        sys.path.append(d)
        importlib.invalidate_caches()
    reset()
    return _dir[0]


def reset():
    sys._sx_ledger = []
    for n in NAMES:
        sys.modules.pop(n, None)


def ledger():
    return list(sys._sx_ledger)


def forget():
    """Empty the ledger; imported canaries stay imported."""
    sys._sx_ledger = []


def imported():
    return [n for n in NAMES if n in sys.modules]


for _f in (imported, setup, reset, ledger, forget):
    _f._sx_direct = True
