"""Helpers called without instrumentation (symbolic objects pass through untouched)."""


def dataframe(d, **kw):
    import pandas as pd
    return pd.DataFrame(d, **kw)


dataframe._sx_direct = True


def issym(x):
    """A symbolic value (never in the replay)."""
    return type(x).__name__.startswith("Sym")


issym._sx_direct = True


def stack_depth():
    """Depth of the Python stack as the recursion limit counts it."""
    import sys
    f, n = sys._getframe(1), 0
    while f:
        f, n = f.f_back, n + 1
    return n


stack_depth._sx_direct = True


def pair(a, b):
    return (id(a), id(b))


def slots(t):
    import copyreg
    return copyreg._slotnames(t) if "objcls" in t.__module__ else []


pair._sx_direct = slots._sx_direct = True


def equal(a, b):
    """Equality of nested lists of plain values; None if some are symbolic."""
    if issym(a) or issym(b):
        return None
    if type(a) is not type(b):
        return False
    if type(a) is not list:
        return a == b
    if len(a) != len(b):
        return False
    out = True
    for x, y in zip(a, b):
        r = equal(x, y)
        if r is False:
            return False
        if r is None:
            out = None
    return out


equal._sx_direct = True
