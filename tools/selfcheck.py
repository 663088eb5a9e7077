"""setup_cmd: checks that the solver and the instrumentation work (nothing to build)."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symx import core, values as X  # noqa: E402

eng = core.Engine(max_time=20)
seen = set()


def fn():
    s = X.new_str("s", "ab/", 0, 3)
    n = 0
    for c in s:
        if c == "/":
            n += 1
    seen.add((len(s), n))


eng.explore(fn)
assert seen == {(a, b) for a in range(4) for b in range(a + 1)}, seen
assert eng.exhaustive and not eng.errors


# the string models agree with str on every value of a small alphabet
FUNCS = [str.lower, str.upper, str.casefold, str.swapcase, str.capitalize, str.islower, str.isupper, str.strip,
         str.isdecimal, str.isnumeric, str.isspace, str.split, str.splitlines, str.isalnum,
         lambda t: t.translate({97: None, 98: "xy", 99: 100}), lambda t: t.replace("a", "bb"),
         lambda t: t.rstrip("#a"), lambda t: t.partition("a"), lambda t: t.find("b"), lambda t: t < "b"]
for f in FUNCS:
    eng = core.Engine(max_time=20)
    bad = []

    def fn():
        s = X.new_str("s", "aB\xdf \u0301b1\x85#c", 0, 2)
        nm = getattr(f, "__name__", "")
        r = getattr(s, nm)() if hasattr(str, nm) else f(s)
        c = X.deep_realize(r)
        t = X.deep_realize(s)
        if c != f(t):
            bad.append((t, c, f(t)))

    eng.explore(fn)
    assert eng.exhaustive and not eng.errors and not bad, (f, eng.errors, bad[:3])

os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok: z3", core.z3.get_version_string())
