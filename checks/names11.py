"""The finite name tables of C11, enumerated against the installed versions (uninstrumented)."""
import functools
import importlib
import sys
import types

STD = ("builtins os posix posixpath sys subprocess shutil importlib importlib.util importlib.machinery pickle "
       "_pickle marshal ctypes ctypes.util socket _socket io _io pathlib tempfile operator _operator functools "
       "_functools types code codeop runpy collections copy copyreg json").split()
FOREIGN_ROOTS = ("numpy", "scipy", "sklearn", "joblib", "skops", "quantile_forest", "_loss")


def _mods():
    import joblib  # noqa
    import sklearn.utils
    import skops.io._trusted_types  # noqa: crawls the namespaces
    sklearn.utils.all_estimators()
    for m in STD:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    out = []
    for n, m in sorted(sys.modules.items()):
        if not isinstance(m, types.ModuleType) or ".tests" in n or ".conftest" in n:
            continue
        if n in STD or n.split(".")[0] in FOREIGN_ROOTS:
            out.append((n, m))
    return out


@functools.lru_cache(None)
def namespaces():
    """{(module, attribute): object} of everything importable in the listed namespaces."""
    out = {}
    for n, m in _mods():
        for a, o in list(vars(m).items()):
            if isinstance(a, str) and (callable(o) or isinstance(o, types.ModuleType)):
                out[(n, a)] = o
    return out


if __name__ == "__main__":
    ns = namespaces()
    print(len(ns), len({id(o) for o in ns.values()}), len(_mods()))
    import collections
    print(collections.Counter(k[0].split(".")[0] for k in ns))
    by = {}
    for k, o in ns.items():
        by.setdefault(id(o), []).append(k)
    can = [k for k, o in ns.items() if getattr(o, "__module__", None) == k[0] and getattr(o, "__name__", None) == k[1]]
    print(len(can))


HARVEST: list = []        # pairs found in the containers that the audit looks names up in


def _split(full):
    m, _, c = full.rpartition(".")
    return m, c


@functools.lru_cache(None)
def default_lists():
    """Names of every list of names that skops.io._trusted_types computes, and of types the node
    modules mention (module-level lists of strings)."""
    import skops.io._trusted_types as t
    out = set(HARVEST)
    for v in vars(t).values():
        if isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                if isinstance(x, str) and "." in x:
                    out.add(_split(x))
    return out


SYNTH = [("sklearnx", "Ridge"), ("sklearn_evil.linear_model", "Ridge"), ("numpyx", "sqrt"), ("xnumpy", "sqrt"),
         ("scipyx.special", "expit"), ("builtinsx", "int"), ("builtins", "intx"), ("builtins", "lis"),
         ("sklearn.linear_model._ridge", "RidgeX"), ("sklearn", "Ridge"), ("numpy", "Sqrt"), ("numpy", "sqrt "),
         (" numpy", "sqrt"), ("__main__", "int"), ("skops.io", "load"), ("skops.card", "Card"), ("numpy", ""),
         ("", "int"), ("os.path", "join"), ("foo", "attrgetter"), ("quantile_forest", "RandomForestQuantileRegressor"),
         ("sxcan_a", "Danger"), ("sxcan_a", "danger"), ("sxcan_b", "Danger")]


@functools.lru_cache(None)
def big():
    return tuple(sorted(set(namespaces()) | default_lists() | set(SYNTH)))


@functools.lru_cache(None)
def medium():
    """Default lists, std namespaces without dunders, synthetic names, one name of each other namespace."""
    ns = namespaces()
    out = set(default_lists()) | set(SYNTH)
    seen = set()
    std = set("builtins os subprocess shutil pickle operator functools types importlib".split())
    for (m, a), o in sorted(ns.items()):
        if m in std and not a.startswith("_"):
            out.add((m, a))
        elif not a.startswith("_") and id(o) not in seen and (hash_(m + a) % 16) == 0:
            out.add((m, a))
        seen.add(id(o))
    return tuple(sorted(out))


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


@functools.lru_cache(None)
def columns(which):
    ps = big() if which == "big" else medium()
    return ps, tuple(p[0] for p in ps), tuple(p[1] for p in ps), tuple(str(k) for k in range(len(ps)))


@functools.lru_cache(None)
def fam_set():
    """Pairs that resolve to a member of a documented family, decided on the objects."""
    import families
    ns = namespaces()
    out = set()
    for p in big():
        if p in ns:
            o = ns[p]
        elif p in default_lists():
            try:
                o = families.resolve(*p)
            except Exception:
                continue
        else:
            continue
        if families.is_family(o):
            out.add(p)
    return frozenset(out)


def in_fam(m, c):
    return (m, c) in fam_set()


def fam_like(m, c):
    """Family names that (m, c), one of them possibly symbolic, may equal."""
    out = []
    for p in sorted(fam_set()):
        if (p[0] == m if type(m) is str else len(p[0]) == len(m._ch)) and (
                p[1] == c if type(c) is str else len(p[1]) == len(c._ch)):
            out.append(p)
    return out


for _f in (fam_like, namespaces, default_lists, big, medium, columns, fam_set, in_fam, hash_):
    try:
        _f._sx_direct = True
    except Exception:
        pass
