"""Classes of the objects that the harnesses persist (imported like any user module)."""
import collections
import dataclasses
import datetime
import enum
import functools

import numpy as np
import scipy.sparse as sp

NT = collections.namedtuple("NT", ["a", "b"])


class Plain:
    def __init__(self, **k):
        self.__dict__.update(k)

    def run(self, x=None):
        return x

    alias = run

    @classmethod
    def build(cls):
        return cls()


class Sub(Plain):
    pass


class GetState:
    """State under other names."""
    def __init__(self, v=None):
        self.v = v

    def __getstate__(self):
        return {"saved": self.v}

    def __setstate__(self, st):
        self.v = st["saved"]


class GetStateOnly:
    def __init__(self, v=None):
        self.v = v

    def __getstate__(self):
        return {"v": self.v}


class TupleState:
    """A state that is a tuple."""
    def __init__(self, v=None):
        self.v = v

    def __getstate__(self):
        return (self.v, "x")

    def __setstate__(self, st):
        self.v = st[0]


class AnyState:
    """A state of any type, also an empty or false one."""
    def __init__(self, v=None):
        self.v = v
        self.derived = [v]

    def __getstate__(self):
        return self.v

    def __setstate__(self, st):
        self.v = st
        self.derived = [st]


class ListState:
    """A state that is a list; what derives from it is set up again."""
    def __init__(self, *items):
        self.items = list(items)
        self.n = len(items)

    def __getstate__(self):
        return list(self.items)

    def __setstate__(self, st):
        self.items = st
        self.n = len(st)


class DictSetup:
    """Loading sets up more than the state holds."""
    def __init__(self, **k):
        self.__dict__.update(k)
        self.setup = ["done"]

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != "setup"}

    def __setstate__(self, st):
        self.__dict__.update(st)
        self.setup = ["done"]


class SetStateOnly:
    """The default state, but a method of its own to restore it."""
    def __init__(self, a=None):
        self.a = a

    def __setstate__(self, st):
        for k, v in st.items():
            setattr(self, k, v)


class Guarded:
    """Attributes are set through properties and __setattr__ in ordinary code."""
    def __init__(self, a=None):
        self.__dict__["a"] = a
        self.__dict__["log"] = []

    def __setattr__(self, k, v):
        raise AttributeError(k)


class Cached:
    def __init__(self, a=None):
        self.a = a

    @functools.cached_property
    def b(self):
        return [self.a]


class SlotsBase:
    __slots__ = ("a",)


class SlotsDerived(SlotsBase):
    __slots__ = ("b", "__weakref__")


class SlotsDict(SlotsBase):
    pass


class Mangled:
    def __init__(self, a=None):
        self.__a = a


class MangledSlots:
    __slots__ = ("__a", "b")

    def __init__(self, a=None):
        self.__a = a
        self.b = 1


class NewDefault:
    """Creating one sets attributes that its state may lack."""
    def __new__(cls, a=None):
        o = object.__new__(cls)
        o.made = [1]
        return o

    def __init__(self, a=None):
        self.a = a


class Meta(type):
    def __call__(cls, *args, **kw):
        o = super().__call__(*args, **kw)
        o.meta = True
        return o


class WithMeta(metaclass=Meta):
    def __init__(self, a=None):
        self.a = a


def some(v):
    """The state None stands for having no state."""
    return 0 if v is None else v


def unmade(o, *names):
    for n in names:
        delattr(o, n)
    return o


def putvars(o, k, v):
    vars(o)[k] = v
    return o


class SlotState:
    __slots__ = ("a", "b", "__dict__")

    def __getstate__(self):
        return dict(self.__dict__), {n: getattr(self, n) for n in ("a", "b") if hasattr(self, n)}


class Slots:
    __slots__ = ("a", "b")


class Reduce2:
    def __init__(self, *args):
        self.args = args

    def __reduce__(self):
        return (Reduce2, self.args)


class Reduce3:
    def __init__(self, a=None):
        self.a = a
        self.z = 1

    def __reduce__(self):
        return (Reduce3, (self.a,), self.__dict__)


def make_reduce(a):
    return ReduceF(a)


class ReduceF:
    def __init__(self, a=None):
        self.a = a

    def __reduce__(self):
        return (make_reduce, (self.a,))


class MInt(int):
    pass


class MStr(str):
    pass


class MFloat(float):
    pass


class MList(list):
    pass


class MDict(dict):
    pass


class MSet(set):
    pass


class MFrozen(frozenset):
    pass


class MTuple(tuple):
    pass


class MBytes(bytes):
    pass


class MDefault(collections.defaultdict):
    pass


class MPartial(functools.partial):
    pass


class MDate(datetime.date):
    pass


class MDeque(collections.deque):
    pass


class MCounter(collections.Counter):
    pass


class MNT(NT):
    pass


class SEnum(str, enum.Enum):
    a = "x"


class IEnum(enum.IntEnum):
    a = 1


class Enum(enum.Enum):
    a = 1


class MError(Exception):
    pass


class Arr(np.ndarray):
    pass


class ArrInfo(np.ndarray):
    pass


class MRandom(np.random.RandomState):
    pass


class MGen(np.random.Generator):
    pass


class MCsr(sp.csr_matrix):
    pass


class MCoo(sp.coo_array):
    pass


class Static(Plain):
    @staticmethod
    def s():
        return 1

    def __call__(self):
        return 1


class Derived(Plain):
    def run(self, x=None):
        return 2


class NewArgs:
    def __new__(cls, a):
        o = object.__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        return (self.a,)


class Dynamic:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return 5


@dataclasses.dataclass
class Data:
    a: object = 1
    b: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True)
class DataF:
    a: object = 1


@dataclasses.dataclass(slots=True, frozen=True)
class DataS:
    a: object = 1


class Raising:
    """Cannot be persisted."""
    def __getstate__(self):
        raise ValueError("no state")

    def __reduce__(self):
        raise ValueError("no state")

    __reduce_ex__ = None


class RaisingState(Plain):
    def __getstate__(self):
        raise KeyError("no state")


class RaisingReduce(Plain):
    def __reduce__(self):
        raise OSError("no reduce")


class Interrupted:
    """Taking its state raises."""
    def __init__(self, exc):
        self.exc = exc

    def __getstate__(self):
        if self.exc is UnicodeEncodeError:
            raise UnicodeEncodeError("ascii", "a", 0, 1, "no")
        raise self.exc("no state")


class BadKeys:
    def __getstate__(self):
        return {1: {(1, 2): 3}, "a": lambda: 1}


class SlotsRaising:
    __slots__ = ("a",)

    @property
    def __dict__(self):
        raise RuntimeError("no dict")


def function(x=None):
    return x


def attr(o, **k):
    for n, v in k.items():
        setattr(o, n, v)
    return o
