"""Case data: every generated case is pure data that survives a JSON round trip.

``Special`` stands for Python objects that are built only when the case is run.
"""
from array import array
from collections import deque, namedtuple, UserList
from collections.abc import Sequence
from decimal import Decimal
import enum
from fractions import Fraction
import json


class Special:
    __slots__ = ("name", "args")

    def __init__(self, name, *args):
        self.name = name
        self.args = args

    def __repr__(self):
        return "<%s%s>" % (self.name, "".join(" %r" % (a,) for a in self.args))

    def __eq__(self, o):
        return isinstance(o, Special) and (self.name, self.args) == (o.name, o.args)

    def __hash__(self):
        return hash((self.name, repr(self.args)))


class MySeq(Sequence):
    """A minimal user-defined sequence."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __repr__(self):
        return "MySeq(%r)" % (self._items,)


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDecimal(Decimal):
    pass


class LyingSized:
    """Has __len__ and __getitem__ but is not registered as a Sequence."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __iter__(self):
        return iter(self._items)


class Opaque:
    def __repr__(self):
        return "Opaque()"


class BoolLike:
    def __bool__(self):
        return True

    def __eq__(self, o):
        return o is True or o == 1

    def __hash__(self):
        return 1


class IntLike:
    """Supports __index__ and __int__ only."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    def __int__(self):
        return self.v


class BytesLike:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b

    def __len__(self):
        return len(self.b)


Color = enum.IntEnum("Color", {"RED": 1, "BLUE": 2})


class Word(str, enum.Enum):
    """Texts whose str() is not their content."""

    EMPTY = ""
    X = "x"
    EURO = "\u20ac" * 15
    LONG = "word" * 20


Pair = namedtuple("Pair", "a b")

BUILD = {
    # in-domain spellings
    "rep": lambda pat, n: (pat * (n // len(pat) + 1))[:n] if n else pat[:0],
    "pow2": lambda k, d: (1 << k) + d,
    "negpow2": lambda k, d: -(1 << k) + d,
    "myint": lambda v: MyInt(v),
    "mystr": lambda v: MyStr(v),
    "mybytes": lambda v: MyBytes(v),
    "mylist": lambda *a: MyList(a),
    "mytuple": lambda *a: MyTuple(a),
    "myseq": lambda *a: MySeq(a),
    "userlist": lambda *a: UserList(a),
    "deque": lambda *a: deque(a),
    "range": lambda a, b: range(a, b),
    "intenum": lambda v: Color(v),
    "strenum": lambda v: Word[v],
    "repeat": lambda v, n: [v] * n,
    "spoilt": lambda good, n, bad: [good] * (n - 1) + [bad],
    "mydecimal": lambda v: MyDecimal(v),
    # out-of-domain objects
    "object": lambda: object(),
    "opaque": lambda: Opaque(),
    "boollike": lambda: BoolLike(),
    "intlike": lambda v: IntLike(v),
    "byteslike": lambda v: BytesLike(v),
    "lying": lambda *a: LyingSized(a),
    "gen": lambda *a: (x for x in a),
    "iter": lambda *a: iter(list(a)),
    "set": lambda *a: set(a),
    "frozenset": lambda *a: frozenset(a),
    "dict": lambda *a: {x: x for x in a},
    "dictvals": lambda *a: {i: x for i, x in enumerate(a)}.values(),
    "fraction": lambda a, b: Fraction(a, b),
    "complex": lambda a, b: complex(a, b),
    "ellipsis": lambda: ...,
    "notimpl": lambda: NotImplemented,
    "type": lambda: int,
    "func": lambda: len,
    "memoryview": lambda b: memoryview(bytes(b)),
    "array": lambda *a: array("q", a),
    "exc": lambda: ValueError("x"),
    "slice": lambda: slice(1, 2),
}


def realize(v):
    """Builds the Python value a piece of case data stands for."""
    if isinstance(v, Special):
        return BUILD[v.name](*[realize(a) for a in v.args])
    t = type(v)
    if t is list:
        return [realize(x) for x in v]
    if t is tuple:
        return tuple(realize(x) for x in v)
    if t is dict:
        return {realize(k): realize(x) for k, x in v.items()}
    if t is bytearray:
        return bytearray(v)
    return v


def to_json(v):
    if v is None or v is True or v is False:
        return v
    t = type(v)
    if t is int:
        return v if -(2**53) < v < 2**53 else {"i": hex(v)}
    if t is str:
        return v
    if t is float:
        return {"f": repr(v)}
    if t is bytes:
        return {"b": v.hex()}
    if t is bytearray:
        return {"ba": v.hex()}
    if t is Decimal:
        return {"d": str(v)}
    if t is tuple:
        return {"t": [to_json(x) for x in v]}
    if t is list:
        return [to_json(x) for x in v]
    if t is dict:
        return {"m": [[to_json(k), to_json(x)] for k, x in v.items()]}
    if t is Special:
        return {"x": v.name, "a": [to_json(x) for x in v.args]}
    if t is complex:
        return {"c": [repr(v.real), repr(v.imag)]}
    raise TypeError("case data cannot hold %r" % (t,))


def from_json(j):
    if isinstance(j, list):
        return [from_json(x) for x in j]
    if isinstance(j, dict):
        if "i" in j:
            return int(j["i"], 16)
        if "f" in j:
            return float(j["f"])
        if "b" in j:
            return bytes.fromhex(j["b"])
        if "ba" in j:
            return bytearray.fromhex(j["ba"])
        if "d" in j:
            return Decimal(j["d"])
        if "t" in j:
            return tuple(from_json(x) for x in j["t"])
        if "m" in j:
            return {from_json(k): from_json(x) for k, x in j["m"]}
        if "x" in j:
            return Special(j["x"], *[from_json(x) for x in j["a"]])
        if "c" in j:
            return complex(float(j["c"][0]), float(j["c"][1]))
    return j


def dumps(v):
    return json.dumps(to_json(v), sort_keys=False, separators=(",", ":"))


def short(v, limit=300):
    s = dumps(v)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)
