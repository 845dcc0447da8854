"""Independent model of ABI types: AST, recursive-descent parser, printer, validity.

Nothing here imports the code under test.
"""

ALIASES = {
    "int": ("int", 256),
    "uint": ("uint", 256),
    "fixed": ("fixed", (128, 18)),
    "ufixed": ("ufixed", (128, 18)),
    "function": ("bytes", 24),
    "byte": ("bytes", 1),
}
ALIAS_STR = {
    "int": "int256",
    "uint": "uint256",
    "fixed": "fixed128x18",
    "ufixed": "ufixed128x18",
    "function": "bytes24",
    "byte": "bytes1",
}


class El:
    """Elementary type as spelled: base name and suffix (None, int or pair)."""

    __slots__ = ("base", "sub")
    kind = "el"

    def __init__(self, base, sub=None):
        self.base = base
        self.sub = sub

    def __str__(self):
        if self.sub is None:
            return self.base
        if isinstance(self.sub, tuple):
            return "%s%dx%d" % (self.base, self.sub[0], self.sub[1])
        return "%s%d" % (self.base, self.sub)

    @property
    def canon(self):
        """(base, sub) with aliases resolved."""
        if self.sub is None and self.base in ALIASES:
            return ALIASES[self.base]
        return (self.base, self.sub)


class Arr:
    __slots__ = ("item", "size")
    kind = "arr"

    def __init__(self, item, size=None):
        self.item = item
        self.size = size

    def __str__(self):
        return "%s[%s]" % (self.item, "" if self.size is None else self.size)


class Tup:
    __slots__ = ("items",)
    kind = "tup"

    def __init__(self, items):
        self.items = tuple(items)

    def __str__(self):
        return "(%s)" % ",".join(map(str, self.items))


class Bad(Exception):
    """Not a string of the type grammar."""


LETTERS = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
NONZERO = frozenset("123456789")
DIGITS = frozenset("0123456789")


def parse(s):
    """Recursive-descent parser (explicit stack free; depth bounded by callers)."""
    t, pos = _type(s, 0)
    if pos != len(s):
        raise Bad("trailing text at %d" % pos)
    return t


def _number(s, i):
    if i >= len(s) or s[i] not in NONZERO:
        raise Bad("number expected at %d" % i)
    j = i + 1
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return int(s[i:j]), j


def _type(s, i):
    if i < len(s) and s[i] == "(":
        items = []
        t, i = _type(s, i + 1)
        items.append(t)
        while i < len(s) and s[i] == ",":
            t, i = _type(s, i + 1)
            items.append(t)
        if i >= len(s) or s[i] != ")":
            raise Bad("')' expected at %d" % i)
        t, i = Tup(items), i + 1
    else:
        j = i
        while j < len(s) and s[j] in LETTERS:
            j += 1
        if j == i:
            raise Bad("name expected at %d" % i)
        base, i, sub = s[i:j], j, None
        if i < len(s) and s[i] in NONZERO:
            sub, i = _number(s, i)
            if i + 1 < len(s) and s[i] == "x" and s[i + 1] in NONZERO:
                second, i = _number(s, i + 1)
                sub = (sub, second)
        t = El(base, sub)
    while i < len(s) and s[i] == "[":
        if i + 1 < len(s) and s[i + 1] == "]":
            t, i = Arr(t, None), i + 2
        else:
            n, i = _number(s, i + 1)
            if i >= len(s) or s[i] != "]":
                raise Bad("']' expected at %d" % i)
            t, i = Arr(t, n), i + 1
    return t, i


def canonical(t):
    """Same type with aliases replaced."""
    if t.kind == "el":
        return El(*t.canon)
    if t.kind == "arr":
        return Arr(canonical(t.item), t.size)
    return Tup([canonical(c) for c in t.items])


def el_valid(base, sub):
    """Validity of a canonical elementary type in the ABI specification."""
    if base in ("address", "bool", "string"):
        return sub is None
    if base == "bytes":
        return sub is None or (isinstance(sub, int) and 1 <= sub <= 32)
    if base in ("int", "uint"):
        return isinstance(sub, int) and 8 <= sub <= 256 and sub % 8 == 0
    if base in ("fixed", "ufixed"):
        return (
            isinstance(sub, tuple)
            and 8 <= sub[0] <= 256
            and sub[0] % 8 == 0
            and 1 <= sub[1] <= 80
        )
    return False


def valid(t):
    if t.kind == "el":
        return el_valid(*t.canon)
    if t.kind == "arr":
        return valid(t.item)
    return all(valid(c) for c in t.items)


def dynamic(t):
    if t.kind == "el":
        base, sub = t.canon
        return base == "string" or (base == "bytes" and sub is None)
    if t.kind == "arr":
        return t.size is None or dynamic(t.item)
    return any(dynamic(c) for c in t.items)


def depth(t):
    if t.kind == "el":
        return 0
    if t.kind == "arr":
        return 1 + depth(t.item)
    return 1 + max(depth(c) for c in t.items)


def leaves(t):
    if t.kind == "el":
        yield t
    elif t.kind == "arr":
        yield from leaves(t.item)
    else:
        for c in t.items:
            yield from leaves(c)


def static_words(t):
    """Number of words of a static type."""
    if t.kind == "el":
        return 1
    if t.kind == "arr":
        return t.size * static_words(t.item)
    return sum(static_words(c) for c in t.items)


def head_words(t):
    return 1 if dynamic(t) else static_words(t)


_cache = {}


def P(s):
    """Cached parse of a valid type string."""
    t = _cache.get(s)
    if t is None:
        t = _cache[s] = parse(s)
        if len(_cache) > 50000:
            _cache.clear()
    return t


ALL_INT = ["%s%d" % (b, m) for b in ("int", "uint") for m in range(8, 257, 8)]
ALL_BYTES = ["bytes%d" % m for m in range(1, 33)]
ALL_FIXED = [
    "%s%dx%d" % (b, m, n)
    for b in ("fixed", "ufixed")
    for m in range(8, 257, 8)
    for n in range(1, 81)
]
OTHER = ["address", "bool", "bytes", "string"]
ALIAS_NAMES = list(ALIASES)
