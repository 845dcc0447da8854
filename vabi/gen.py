"""Generators for types, values, junk and payloads (pure case data); see vabi.src."""
from decimal import Decimal

from . import ref
from .abit import (
    ALL_BYTES,
    ALL_FIXED,
    ALL_INT,
    P,
    dynamic,
    static_words,
)
from .data import Special, realize
from .src import Bin, Ints, Lists, OneOf, Sampled, composite

_ints = {}


def I(a, b):
    """Cached integers(a, b)."""
    k = (a, b)
    if k not in _ints:
        _ints[k] = Ints(a, b)
    return _ints[k]


_samp = {}


def S(seq):
    """Cached sampled_from for module-level lists (by identity)."""
    k = id(seq)
    if k not in _samp:
        _samp[k] = (Sampled(seq), seq)
    return _samp[k][0]


def pick(draw, seq):
    """One element of a list built on the fly, with a cached integer strategy."""
    return seq[draw(I(0, len(seq) - 1))]


COMMON_EL = [
    "uint256", "int256", "uint8", "int8", "bool", "address", "bytes", "string",
    "bytes32", "bytes1", "uint128", "int64", "bytes31", "fixed128x18", "ufixed128x18",
]
DYN_EL = ["bytes", "string"]
FIXED_EL = [
    "fixed8x1", "ufixed8x1", "fixed8x80", "ufixed8x80", "fixed256x1", "ufixed256x80",
    "fixed256x80", "ufixed256x18", "fixed128x19", "ufixed64x10", "fixed16x2",
]
ALIAS_EL = ["uint", "int", "fixed", "ufixed", "function", "byte"]
EL_POOL = COMMON_EL * 10 + DYN_EL * 60 + ALL_INT * 2 + ALL_BYTES * 3 + FIXED_EL * 5 + ALL_FIXED[::37]
EL_POOL_ALIAS = EL_POOL + ALIAS_EL * 12
DIMS = [None, 1, 2, None, 3, 4, None, 5]
ARITY = [1, 2, 2, 3, 3, 4]


@composite
def type_str(draw, depth=3, alias=True, only=None, min_depth=0, words=24):
    """A valid type string.  ``words`` bounds the static size of what is built so that
    values stay generatable."""
    pool = only if only is not None else (EL_POOL_ALIAS if alias else EL_POOL)
    el = S(pool)

    def build(d, mind, words):
        # 0..3 -> element, 4..6 -> array, 7..9 -> tuple
        k = draw(I(4 if mind > 0 else 0, 9)) if d > 0 else 0
        if k <= 3:
            return draw(el)
        if k <= 6:
            item = build(d - 1, mind - 1, words)
            t = P(item)
            size = draw(S(DIMS))
            if size is not None and not dynamic(t) and static_words(t) * size > words:
                size = 1
            return "%s[%s]" % (item, "" if size is None else size)
        n = draw(S(ARITY))
        return "(%s)" % ",".join(
            build(d - 1, mind - 1, max(1, words // n)) for _ in range(n)
        )

    return build(depth, min_depth, words)


def type_list(max_len=3, min_len=0, **kw):
    return Lists(type_str(**kw), min_len, max_len)


# ------------------------------------------------------------------ values

SIZES = [0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97]
BIG_SIZES = [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]
TEXT_ATOMS = [
    "a", "\x00", "\x7f", "\x80", "\u00ff", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000", "\ufeff",
    "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", " ", "\n", "\u0301",
]
BYTE_ATOMS = [b"\x00", b"\xff", b"\x80", b"\x7f", b"\x01", b"ab", b"\x00\xff", b"\x80\x00"]


def _cp(k):
    return chr(k if k < 0xD800 else k + 0x800)


# text without surrogates
TEXT = Lists(
    OneOf(Sampled(TEXT_ATOMS), Ints(0, 0x10FFFF - 0x800).map(_cp)), 0, 12
).map("".join)
BIN8 = Bin(0, 8)
BIN70 = Bin(0, 70)
_binn = {}


def BIN(a, b):
    if (a, b) not in _binn:
        _binn[(a, b)] = Bin(a, b)
    return _binn[(a, b)]


def interesting_ints(lo, hi):
    vals = {lo, hi, lo + 1, hi - 1, 0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 10, 100}
    k = 1
    while (1 << k) <= hi + 1:
        vals.update(((1 << k) - 1, 1 << k, -(1 << k)))
        k += 7 if k > 16 else 1
    vals.update((hi // 2, hi // 2 + 1, hi // 255 * 128, hi // 3))
    return sorted((v for v in vals if lo <= v <= hi), key=lambda v: (abs(v), v < 0))


_ii_cache = {}


def draw_int(draw, lo, hi):
    key = (lo, hi)
    pool = _ii_cache.get(key)
    if pool is None:
        pool = _ii_cache[key] = interesting_ints(lo, hi)
    n = len(pool)
    i = draw(I(0, 2 * n - 1))
    return pool[i] if i < n else draw(I(lo, hi))


def dec(k, n, style=0):
    """Data for the decimal k*10**-n in one of several spellings."""
    d = ref.unscale(k, n)
    if style == 1:  # strip trailing zeros: 1.50 -> 1.5, 100 -> 1E+2
        sign, digits, exp = d.as_tuple()
        digits = list(digits)
        while len(digits) > 1 and digits[-1] == 0:
            digits.pop()
            exp += 1
        if digits == [0]:
            exp = 0
        return Decimal((sign, tuple(digits), exp))
    if style == 2:  # extra trailing zeros
        sign, digits, exp = d.as_tuple()
        return Decimal((sign, tuple(digits) + (0,) * 7, exp - 7))
    if style == 3 and k % 10**n == 0:
        return k // 10**n
    if style == 4 and k == 0:
        return Decimal("-0.0")
    return d


def _blob_pool(atoms, sizes):
    return [Special("rep", a, n) for n in sizes for a in atoms]


TEXT_POOL = _blob_pool(TEXT_ATOMS, SIZES)
TEXT_BIG = _blob_pool(TEXT_ATOMS[:3] + TEXT_ATOMS[7:8], BIG_SIZES)
BYTES_POOL = _blob_pool(BYTE_ATOMS, SIZES)
BYTES_BIG = _blob_pool(BYTE_ATOMS[:2], BIG_SIZES)


def draw_blob(draw, big, text):
    mode = draw(I(0, 9 if big else 7))
    if text:
        if mode <= 3:
            return draw(TEXT)
        return draw(S(TEXT_POOL if mode <= 8 else TEXT_BIG))
    if mode <= 2:
        return draw(BIN8)
    if mode <= 4:
        return draw(BIN70)
    return draw(S(BYTES_POOL if mode <= 8 else BYTES_BIG))


ADDR_POOL = [
    "00" * 20, "ff" * 20, "00" * 19 + "01", "80" + "00" * 19,
    "d3cda913deb6f67967b99d67acdfa1712c293601", "0123456789abcdefABCDEF0123456789abcdefAB",
]


def addr_hex(draw):
    i = draw(I(0, 11))
    if i < len(ADDR_POOL):
        return ADDR_POOL[i]
    return draw(BIN(20, 20)).hex()


def draw_el(draw, t, forms=True, big=True):
    base, sub = t.canon
    if base in ("int", "uint"):
        lo, hi = ref.int_bounds(base == "int", sub)
        v = draw_int(draw, lo, hi)
        if forms:
            f = draw(I(0, 19))
            if f == 19:
                return Special("myint", v)
            if f == 18:
                return Special("intenum", 1)
        return v
    if base == "bool":
        return draw(I(0, 1)) == 1
    if base == "address":
        h = addr_hex(draw)
        f = draw(I(0, 7)) if forms else 0
        if f == 1:
            return bytes.fromhex(h)
        if f == 2:
            return bytearray.fromhex(h)
        if f == 3:
            return h
        if f == 4:
            return "0X" + h.upper()
        if f == 5:
            return "0x" + h.upper()
        if f == 6:
            return "0x" + "".join(c.upper() if i % 3 else c for i, c in enumerate(h))
        if f == 7:
            return "0x" + h.swapcase()
        return "0x" + h.lower()
    if base == "bytes" and sub is not None:
        mode = draw(I(0, 7))
        if mode <= 1:
            v = draw(BIN(sub, sub))
        elif mode <= 3:
            v = draw(BIN(0, sub))
        elif mode <= 5:
            v = (draw(S(BYTE_ATOMS)) * 32)[: [0, sub - 1, sub][draw(I(0, 2))]]
        else:
            v = draw(S(BYTE_ATOMS))[:sub].ljust(sub, b"\x00")
        return bytearray(v) if forms and mode % 2 else v
    if base == "bytes":
        v = draw_blob(draw, big, False)
        if forms and draw(I(0, 5)) == 5:
            r = realize(v)
            if len(r) <= 256:
                return bytearray(r)
        return v
    if base == "string":
        if forms:
            f = draw(I(0, 23))
            if f == 23:
                return Special("mystr", draw(TEXT))
            if f == 22:
                return draw(S(WORDS))
        return draw_blob(draw, big, True)
    m, n = sub
    lo, hi = ref.int_bounds(base == "fixed", m)
    k = draw_int(draw, lo, hi)
    return dec(k, n, draw(I(0, 4)) if forms else 0)


WORDS = [Special("strenum", w) for w in ("EMPTY", "X", "EURO", "LONG")]
DYN_LENS = [0, 1, 1, 2, 2, 3, 4, 7]
LONG_LENS = [7, 8, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257]
SEQ_FORMS = ["list", "tuple", "list", "tuple", "list", "tuple", "myseq", "deque", "mylist", "mytuple", "userlist"]


def draw_value(draw, t, forms=True, big=True, budget=None):
    """In-domain value of t as case data."""
    if budget is None:
        budget = [40]
    if t.kind == "el":
        budget[0] -= 1
        return draw_el(draw, t, forms, big and budget[0] > 20)
    if t.kind == "tup":
        items = [draw_value(draw, c, forms, big, budget) for c in t.items]
    else:
        if t.size is not None:
            n = t.size
        elif budget[0] <= 0:
            n = 0
        else:
            n = draw(S(DYN_LENS))
            budget[0] -= n
            if n == 7 and budget[0] > 0 and big:
                # repeat one item many times: long arrays without long cases
                n = draw(S(LONG_LENS))
                item = draw_value(draw, t.item, forms, False, [2])
                other = draw_value(draw, t.item, forms, False, [2])
                if n > 100 and t.item.kind != "el":
                    n = 33
                vals = [item] * n
                vals[[0, n - 1, n // 2][draw(I(0, 2))]] = other
                return vals
        if n > 1 and budget[0] < 0:
            items = [draw_value(draw, t.item, forms, big, budget)] * n
        else:
            items = [draw_value(draw, t.item, forms, big, budget) for _ in range(n)]
    if not forms:
        return items
    f = draw(S(SEQ_FORMS))
    if f == "list":
        return items
    if f == "tuple":
        return tuple(items)
    return Special(f, *items)


@composite
def value_for(draw, t, forms=True, big=True):
    return draw_value(draw, P(t) if isinstance(t, str) else t, forms, big)


@composite
def typed_args(draw, max_len=3, min_len=1, forms=True, big=True, budget=30, **kw):
    """(types, values) with values in the domain."""
    types = draw(type_list(max_len=max_len, min_len=min_len, **kw))
    budget = [budget]
    vals = [draw_value(draw, P(t), forms, big, budget) for t in types]
    return (types, vals)


# ------------------------------------------------------------------ junk

JUNK = [
    None, True, False, 0, 1, -1, 0.0, 1.0, float("nan"), float("inf"), -0.0,
    1j, "", "a", "0x", "0x00", "1", b"", b"a", bytearray(b"xy"), [], (), [1], (1,), [[]],
    ["a"], [b"a"], [None], Decimal(0), Decimal("0.5"), Decimal("NaN"), Decimal("sNaN"),
    Decimal("Infinity"), Decimal("-Infinity"), Decimal("-0"), Decimal("1E+500"),
    Decimal("1E-500"), Decimal("1E+999999"), Decimal("1E-999999"), Decimal("-1E-3"),
    {}, {"a": 1}, Special("object"), Special("opaque"), Special("boollike"),
    Special("intlike", 5), Special("byteslike", b"abc"), Special("lying", 1, 2),
    Special("gen", 1), Special("iter", 1), Special("set", 1), Special("frozenset", 1),
    Special("dict", 1), Special("dictvals", 1), Special("fraction", 1, 2), Special("fraction", 2, 1),
    Special("complex", 1.0, 0.0), Special("ellipsis"), Special("notimpl"), Special("type"),
    Special("func"), Special("memoryview", b"ab"), Special("array", 1, 2), Special("exc"),
    Special("slice"), Special("range", 0, 2), Special("myint", 7), Special("mystr", "x"), Special("strenum", "X"), Special("strenum", "LONG"),
    Special("mybytes", b"x"), Special("intenum", 1), Special("mydecimal", "1.5"), Special("mydecimal", "NaN"),
    2**255, 2**256, 2**256 - 1, -(2**255), -(2**255) - 1, Special("pow2", 20000, 0), Special("negpow2", 20000, 0),
    "\ud800", "a\udfffb", "0x" + "0" * 40, "0x" + "g" * 40, "0x" + "0" * 39, "0x" + "0" * 41,
    "0" * 40, "0x" + "A" * 40, "00" + "0" * 40, " 0x" + "0" * 40, "0x" + "0" * 40 + "\n",
    "0x" + "\u0660" * 40, "\uff10" * 40, "-x" + "0" * 40, "0x+" + "0" * 39,
    b"\x00" * 19, b"\x00" * 20, b"\x00" * 21, b"\x00" * 32, b"\x00" * 33, bytearray(20), bytearray(33),
    b"0x" + b"0" * 40, Special("memoryview", bytes(20)),
]

RESIDUE_EXTRA = [1, 2, 10, 60, 100, 900, 999, 1000, 2000]
RESIDUES = [1, 5, 9, -1, -5]
NEAR_STR = ["\ud800", "\udc00\ud800", "abc\udfff", b"abc", bytearray(b"x"), "ok", "\U0010ffff", "", ["a"], None]
NEAR_BOOL = [0, 1, "True", "true", b"\x01", None, 1.0, Special("boollike"), True, False, Special("myint", 1), Decimal(1)]
NEAR_BYTES = ["abc", "0xab", [1, 2], Special("memoryview", b"a"), b"", bytearray(b"q"), None, 0]


def near_list(t, h="d3cda913deb6f67967b99d67acdfa1712c293601"):
    """Values at, or just outside, the boundary of an elementary type."""
    base, sub = t.canon
    if base in ("int", "uint"):
        lo, hi = ref.int_bounds(base == "int", sub)
        return [
            lo - 1, hi + 1, lo, hi, -1, -(hi + 1), 2 * hi + 1, 2 * hi + 2, hi + 2, lo - 2,
            2**256, 2**256 + 1, -(2**256), 2**255, -(2**255), -(2**255) - 1, lo + 2**sub, hi - 2**sub,
            hi << 8, (hi + 1) * 256, 2**sub + 1, 2**512,
        ]
    if base in ("fixed", "ufixed"):
        m, n = sub
        lo, hi = ref.int_bounds(base == "fixed", m)
        ks = [lo - 1, hi + 1, lo, hi, lo + 1, hi - 1, 0, -1, 1, 2 * hi + 2]
        out = [dec(k, n, i % 4) for i, k in enumerate(ks)] + [hi, hi + 1, lo - 1, 1]
        for i, k in enumerate(ks):
            for j in range(3):
                extra = RESIDUE_EXTRA[(i + 3 * j) % len(RESIDUE_EXTRA)]
                out.append(dec(k * 10**extra + RESIDUES[(i + j) % len(RESIDUES)], n + extra))
        return out
    if base == "bytes" and sub is not None:
        out = []
        for n in (sub + 1, sub, sub - 1, sub + 2, 2 * sub, 32, 33, 64, 0):
            out += [b"\x00" * n, b"\xff" * n, bytearray(b"\x01" * n)]
        return out
    if base == "address":
        return [
            "0x" + h, h, "0x" + h[:-1], "0x" + h + "0", "0x" + h[:-1] + "g", h[:38], "0x0x" + h[:36],
            bytes.fromhex(h), bytes.fromhex(h)[:19], bytes.fromhex(h) + b"\0", bytes.fromhex(h).rjust(32, b"\0"),
            int(h, 16), h.encode(), ("0x" + h).encode(), "0x" + h + "\n", " 0x" + h, "1x" + h, "0x" + h[:-1] + " ",
            "0x_" + h[:39], "0x" + h[:39] + "\u0661", "0x" + h.upper(), "0x" + h[:20].upper() + h[20:], h + "0x", "x" + h, "0" + h,
        ]
    if base == "string":
        return NEAR_STR
    if base == "bool":
        return NEAR_BOOL
    return NEAR_BYTES


def near(draw, t):
    base, sub = t.canon
    if base in ("fixed", "ufixed"):
        m, n = sub
        lo, hi = ref.int_bounds(base == "fixed", m)
        k = pick(draw, [lo - 1, hi + 1, lo, hi, lo + 1, hi - 1, 0, -1, 1, 2 * hi + 2])
        mode = draw(I(0, 4))
        if mode == 0:
            return dec(k, n, draw(I(0, 3)))
        if mode == 4:
            return k  # an int: usually far out of range
        extra = draw(S(RESIDUE_EXTRA))
        return dec(k * 10**extra + draw(S(RESIDUES)), n + extra)
    if base == "address":
        return pick(draw, near_list(t, addr_hex(draw)))
    return pick(draw, near_list(t))


@composite
def any_value_for(draw, ts, fault_rate=3):
    """A value for t that is in the domain, near its boundary, or plain junk, with a
    fault at a random position."""
    return draw_any(draw, P(ts) if isinstance(ts, str) else ts, fault_rate)


SMALL_LENS = [0, 1, 2, 3]
DELTAS = [-1, 1, 2]


def draw_any(draw, t, fault_rate=3):
    budget = [25]

    def go(t, armed):
        """armed: a fault should be placed somewhere in here."""
        if not armed:
            return draw_value(draw, t, True, False, budget)
        k = draw(I(0, 9))
        if t.kind == "el":
            budget[0] -= 1
            if k <= 5:
                return near(draw, t)
            return draw(S(JUNK))
        if k == 0:
            return draw(S(JUNK))
        if t.kind == "tup":
            types = list(t.items)
        else:
            n = t.size if t.size is not None else draw(S(SMALL_LENS))
            types = [t.item] * n
        if k <= 2:  # wrong arity
            delta = draw(S(DELTAS))
            if delta < 0:
                types = types[:-1]
            elif t.kind == "tup":
                types = types + [types[-1]] * delta
            else:
                types = types + [t.item] * delta
            vals = [go(c, False) for c in types]
        elif types:
            i = draw(I(0, len(types) - 1))
            vals = [go(c, j == i) for j, c in enumerate(types)]
        else:
            vals = []
        f = draw(I(0, 13))
        if f == 13:
            return Special("gen", *vals)
        if f == 12:
            return Special("lying", *vals)
        if f == 11:
            return Special("myseq", *vals)
        if f == 10:
            return Special("iter", *vals)
        return vals if f < 5 else tuple(vals)

    return go(t, draw(I(0, fault_rate)) > 0)


# ------------------------------------------------------------------ payloads

MUT_COUNT = [1, 1, 1, 2, 3]
WORD_INS = [bytes(32), b"\xff" * 32, ref.word(1), ref.word(32), ref.word(64)]
APPENDS = [bytes(32), bytes(1), b"\xff" * 32, bytes(31), b"\xff", b"ab" * 20, b"\x01" * 33]
ADDENDS = [1, -1, 31, -31, 32, -32, 64, -64]
HUGE = [
    2**256 - 1, 2**255, 2**64, 2**63, 2**63 - 1, 2**63 - 32, 2**63 - 33, 2**31, 2**32, 2**256 - 32,
    2**128, 2**64 - 1, 2**256 - 31, 2**256 - 64,
]


def mutate(draw, data, regions=None, n=None):
    """Applies 1..3 structural mutations to a payload."""
    data = bytearray(data)
    for _ in range(n or draw(S(MUT_COUNT))):
        m = draw(I(0, 10))
        size = len(data)
        if m == 0 and size:  # flip/replace one byte
            i = draw(I(0, size - 1))
            data[i] = pick(draw, [0, 1, 2, 0x20, 0x40, 0x7F, 0x80, 0xFF, data[i] ^ 1, data[i] ^ 0x80])
        elif m in (1, 2) and size >= 32:  # overwrite an aligned word
            w = draw(I(0, size // 32 - 1))
            mode = draw(I(0, 3))
            if mode == 0:
                v = 32 * draw(I(0, 40))
            elif mode == 1:
                v = draw(I(0, 600))
            elif mode == 2:
                v = pick(draw, [0, 1, 2, 31, 32, 33, 64, 96, size, size - 1, size - 32, size + 1, size - 32 * w, size - 32 * w - 32])
            else:
                v = draw(S(HUGE))
            data[32 * w:32 * w + 32] = max(v, 0).to_bytes(32, "big")
        elif m == 3 and size:  # truncate
            cut = size - draw(I(1, min(33, size))) if draw(I(0, 1)) else draw(I(0, size - 1))
            del data[cut:]
        elif m == 4:  # append
            data += draw(S(APPENDS))
        elif m == 5 and size >= 32:  # delete a word
            w = draw(I(0, size // 32 - 1))
            del data[32 * w:32 * w + 32]
        elif m == 6:  # insert a word
            w = draw(I(0, size // 32))
            data[32 * w:32 * w] = draw(S(WORD_INS))
        elif m == 7 and size >= 64:  # swap two words
            a = draw(I(0, size // 32 - 1))
            b = draw(I(0, size // 32 - 1))
            wa, wb = bytes(data[32 * a:32 * a + 32]), bytes(data[32 * b:32 * b + 32])
            data[32 * a:32 * a + 32], data[32 * b:32 * b + 32] = wb, wa
        elif m == 8 and size >= 32:  # copy a word over another
            a = draw(I(0, size // 32 - 1))
            b = draw(I(0, size // 32 - 1))
            data[32 * b:32 * b + 32] = bytes(data[32 * a:32 * a + 32])
        elif m == 9 and regions:  # hit a region on purpose
            r = pick(draw, regions)
            if r.end <= len(data) and r.end > r.start:
                data[draw(I(r.start, r.end - 1))] = draw(I(0, 255))
        elif m == 10 and size >= 32:  # add to a word
            w = draw(I(0, size // 32 - 1))
            v = int.from_bytes(data[32 * w:32 * w + 32], "big") + draw(S(ADDENDS))
            data[32 * w:32 * w + 32] = (v % 2**256).to_bytes(32, "big")
    return bytes(data)


GAPS = [0, 0, 0, 1, 5, 31, 32, 33, 64]
GAP_FILL = [b"\xff", b"\x00", b"\xa5\x5a"]


def scatter(draw, types, vals):
    """A valid but non-canonical layout: tails in random order, with gaps, shared
    tails.  Gap bytes are junk that must never be looked at."""

    def gap():
        n = draw(S(GAPS))
        return (draw(S(GAP_FILL)) * (n + 1))[:n] if n else b""

    def body(t, v):
        if t.kind == "arr":
            if t.size is None:
                return ref.word(len(v)) + args([t.item] * len(v), v)
            return args([t.item] * len(v), v)
        if t.kind == "tup":
            return args(t.items, v)
        return ref.enc(t, v)

    def args(ts, vs):
        heads = []
        dyn = []
        for t, v in zip(ts, vs):
            if dynamic(t):
                dyn.append(len(heads))
                heads.append(None)
            else:
                heads.append(ref.enc(t, v))
        head_len = sum(32 if h is None else len(h) for h in heads)
        tail = b""
        order = list(dyn)
        out = []
        while order:
            out.append(order.pop(draw(I(0, len(order) - 1)) if len(out) < 6 else 0))
        placed = {}
        for i in out:
            b = body(ts[i], vs[i])
            key = (str(ts[i]), b)
            if key in placed and draw(I(0, 1)):
                heads[i] = ref.word(placed[key])
                continue
            tail += gap()
            placed[key] = off = head_len + len(tail)
            heads[i] = ref.word(off)
            tail += b
        return b"".join(heads) + tail

    return args([P(t) for t in types], vals) + gap()


PAYLOAD_KINDS = [
    "valid", "mutated", "mutated", "mutated", "mutated", "mutated", "scattered", "scattered",
    "scattered-mutated", "scattered-mutated", "words", "words", "random",
]
WORD_VALUES = [32 * k for k in range(13)] + [0, 1, 2, 3, 4, 5] * 2 + [
    2**256 - 1, 2**255, 2**64 - 1, 2**63, 2**63 - 32, 2**160 - 1, 255, 256, 127, 128, 2**256 - 128, 2**256 - 129,
]
WORD_LIST = Lists(Sampled(WORD_VALUES), 0, 14)
WORD_TAILS = [b"", b"", b"\x00", b"\xff" * 31]
BIN200 = Bin(0, 200)


@composite
def payload(draw, types=None, depth=3, big=False, kinds=None, max_len=3, only=None):
    """(types, data, kind): kind as in PAYLOAD_KINDS."""
    if types is None:
        types = draw(type_list(max_len=max_len, min_len=1, depth=depth, words=12, only=only))
    return (types,) + draw_payload(draw, types, big, kinds)


def draw_payload(draw, types, big=False, kinds=None):
    kind = draw(S(kinds or PAYLOAD_KINDS))
    if kind == "random":
        return draw(BIN200), kind
    if kind == "words":
        words = draw(WORD_LIST)
        return b"".join(map(ref.word, words)) + draw(S(WORD_TAILS)), kind
    budget = [20]
    vals = [realize(draw_value(draw, P(t), False, big, budget)) for t in types]
    data, regions = ref.layout([P(t) for t in types], vals)
    if kind == "valid":
        return data, kind
    if kind.startswith("scattered"):
        data = scatter(draw, types, vals)
        regions = None
    if kind.endswith("mutated"):
        data = mutate(draw, data, regions)
    if len(data) > 6000:
        data = data[:6000]
    return data, kind


# ------------------------------------------------------------------ type-like text

FRAGS = [
    "uint", "int", "bool", "bytes", "string", "address", "fixed", "ufixed", "function", "byte",
    "8", "256", "0", "1", "32", "33", "x", "128x18", "[", "]", "[]", "[2]", "[0]", "(", ")", ",",
    "()", " ", "-", "08", "\n", "\t", "\u00e9", "\u0662", "X", "tuple", "hash", "Uint", "[01]", "[ ]",
    "[-1]", "\u00b2", "+", "_", "[1", "1]", "x1", "1x", ".", "\x00", "a", "Z", "{", "é", "\u0130", "\ufb01",
    "[1_0]", "0x8", "\r", "\u200b", "uint256", "(uint8,bool)", "uint8[]", ",,",
]
EDIT_CHARS = list("()[],x0123456789 aZu\n-_+.X{}") + ["\u0661", "\u00e9"]
BASES = [
    "uint", "int", "bool", "bytes", "string", "address", "fixed", "ufixed", "function", "byte",
    "foo", "uints", "Int", "hash", "tuple", "x", "fixedx", "u", "uintx",
]
SUFFIX_NUMS = [1, 2, 7, 8, 9, 15, 16, 18, 20, 24, 31, 32, 33, 40, 64, 79, 80, 81, 127, 128, 129, 160, 248, 255, 256, 257, 264, 512, 1000, 2**32, 10**20]


def draw_typeish(draw):
    """Text that is a type string, nearly one, or not at all."""
    mode = draw(I(0, 9))
    if mode <= 1:
        return "".join(draw(S(FRAGS)) for _ in range(draw(I(0, 7))))
    if mode <= 3:  # random grammatical string with arbitrary names and numbers
        def basic():
            s = draw(S(BASES))
            k = draw(I(0, 3))
            if k == 1:
                s += str(draw(S(SUFFIX_NUMS)))
            elif k == 2:
                s += "%dx%d" % (draw(S(SUFFIX_NUMS)), draw(S(SUFFIX_NUMS)))
            return s

        def ty(d):
            k = draw(I(0, 3)) if d else 0
            if k <= 1:
                s = basic()
            else:
                s = "(%s)" % ",".join(ty(d - 1) for _ in range(draw(I(1, 3))))
            for _ in range(draw(I(0, 4)) // 2):
                s += "[%s]" % ["", str(draw(S(SUFFIX_NUMS)))][draw(I(0, 1))]
            return s

        return ty(2)
    s = draw(type_str(depth=3))
    if mode <= 5:
        return s
    for _ in range(draw(I(1, 2))):
        e = draw(I(0, 5))
        i = draw(I(0, len(s)))
        if e == 0:
            s = s[:i] + draw(S(EDIT_CHARS)) + s[i:]
        elif e == 1:
            s = s[:i] + s[i + 1:]
        elif e == 2:
            s = s[:i] + draw(S(EDIT_CHARS)) + s[i + 1:]
        elif e == 3:
            s = s[:i] + s[i:i + 1] + s[i:]
        elif e == 4:
            s = s[:i] + draw(S(FRAGS)) + s[i:]
        else:
            j = draw(I(0, len(s)))
            s = s[:min(i, j)] + s[max(i, j):]
    return s


@composite
def typeish(draw):
    return draw_typeish(draw)


NOT_STR = [None, 0, 1.5, b"uint8", bytearray(b"uint8"), ("uint8",), ["uint8"], True, Special("object"), {"a": 1}, Special("func"), Special("type"), Special("set", 1)]
