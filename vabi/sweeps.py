"""Systematic case lists: all elementary types x boundary values, container shapes,
length sweeps, deep nestings.  All in-domain."""
from decimal import Decimal

from . import ref
from .data import Special
from .gen import dec, interesting_ints
from .abit import ALIAS_NAMES, ALL_BYTES, ALL_FIXED, ALL_INT, OTHER, P

ADDRS = [
    "0x" + "00" * 20, "0x" + "ff" * 20, "0xd3cda913deb6f67967b99d67acdfa1712c293601",
    "0xD3CdA913deB6f67967B99D67aCDFa1712C293601", "d3cda913deb6f67967b99d67acdfa1712c293601",
    "0XD3CDA913DEB6F67967B99D67ACDFA1712C293601", bytes(range(20)), bytearray(range(1, 21)),
    "0x0000000000000000000000000000000000000001", "0x8000000000000000000000000000000000000000",
]


def int_vals(signed, m):
    lo, hi = ref.int_bounds(signed, m)
    vals = [0, 1, hi, lo, hi - 1, lo + 1, hi // 2, hi // 2 + 1, 0x80, 0x7F, 0xFF, 0x100, 0x0A]
    if signed:
        vals += [-1, -2, -127, -128, -129, -255, -256, -257, lo // 2, -(1 << (m - 8)), -(1 << (m - 8)) - 1]
    vals += [1 << (m - 8), (1 << (m - 8)) - 1, int.from_bytes(bytes(range(1, m // 8 + 1)), "big") & hi]
    seen, out = set(), []
    for v in vals:
        if lo <= v <= hi and v not in seen:
            seen.add(v)
            out.append(v)
    return out


def el_vals(s):
    """Boundary values of an elementary type."""
    base, sub = P(s).canon
    if base in ("int", "uint"):
        return int_vals(base == "int", sub)
    if base == "bool":
        return [True, False]
    if base == "address":
        return list(ADDRS)
    if base == "bytes" and sub is not None:
        full = bytes(range(1, sub + 1))
        return [full, b"\xff" * sub, b"\x00" * sub, full[:-1], b"", b"\x80", bytearray(full), b"\x00" * (sub - 1) + b"\x01", b"\x01" + b"\x00" * (sub - 1)]
    if base == "bytes":
        return [b"", b"\x00", b"a", bytes(range(31)), bytes(range(32)), bytes(range(33)), b"\xff" * 64, bytearray(b"\x80" * 65), b"\x00" * 32]
    if base == "string":
        return ["", "a", "\x00", "a" * 31, "b" * 32, "c" * 33, "\u20ac" * 11, "\U0001f600" * 8, "\u00e9" * 16, "x" * 64, "\ufeffx"]
    m, n = sub
    out = []
    for i, k in enumerate(int_vals(base == "fixed", m)):
        out.append(dec(k, n, (0, 1, 2, 3)[i % 4]))
    return out


def el_types(fixed_stride=1):
    return ALL_INT + ALL_BYTES + OTHER + ALIAS_NAMES + ALL_FIXED[::fixed_stride]


REPR_EL = [
    "uint256", "uint8", "int256", "int8", "int104", "uint48", "bool", "address", "bytes", "string",
    "bytes32", "bytes1", "bytes20", "bytes31", "fixed128x18", "ufixed8x1", "fixed256x80", "ufixed256x80", "fixed64x10",
    "uint", "int", "fixed", "ufixed", "function", "byte",
]

TEMPLATES = [
    "T", "T[]", "T[1]", "T[2]", "T[3]", "(T)", "(T,T)", "((T))", "(T,(T,T))", "((T,T),T)",
    "T[][]", "T[2][]", "T[][2]", "T[2][3]", "T[3][2]", "T[1][]", "T[][1]", "T[][][]", "T[2][][2]", "T[][2][]", "T[2][2][2]",
    "(T,bytes)", "(bytes,T)", "(string,T,string)", "(T[],T)", "(T,T[])", "(T[2],T)", "(T,T[2])", "(T[],T[])",
    "(T)[]", "(T)[2]", "(T,T)[]", "(T,T)[2]", "(T,bytes)[]", "(T,bytes)[2]", "(bytes,T)[][2]", "(T[],T)[]", "(T[2],bytes[])[2][]",
    "((T,bytes),T)", "(T,(T,bytes))", "((bytes,T)[],T)", "(T,(T,(T,(T,T[]))))", "((((T,T[]),T),T),T)",
    "(T,bool,T,uint8,T)", "(uint256,T,bytes,T,string,T)", "(T[2],(T,T)[2],T)", "((T[])[2],T)", "(((T)[])[2])",
]
MULTI = [
    ["T"], ["T", "T"], ["T", "bytes"], ["bytes", "T"], ["T[]", "T"], ["T", "T[]", "T"], ["T[2]", "bytes", "T[2]"],
    ["(T,T)", "string", "(T,T)"], ["(T,bytes)", "T", "(bytes,T)[]"], ["T[][]", "T", "T[2][]"], ["uint8", "T", "bool", "T"],
]


def fill(t, pick, lens):
    """Builds a value of t: pick() gives the next element value per element type,
    lens() the next dynamic array length."""
    if t.kind == "el":
        return pick(t)
    if t.kind == "tup":
        return tuple(fill(c, pick, lens) for c in t.items)
    n = t.size if t.size is not None else lens()
    return [fill(t.item, pick, lens) for _ in range(n)]


class Picker:
    def __init__(self, shift=0):
        self.i = shift
        self.cache = {}

    def __call__(self, t):
        s = str(t)
        vals = self.cache.get(s)
        if vals is None:
            vals = self.cache[s] = el_vals(s)
        self.i += 1
        return vals[self.i % len(vals)]


class Lens:
    def __init__(self, seq):
        self.seq, self.i = seq, -1

    def __call__(self):
        self.i += 1
        return self.seq[self.i % len(self.seq)]


LEN_SEQS = [[0], [1], [2], [3, 0, 1], [1, 2, 0], [0, 3], [2, 1, 3]]


def elementary(tier, seed, fixed_stride=1):
    """(types, vals): each elementary type with all its boundary values, as single
    arguments, batched: the case is (type, [values])."""
    for s in el_types(fixed_stride):
        yield ("each", s, el_vals(s))


def containers(tier, seed, els=None, templates=None, shifts=2, len_seqs=None):
    for i, e in enumerate(els or REPR_EL):
        for j, tpl in enumerate(templates or TEMPLATES):
            ts = tpl.replace("T", e)
            t = P(ts)
            seqs = (len_seqs or LEN_SEQS) if "[]" in ts else [[0]]
            for k, seq in enumerate(seqs):
                v = fill(t, Picker(i + 3 * j + 5 * k), Lens(seq))
                yield ("args", [ts], [v])


def multis(tier, seed, els=None):
    for i, e in enumerate(els or REPR_EL):
        for j, tpl in enumerate(MULTI):
            tss = [x.replace("T", e) for x in tpl]
            for k, seq in enumerate([[0], [1], [2, 0, 3]]):
                vals = [fill(P(ts), Picker(i + j + k), Lens(seq)) for ts in tss]
                yield ("args", tss, vals)


def lengths(tier, seed, big=True):
    """Length sweeps of byte strings, text and arrays."""
    hi = 200 if tier == "quick" else 1100
    for n in list(range(hi)) + ([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 100000] if big else []):
        yield ("args", ["bytes"], [Special("rep", b"\xa7", n)])
        yield ("args", ["string", "uint8"], [Special("rep", "z", n), 7])
        yield ("args", ["(bytes,string)[]"], [[(Special("rep", b"\x00", n), Special("rep", "\u20ac", n // 3))]])
    sizes = list(range(0, 70 if tier == "quick" else 300)) + [100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025] + ([2047, 2048, 2049, 4095, 4096, 4097] if big else [])
    for n in sizes:
        yield ("args", ["uint16[]"], [[i % 65536 for i in range(n)]])
        yield ("args", ["bool[]", "int8"], [[i % 3 == 0 for i in range(n)], -1])
        if n <= 1025:
            yield ("args", ["bytes[]"], [[bytes([i % 256]) * (i % 70) for i in range(n)]])
            yield ("args", ["(uint8,string)[]"], [[(i % 256, "q" * (i % 40)) for i in range(n)]])
            yield ("args", ["uint8[][]"], [[[i % 256] * (i % 3) for i in range(n)]])
        if 0 < n <= 300:
            yield ("args", ["int24[%d]" % n], [[-i for i in range(n)]])
            yield ("args", ["string[%d]" % n], [["w" * (i % 35) for i in range(n)]])
            yield ("args", ["uint8[2][%d]" % n], [[[i % 256, 255 - i % 256] for i in range(n)]])
    for n in list(range(1, 40)) + [63, 64, 65, 100]:
        kinds = ["uint8", "bytes", "bool", "string", "int16[2]", "uint256[]", "(uint8,bytes)", "(bool,int8)", "bytes3"]
        ts = [kinds[(i * 7 + n) % len(kinds)] for i in range(n)]
        vals = [fill(P(t), Picker(i), Lens([1, 0, 2])) for i, t in enumerate(ts)]
        yield ("args", ts, vals)
        yield ("args", ["(%s)" % ",".join(ts)], [tuple(vals)])
        yield ("args", ["uint32"] * n, list(range(n)))
        yield ("args", ["bytes"] * n, [bytes([i]) * i for i in range(n)])
        # tails that shrink, vary and repeat
        ds = ["bytes", "string[]", "(string,bytes)", "uint16[]", "bytes[2]", "string"]
        for k, f in enumerate((lambda i: n - i, lambda i: i * i * 37 % 71, lambda i: (i % 2) * 33, lambda i: 5)):
            mk = [
                lambda m: bytes([m % 256]) * m, lambda m: ["t" * (m % 9)] * (m % 4), lambda m: ("u" * m, b"v" * (m // 2)),
                lambda m: [m] * (m % 6), lambda m: [b"w" * m, b""], lambda m: "x" * m,
            ]
            for mixed in (0, 1):
                at = [((i * 5 + k) % 6 if mixed else k % 6) for i in range(n)]
                ts, vals = [ds[a] for a in at], [mk[a](f(i)) for i, a in enumerate(at)]
                yield ("args", ts, vals)
                if n < 40:
                    yield ("args", ["(%s)" % ",".join(ts)], [tuple(vals)])
                if not mixed:
                    yield ("args", ["bool", "%s[%d]" % (ts[0], n)], [True, vals])
                    yield ("args", ["%s[]" % ts[0], "uint8"], [vals, 2])


def deep(tier, seed, maxd=None):
    maxd = maxd or (9 if tier == "quick" else 16)
    for e in ("uint8", "bytes", "string", "bool", "int256"):
        for d in list(range(1, maxd + 1)) + ([12, 17, 24, 33] + ([41, 60] if e == "uint8" else []) if e in ("uint8", "bytes") and maxd > 8 else []):
            for shape in range(6):
                ts, v = e, Picker(d + shape)(P(e))
                for i in range(d):
                    if shape == 0:
                        ts, v = "(%s)" % ts, (v,)
                    elif shape == 1:
                        ts, v = "%s[]" % ts, [v]
                    elif shape == 2:
                        ts, v = "%s[1]" % ts, [v]
                    elif shape == 3:
                        ts, v = "(uint8,%s)" % ts, (i, v)
                    elif shape == 4:
                        ts, v = "(%s,bytes)" % ts, (v, bytes([i]) * i)
                    else:
                        ts, v = ("%s[]" % ts, [v, v]) if i % 3 == 0 and i < 12 else ("(bool,%s,string)" % ts, (True, v, "s" * i))
                yield ("args", [ts], [v])


def huge(tier, seed):
    """Byte strings of megabytes, offsets beyond 16 bits and 24 bits, tens of thousands of items."""
    M = 1 << 20
    for n in (M - 1, M, M + 1, 2 * M + 100, 4 * M + 33, (1 << 24) + 5):
        yield ("args", ["bytes", "uint8"], [Special("rep", b"\x5a\x01\x00", n), 3])
        yield ("args", ["bool", "string"], [True, Special("rep", "\u20acz", n // 4)])
    for k, n in enumerate((M, 3 * M + 1, (1 << 23) + 7, (1 << 24) + 31)):
        big = Special("rep", b"\x11", n)
        yield ("args", ["bytes[]"], [[big, b"a", Special("rep", b"\x22", 70000), b"c", b""]])
        yield ("args", ["(bytes,string)[2]", "uint8[]"], [[(big, "a"), (b"b", "\u00e9" * 40)], [1, 2, 3]])
        yield ("args", ["bytes", "string", "(uint8,bytes)", "uint16[]"], [big, "x", (4, b"zz"), [5]])
    for n in (16385, 65537) if tier == "quick" else (16385, 32769, 65535, 65536, 65537, 131073, 300001):
        yield ("args", ["uint24[]", "bytes"], [[i for i in range(n)], b"end"])
    yield ("args", ["bool[33000]"], [[i % 7 == 0 for i in range(33000)]])
    yield ("args", ["string[]"], [["s%d" % i for i in range(40000)]])


WIDE_PAIRS = [("bytes", "uint8"), ("uint8", "bytes"), ("(uint8,bytes)", "bool"), ("uint8[]", "int16"), ("string", "(bool,uint8)"), ("uint8[2]", "uint256"), ("string[2]", "bytes3")]


def wide(tier, seed, ns=None):
    """Tuples and argument lists of many components, one of which differs in kind."""
    for n in ns or ((9, 17, 33, 65, 130, 257) if tier == "quick" else (9, 16, 17, 32, 33, 64, 65, 128, 130, 256, 257, 600, 1030)):
        for k, (odd, base) in enumerate(WIDE_PAIRS):
            for at in sorted({0, n // 2, n - 1} | {x for x in (8, 16, 32, 64) if x < n and (x + k + n) % 2}):
                ts = [base] * n
                ts[at] = odd
                p = Picker(at + k)
                vals = [fill(P(t), p, Lens([1, 2])) for t in ts]
                s = "(%s)" % ",".join(ts)
                yield ("args", [s], [tuple(vals)])
                if (at + k + n) % 3 == 0:
                    yield ("args", ts, vals)
                    yield ("args", ["bool", s, "bytes"], [True, tuple(vals), b"z"])
                    if n <= 130:
                        yield ("args", [s + "[]"], [[tuple(vals), tuple(vals)]])
                        yield ("args", [s + "[2]", "uint8"], [[tuple(vals), tuple(vals)], 9])


def broad(tier, seed):
    """Heads of 64 KiB and more in front of dynamic values, and hundreds of components with
    several dynamic ones among them."""
    for k, n in enumerate((2046, 2047, 2048, 2049, 4100) if tier == "quick" else (1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 4100, 20000)):
        big = "uint16[%d]" % n
        v = [(i * 7) % 65536 for i in range(n)]
        yield ("args", [big, "bytes"], [v, b"tail"])
        yield ("args", ["string", big, "bytes[]"], ["first", v, [b"a", b"bc"]])
        if k % 2 == 0:
            yield ("args", ["bool", "(bytes,%s,uint8[])" % big], [True, (b"zz", v, [1, 2, 3])])
            yield ("args", ["(%s,string)[2]" % big], [[(v, "one"), (v[::-1], "two, longer than the first one, and longer")]])
        yield ("args", ["uint16[2][%d]" % (n // 2), "(uint8,string)"], [[[i % 256, 65535 - i] for i in range(n // 2)], (7, "end")])
    for n in (280, 301, 330, 520) if tier == "quick" else (257, 280, 300, 301, 330, 400, 520, 700, 1030, 2100):
        for k, (odd, base) in enumerate(WIDE_PAIRS[:5]):
            for m in (2, 3, 9, n // 2):
                at = {(i * n // m + k) % n for i in range(m)} | {n - 1}
                ts = [odd if i in at else base for i in range(n)]
                p = Picker(m + k)
                for grow in (0, 1):
                    vals, left = [], 0
                    for i, t in enumerate(ts):
                        if i in at and t in ("bytes", "string"):
                            left += 1
                            size = 11 * (left if grow else m + 1 - left) % 130 if m < 20 else (left * 37) % 70
                            vals.append(b"\xa7" * size if t == "bytes" else "z" * size)
                        else:
                            vals.append(fill(P(t), p, Lens([1 + grow, 2])))
                    if (m + k + grow) % 2:
                        yield ("args", ts, vals)
                    else:
                        yield ("args", ["uint8", "(%s)" % ",".join(ts)], [3, tuple(vals)])


def twins(tier, seed):
    """Two long values of one type that agree in length, or in a part of their content."""
    for n in (33, 41, 70, 130, 300, 1025) if tier == "quick" else (33, 40, 41, 64, 65, 70, 130, 256, 257, 300, 513, 1025, 4100):
        a, b = [i % 200 for i in range(n)], [(i * 7 + 1) % 200 for i in range(n)]
        c = a[:-1] + [201]
        for x, y in ((a, b), (a, c), (c, a)):
            yield ("args", ["uint8[]", "uint8[]"], [x, y])
            yield ("args", ["uint8[][]"], [[x, y, x]])
            yield ("args", ["bytes", "bytes"], [bytes(x), bytes(y)])
            yield ("args", ["(bytes,uint8[%d])[]" % n], [[(bytes(x), y), (bytes(y), x)]])
            yield ("args", ["string[]"], [["".join(map(chr, v)) for v in (x, y, y, x)]])


FAR = [
    ("uint8[]", 5, [256, -1, "5", 5.0, True, None, b"5", [5]]), ("bytes3[N]", b"abc", [b"abcd", "abc", None, 3]),
    ("string[]", "q", [b"q", "\ud800", None, ["q"]]), ("bytes[N]", b"q", ["q", None, 1, [b"q"]]),
    ("(uint8,bool)[]", (1, True), [(1,), (1, True, 1), (1, 1), (256, True), None, []]),
    ("uint8[2][]", [1, 2], [[1], [1, 2, 3], [1, 256], 1, None, "ab"]), ("bool[N]", True, [1, None, "True", 0]),
    ("int8[]", -1, [128, -129, "1", None]), ("address[]", "0x" + "12" * 20, ["0x" + "12" * 19, "0x" + "zz" * 20, 5, b"1" * 19, None]),
    ("fixed8x1[N]", Decimal("1.5"), [Decimal("12.8"), 1.5, Decimal("0.01"), None, Decimal("NaN")]),
    ("bytes[][]", [b"a"], [["a"], None, b"ab", [b"", 3]]), ("(string,uint8[])[N]", ("a", [1]), [("a", [256]), (b"a", [1]), ("a", 1), ("a",)]),
]


def far_faults(tier, seed):
    """Long arrays, tuples and argument lists of good values with one bad one: (types, values)."""
    for n in (17, 33, 70, 257) if tier == "quick" else (9, 16, 17, 32, 33, 64, 65, 70, 128, 129, 257, 1025):
        for k, (s, good, bads) in enumerate(FAR):
            for at in sorted({n - 1, n // 2, 16} | ({8, 9, 32, 64, 128} if tier != "quick" else set())):
                if at >= n:
                    continue
                for i, bad in enumerate(bads):
                    if n > 100 and i % 3 != at % 3:
                        continue
                    v = [good] * n
                    v[at] = bad
                    yield ("args", [s.replace("N", str(n))], [v])
                    item = s[:s.rindex("[")]
                    if (i + at + k) % 3 == 0 and n < 100:
                        yield ("args", ["(%s)" % ",".join([item] * n)], [tuple(v)])
                        yield ("args", [item] * n, v)
            v = [good] * n
            if "N" in s:
                for w in (v[:-1], v + v[:1], v + v, []):
                    yield ("args", [s.replace("N", str(n))], [w])


def farther_faults(tier, seed):
    """The same with thousands of items and the bad one at the end."""
    for n in (1001, 1030, 4200, 9000) if tier == "quick" else (1001, 1030, 2050, 4097, 4200, 8193, 9000, 20000, 66000):
        for k, (s, good, bads) in enumerate(FAR):
            if n > 2000 and (k + n + seed) % 3:
                continue
            for i, bad in enumerate(bads):
                if i > 1 and (i + k + n // 10 + seed) % 4:
                    continue
                yield ("args", [s.replace("N", str(n))], [Special("spoilt", good, n, bad)])
                if n < 1020 and i < 2:
                    item = s[:s.rindex("[")]
                    yield ("args", ["(%s)" % ",".join([item] * n)], [Special("spoilt", good, n, bad)])
        yield ("args", ["bool[]"], [Special("spoilt", True, n, 1)])
        yield ("args", ["uint8[%d]" % n], [Special("spoilt", 1, n - 1, 1)])
        yield ("args", ["uint8[%d]" % n], [Special("spoilt", 1, n + 1, 1)])
        yield ("args", ["bytes[%d]" % n], [Special("spoilt", b"", n + 1, b"")])


FILLERS = ["a", "\u00e9", "\u20ac", "\U0001f600", "ab\u00fc", " ", "\u4e2d\u6587", "A0_"]
# what careless text handling changes: line ends, marks, blanks, NULs, characters with
# several normal forms or cases, escapes
ODD = ["\r\n", "\r", "\n", "\t", "\x0b\x0c", "\x00", "\x1a", "\x1b[0m", "\x7f", "\x85", "\xa0", "\xad", "\u200b", "\u200d", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ufffe", "e\u0301", "\u00e9", "\ufb01", "\u212b", "\u1e9e\u0130", "\u0345", "\\", "\\n", "\\u20ac", "\"'", "%s{}", " ", "  ", "+-=_/", "\U0010ffff", "\ue000", "\uac00", "\u1100\u1161", "\u202e", "<&>"]


def odd_texts(n, f):
    """Texts of about n characters with everything odd at the start, in the middle and at
    the end, together and one by one."""
    fill = (FILLERS[f] * (n // len(FILLERS[f]) + 1))
    everything = "".join(x + fill[:3] for x in ODD)
    yield everything + fill[:n] + everything
    yield fill[: n // 2] + everything + fill[: n - n // 2] + everything
    if n < 60000:
        for i, x in enumerate(ODD):
            yield (fill[: n // 3] + x + fill[: n - n // 3], x + fill[:n], fill[:n] + x, x + fill[:n] + x)[(i + f) % 4]


def odd(tier, seed):
    """Long texts and byte strings with odd content."""
    for n in (40, 290, 1100, 5000) if tier == "quick" else (40, 130, 290, 520, 1100, 2100, 5000, 9000, 70000):
        for f in range(len(FILLERS)):
            for i, x in enumerate(odd_texts(n, f)):
                if i > 1 and (i + f + n + seed) % 5:
                    continue
                if i % 2:
                    yield ("args", ["string"], [x])
                else:
                    yield ("args", ["(string,uint8)[]", "bytes"], [[(x, 1), (x[:50], 2)], x.encode()])


def everything(tier, seed, fixed_stride=1):
    yield from elementary(tier, seed, fixed_stride)
    yield from containers(tier, seed)
    yield from multis(tier, seed)
    yield from lengths(tier, seed)
    yield from deep(tier, seed)
    yield from wide(tier, seed)
    yield from broad(tier, seed)
    yield from twins(tier, seed)
    yield from odd(tier, seed)
    yield from huge(tier, seed)


def expand(case):
    """[(types, vals)] of a sweep case."""
    if case[0] == "each":
        return [([case[1]], [v]) for v in case[2]]
    return [(case[1], case[2])]
