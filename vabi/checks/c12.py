import itertools
import sys

from .. import gen, sut
from ..abit import Bad, parse
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are strings: every string of up to 5 symbols over a small alphabet of type fragments "
    "(bounded-exhaustive), numbers of up to 1500 digits, valid types with 0..2 edits, random fragment concatenations and random "
    "text, compared with an independent recursive-descent parser (structure, printing, equality) and "
    "fed to has_arrlist/is_base_tuple-style lookups. Non-trivial: the string is well-formed with a "
    "suffix or tuple, or malformed in a way that needs the grammar (contains a letter); distinct by string."
)


def structure(t):
    """(kind, base, sub, dims, components) of a model type, dims as arrlist."""
    dims = []
    while t.kind == "arr":
        dims.append([] if t.size is None else [t.size])
        t = t.item
    dims.reverse()
    if t.kind == "tup":
        return ("tup", tuple(structure(c) for c in t.items), dims)
    return ("el", t.base, t.sub, dims)


def actual(a):
    g = sut.grammar
    dims = [] if a.arrlist is None else [list(d) for d in a.arrlist]
    if a.arrlist is not None and not dims:
        fail("arrlist of %s is empty instead of None", a.to_type_str())
    if isinstance(a, g.TupleType):
        return ("tup", tuple(actual(c) for c in a.components), dims)
    if not isinstance(a, g.BasicType):
        fail("parsed to a %s", type(a).__name__)
    return ("el", a.base, a.sub, dims)


def check(s, rec):
    g = sut.grammar
    if len(s) > 3000:
        return
    try:
        t = parse(s)
    except Bad:
        t = None
    out = sut.call(g.parse, s)
    if t is None:
        rec.label("malformed")
        if any(c.isalpha() for c in s):
            rec.nontrivial(s)
        if out.ok:
            fail("parse(%s) accepted a malformed type string as %s", repr(s), out)
        want = ValueError if "()" in s else sut.ParseError
        if not isinstance(out.exc, want):
            fail("parse(%s) %s, expected %s", repr(s), out, want.__name__)
        text = sut.call(str, out.exc)
        if not text.ok or type(text.value) is not str:
            fail("the message of the error for %s cannot be printed: %s", repr(s), text)
        return
    rec.label("wellformed")
    if t.kind != "el" or t.sub is not None:
        rec.nontrivial(s)
    if not out.ok:
        fail("parse(%s) %s", repr(s), out)
    walk(t, out.value, s)
    # memo and fresh results agree
    again = sut.call(g.parse, s)
    if not again.ok or not (again.value == out.value) or again.value != out.value:
        fail("parsing %s twice gives unequal types", s)


def walk(t, a, whole):
    s = str(t)
    if actual(a) != structure(t):
        fail("parse(%s): part %s has structure %s, expected %s", whole, s, actual(a), structure(t))
    if a.to_type_str() != s:
        fail("parse(%s): part prints as %s, expected %s", whole, a.to_type_str(), s)
    if a.is_array is not (t.kind == "arr"):
        fail("parse(%s): is_array of %s is %s", whole, s, a.is_array)
    if t.kind == "arr":
        walk(t.item, a.item_type, whole)
        if not (a.item_type == sut.grammar.parse(str(t.item))) or a.item_type == a:
            fail("parse(%s): item type of %s is not equal to parse(%s)", whole, s, str(t.item))
    else:
        o = sut.call(lambda: a.item_type)
        if o.ok or not isinstance(o.exc, ValueError):
            fail("parse(%s): item_type of non-array %s %s, expected ValueError", whole, s, o)
    if t.kind == "tup":
        if len(a.components) != len(t.items):
            fail("parse(%s): %s has %d components", whole, s, len(a.components))
        for c, x in zip(t.items, a.components):
            walk(c, x, whole)


def run_str(case, rec):
    check(case, rec)


SYM = ["uint", "8", "0", "[", "]", "(", ")", ",", "x", " ", "[]", "[2]", "a"]
SYM2 = ["u", "1", "0", "[", "]", "(", ")", ",", "x"]


def enum(tier, seed):
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        for first in itertools.product(SYM, repeat=min(k, 2)):
            yield ("sym", "".join(first), k - len(first), 0)
    n = 6 if tier == "quick" else 7
    for k in range(n + 1):
        for first in itertools.product(SYM2, repeat=min(k, 3)):
            yield ("sym", "".join(first), k - len(first), 1)
    for x in gen.NOT_STR:
        yield ("notstr", x)
    every = [w.replace("%s", e) for e in CONFUSABLE for w in CONF_WRAP]
    for a in every:
        yield ("eq", a, every)
    for s in SPECIAL:
        yield ("one", s)
    for k in list(range(1, 45)) + [50, 64, 77, 78, 79, 100, 128, 155, 156, 200, 308, 309, 310, 400, 640, 700, 1000, 1500]:
        yield ("digits", k)
    for n in (8, 20, 40, 60, 100, 200, 450) if tier == "quick" else (8, 20, 40, 60, 100, 200, 450, 600):
        for form in range(8):
            yield ("similar", n, form)


SPECIAL = [
    "", " ", "uint8 ", " uint8", "uint8\n", "\nuint8", "uint8\t", "uint08", "uint8[02]", "uint8[2]]", "uint8[][]", "uint8[][", "uint8[[]]",
    "(uint8)", "(uint8", "uint8)", "((uint8))", "(uint8,)", "(,uint8)", "(uint8,,bool)", "()", "()[]", "(())", "uint8()", "uint8,()", "(uint8,())",
    "uint8[1][2][3][]", "(a,b)[3][]", "fixed8x1", "fixed8x", "fixedx8", "fixed8x08", "fixed8X1", "fixed8x1x1", "a1b", "a1x1b", "a1x", "ax1", "x1", "x", "1x1", "x1x1",
    "uint8[1_0]", "uint8[\u0661]", "uint\u0668", "uint\u00b2", "\u00fcint8", "uint8[+1]", "uint8[-1]", "uint8[1.0]", "uint8[0x1]", "uint8[ 1]",
    "uint99999999999999999999", "uint8[99999999999999999999]", "A", "Zz9", "tuple", "tuple(uint8)", "(uint8)uint8", "(uint8)8", "(uint8)[]8", "uint8[]8", "uint8[]x",
    "uint_8", "uint-8", "a.b", "a b", "a,b", "a;b", "a\x00", "\x00", "a\u200b", "(a, b)", "( a,b)", "(a,b )", "[]", "[1]", "8", "8x8", "a[]b[]", "a[1]b",
    "(((((((a)))))))", "a" * 500, "a" + "[]" * 60, "(" + ",".join(["a"] * 200) + ")", "(a)" + "[3]" * 40, "a\r", "a\x0b", "a\x85", "a\u2028", "uint256\n[]", "(a\n)", "(a,\nb)",
]


# pairs of different texts that a looser notion of equality could confuse
CONFUSABLE = [
    "int", "int256", "uint", "uint256", "fixed", "fixed128x18", "ufixed", "ufixed128x18", "function", "bytes24", "byte", "bytes1", "bytes", "bytes32",
    "Int", "INT", "int8", "int80", "int8x1", "int81", "int1x8", "foo", "foo1", "foox", "address", "uint160", "bool", "uint8", "string",
    "hash", "hash32",
]
CONF_WRAP = ["%s", "%s[]", "%s[1]", "%s[2]", "%s[][]", "%s[1][]", "%s[][1]", "%s[1][2]", "%s[2][1]", "%s[12]", "(%s)", "((%s))", "(%s)[]", "(%s[])", "(%s,%s)", "((%s),%s)", "(%s,(%s))", "((%s,%s))", "(%s,int)", "(int,%s)"]


def run_enum(case, rec):
    kind = case[0]
    if kind == "eq":
        a = case[1]
        x = sut.grammar.parse(a)
        for b in case[2]:
            y = sut.grammar.parse(b)
            with narrow(("eq", a, [b])):
                if (x == y) is not (a == b) or (x != y) is not (a != b):
                    fail("parse(%s) == parse(%s) is %s", a, b, x == y)
            rec.more(1)
        rec.nontrivial("eq", a)
        return
    if kind == "similar":
        from .c08 import similar

        texts = ["(%s)" % ",".join(ts) for ts in similar(case[1], case[2])]
        texts += [x + "[]" for x in texts[:5]] + [x + "[3]" for x in texts[:5]]
        texts += ["(bool,%s)" % x for x in texts[:3]]
        for i, x in enumerate(texts[:20]):
            # same length, malformed
            at = (i * 37 + 11) % len(x)
            texts.append(x[:at] + "_" + x[at + 1:])
            texts.append(x[:at] + ")" + x[at + 1:])
        for x in texts + texts[::-1]:
            rec.more(1)
            check(x, rec)
        # rearrangements have the same length and the same characters
        ts = max(similar(case[1], case[2]), key=lambda u: len(set(u)))
        more = ["(%s)" % ",".join(u) for u in (ts[::-1], ts[1:] + ts[:1], ts[::2] + ts[1::2], sorted(ts), ts[:1] + ts[1:][::-1])]
        more += ["(%s)" % ",".join(u * 8) for u in (["uint8", "bytes32"], ["bytes32", "uint8"], ["uint32", "bytes8"], ["uint8[2]", "bool[3]"], ["uint8[3]", "bool[2]"])]
        good = [(x, sut.call(sut.grammar.parse, x)) for x in dict.fromkeys(texts[:24 if case[1] < 100 else 7] + more)]
        good = [(x, o.value) for x, o in good if o.ok]
        for a, x in good:
            for b, y in good:
                rec.more(1)
                if (x == y) is not (a == b) or (x != y) is not (a != b):
                    with narrow(("eq", a, [b])):
                        fail("parse(%s) == parse(%s) is %s", a, b, x == y)
        return
    if kind == "one":
        return check(case[1], rec)
    if kind == "digits":
        k = case[1]
        numbers = ["1" + "0" * (k - 1), "9" * k, ("1234567890" * (k // 10 + 1))[:k], "1" + "0" * (k - 2) + "1" if k > 1 else "7", str(2 ** (k * 3) + 1), "8" * k]
        for n in numbers + ["0" + numbers[0], numbers[1] + " "]:
            for s in ("uint%s", "a%sx%s", "fixed8x%s", "uint8[%s]", "a[%s][2][]", "(bool[%s],uint%s)[%s]", "b[2][%s][%s]", "(bytes%s)"):
                s = s.replace("%s", n)
                rec.more(1)
                with narrow(("one", s)):
                    check(s, rec)
        # and neighbours are different types
        a, b = (sut.call(sut.grammar.parse, "uint8[%s]" % x) for x in (numbers[0], numbers[0][:-1] + "1" if k > 1 else "2"))
        if not (a.ok and b.ok) or a.value == b.value:
            fail("uint8[%s] is equal to its successor", numbers[0])
        return
    if kind == "notstr":
        out = sut.call(sut.grammar.parse, realize(case[1]))
        if out.ok or not isinstance(out.exc, TypeError):
            fail("parse(%s) %s, expected TypeError", case[1], out)
        rec.nontrivial(repr(case[1]))
        return
    sym = SYM2 if case[3] else SYM
    for rest in itertools.product(sym, repeat=case[2]):
        s = case[1] + "".join(rest)
        rec.more(1)
        # most strings that cannot start a type are refused alike: thin them out
        if s[:1] in (")", "]", ",", "[", "0", "1", "8", " ") and hash_(s) % 16:
            continue
        with narrow(("one", s)):
            check(s, rec)


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xFFFFFFFF
    return h >> 7


@composite
def pair(draw):
    a = gen.draw_typeish(draw)
    if draw(gen.I(0, 1)):
        b = a
        i = draw(gen.I(0, len(a)))
        k = draw(gen.I(0, 3))
        if k:
            b = a[:i] + draw(gen.S(gen.EDIT_CHARS)) + a[i + (k == 2):]
    else:
        b = gen.draw_typeish(draw)
    return a, b


def run_pair(case, rec):
    """Equality of parsed types is equality of their texts."""
    a, b = case
    for s in case:
        check(s, rec)
    x, y = sut.call(sut.grammar.parse, a), sut.call(sut.grammar.parse, b)
    if not (x.ok and y.ok):
        return
    if (x.value == y.value) is not (a == b) or (x.value != y.value) is not (a != b):
        fail("parse(%s) == parse(%s) is %s", a, b, x.value == y.value)
    for other in (a, None, 5, (a,)):
        if x.value == other:
            fail("parse(%s) == %s", a, repr(other))
    rec.label("pair-equal" if a == b else "pair-different")


@composite
def text(draw):
    return draw(gen.TEXT) if draw(gen.I(0, 3)) == 0 else gen.draw_typeish(draw)


def parts(tier):
    return [
        Part("exhaustive", run_enum, enum=enum),
        Part("text", run_str, cases=text(), n=(16000, 400000), size=200),
        Part("pairs", run_pair, cases=pair(), n=(8000, 200000), size=300),
    ]
