from .. import expect, gen, ref, sut, sweeps
from ..abit import ALIASES, El, P, el_valid, leaves, valid
from ..abix import classify
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are well-formed type strings: the complete grid of each base name with no suffix, every "
    "numeric suffix up to 300 (and some huge) and the grid of size pairs, alone and inside arrays and "
    "tuples, plus random nested types with one leaf of random name and suffix. Oracle: the validity "
    "rules of the ABI specification in vabi/abit.py. validate() must raise ABITypeError exactly for "
    "invalid types of known bases, and encode, decode, encode_packed and is_encodable_type must accept "
    "exactly the valid types. Non-trivial: the type has a suffix or is invalid; distinct by type string."
)

KNOWN = {"int", "uint", "fixed", "ufixed", "bytes", "string", "address", "bool"}
REFUSAL = (ValueError, sut.ParseError)
WORDS = b"".join(ref.word(k) for k in (32, 1, 32, 0, 0, 0, 0, 0))


def validates(t):
    """What validate() of the parsed (not normalised) type must do: True (accept), False
    (ABITypeError) or None (not laid down: bases outside the specification)."""
    els = list(leaves(t))
    if any(e.base in KNOWN and not el_valid(e.base, e.sub) for e in els):
        return False
    if any(e.base == "hash" for e in els):
        return None
    return True


def simple(t):
    """A value of a valid type (dynamic arrays empty) or None if too big to build."""
    return sweeps.fill(t, sweeps.Picker(0), sweeps.Lens([1]))


def size(t):
    if t.kind == "el":
        return 1
    if t.kind == "arr":
        return (t.size or 1) * size(t.item)
    return sum(map(size, t.items))


def check(s, rec, codecs=True):
    t = classify(s)[1]
    if t is None:
        fail("harness: %s is not well-formed", s)
    ok = valid(t)
    want = validates(t)
    out = sut.call(lambda: sut.grammar.parse(s).validate())
    if want is True and not out.ok:
        fail("parse(%s).validate() %s for a valid type", s, out)
    if want is False and (out.ok or not isinstance(out.exc, sut.ABITypeError)):
        fail("parse(%s).validate() %s, expected ABITypeError", s, out)
    if not ok or any(e.sub is not None for e in leaves(t)):
        rec.nontrivial(s)
    rec.label("valid" if ok else "invalid")
    if not codecs:
        return
    for name, fn in (
        ("is_encodable_type", sut.is_encodable_type),
        ("packed is_encodable_type", sut.packed.default_encoder_packed.is_encodable_type),
    ):
        o = sut.call(fn, s)
        if not o.ok or o.value is not ok:
            fail("%s(%s) %s, expected %s", name, s, o, ok)
    if not ok:
        for v in (0, b"", "", True, [0], [], (0,), "0x" + "00" * 20):
            for name, fn in (("encode", sut.encode), ("encode_packed", sut.encode_packed)):
                refused(name, s, sut.call(fn, [s], [v]))
            rec.more(2)
        for data in (WORDS, b""):
            for strict in (True, False):
                refused("decode", s, sut.call(sut.decode, [s], data, strict=strict))
            rec.more(2)
        # also when it is one of several types
        refused("encode", s, sut.call(sut.encode, ["uint8", s], [1, 0]))
        refused("decode", s, sut.call(sut.decode, ["uint8", s], WORDS))
        refused("encode_packed", s, sut.call(sut.encode_packed, ["uint8", s], [1, 0]))
        return
    if size(t) > 50:
        return
    v = simple(t)
    out = sut.call(sut.encode, [s], [v])
    expect.judge_encode([s], [v], out)
    expect.judge_encode([s], [v], sut.call(sut.encode_packed, [s], [v]), packed=True)
    for strict in (True, False):
        expect.judge_decode([s], out.value, strict, sut.call(sut.decode, [s], out.value, strict=strict))
    rec.more(4)


def refused(name, s, out):
    if out.ok:
        fail("%s accepted the invalid type %s: %s", name, s, out)
    if not isinstance(out.exc, REFUSAL) or isinstance(out.exc, (sut.EncodingError, sut.DecodingError)):
        fail("%s with the invalid type %s %s, expected a ValueError or ParseError", name, s, out)


BASES = ["int", "uint", "fixed", "ufixed", "bytes", "string", "address", "bool", "function", "byte", "hash", "foo"]
WRAP = ["%s", "%s[]", "%s[2]", "(%s)", "(uint8,%s)", "(%s,string)[]", "(bool,(%s,bytes)[2])[1][]", "%s[][3][]", "((((%s))))"]
HUGE = [301, 511, 512, 513, 1000, 1024, 65536, 2**31, 2**32, 2**64, 10**20, 10**30]


def enum(tier, seed):
    for b in BASES:
        yield ("suffix", b)
        for m in list(range(1, 266)) + HUGE:
            if tier == "quick" and m % 8 and m > 40 and m not in (255, 257, 263, 265):
                continue
            yield ("pairs", b, m)
    for b in ["uints", "Uint", "UINT", "iint", "intt", "byte", "bytess", "Bytes", "stringg", "str", "bools", "Bool", "boolean", "addr", "addresss", "ADDRESS", "fixedd", "ufix", "functions", "func", "tuple", "x", "u", "real", "ureal", "hash", "char", "void", "bytesx", "xint", "intx", "contract", "enum", "mapping"]:
        for sub in ("", "1", "8", "16", "20", "24", "32", "128", "160", "256", "8x1", "128x18", "128x128", "256x80"):
            yield ("one", b + sub)


def run_enum(case, rec):
    if case[0] == "one":
        return check(case[1], rec)
    if case[0] == "novalidate":
        return check(case[1], rec, False)
    base = case[1]
    if case[0] == "suffix":
        subs = [""] + [str(i) for i in list(range(1, 301)) + HUGE]
        for i, sub in enumerate(subs):
            for w in WRAP:
                s = w % (base + sub)
                rec.more(1)
                with narrow(("one", s)):
                    check(s, rec)
        return
    m = case[2]
    for n in list(range(1, 90)) + [128, 160, 255, 256, 257, 1000, 2**32, 10**20]:
        s = base + "%dx%d" % (m, n)
        rec.more(1)
        full = base in ("fixed", "ufixed") and (m + n) % 4 == 0 or n in (1, 18, 79, 80, 81) and (m % 8 == 0 or m < 40)
        with narrow(("one" if full else "novalidate", s)):
            check(s, rec, full)
        if full and (m + n) % 3 == 0:
            s = WRAP[(m // 8 + n) % len(WRAP)] % s
            with narrow(("one", s)):
                check(s, rec)


NUMS = [1, 2, 7, 8, 9, 16, 18, 20, 24, 31, 32, 33, 40, 64, 79, 80, 81, 127, 128, 129, 160, 248, 255, 256, 257, 264, 512, 1000, 2**32]


def draw_leaf(draw):
    b = draw(gen.S(BASES))
    k = draw(gen.I(0, 3))
    if k == 0:
        return b
    if k == 1:
        return "%s%d" % (b, draw(gen.I(1, 300)))
    if k == 2:
        return "%s%d" % (b, draw(gen.S(NUMS)))
    return "%s%dx%d" % (b, draw(gen.S(NUMS)), draw(gen.I(1, 99)))


@composite
def nested(draw):
    t = draw(gen.type_str(depth=4))
    marks = 0
    # replace a random leaf by one with a random name and suffix
    ls = list(leaves(P(t)))
    i = draw(gen.I(0, len(ls) - 1))
    new = draw_leaf(draw)
    n = [-1]

    def go(t):
        if t.kind == "el":
            n[0] += 1
            return new if n[0] == i else str(t)
        if t.kind == "arr":
            return "%s[%s]" % (go(t.item), "" if t.size is None else t.size)
        return "(%s)" % ",".join(go(c) for c in t.items)

    return go(P(t))


def run_nested(case, rec):
    check(case, rec)


@composite
def free(draw):
    for _ in range(5):
        s = gen.draw_typeish(draw)
        if classify(s)[0] != "malformed":
            return s
    return "uint8"


def run_text(case, rec):
    """Text that is no type string at all must be refused by the codecs as well."""
    if classify(case)[0] != "malformed":
        return check(case, rec)
    s = case
    rec.label("malformed")
    rec.nontrivial(s)
    for name, fn in (
        ("is_encodable_type", sut.is_encodable_type),
        ("packed is_encodable_type", sut.packed.default_encoder_packed.is_encodable_type),
    ):
        o = sut.call(fn, s)
        if not o.ok or o.value is not False:
            fail("%s(%s) %s, expected False", name, repr(s), o)
    for v in (0, b"", True, [0]):
        for name, fn in (("encode", sut.encode), ("encode_packed", sut.encode_packed)):
            refused(name, repr(s), sut.call(fn, [s], [v]))
    for strict in (True, False):
        refused("decode", repr(s), sut.call(sut.decode, [s], WORDS, strict=strict))


def special_enum(tier, seed):
    from . import c12

    for s in c12.SPECIAL + [w % b for w in WRAP for b in MALFORMED]:
        yield s


MALFORMED = [
    "uint1\u0666", "uint25\uff16", "bytes3\u0662", "int1\u06f6", "fixed128x1\u0668", "fixed12\u0668x18", "uint8[1\u0662]", "uint08", "uint8 ", " uint8", "uint\u0668", "uint\uff18", "uint8\n", "uint8[0]", "uint8[01]", "uint8[\u0662]", "bytes0", "bytes\u0663", "int-8", "fixed8x01", "fixed08x1",
    "fixed128x", "fixedx18", "fixed128X18", "fixed128\u00d718", "int 256", "uint8[ ]", "uint8[1 ]", "()", "(uint8,)", "uint+8", "uint8_", "\uff55int8", "\u0131nt8", "int\u200b8", "uint8[]\n",
    "8", "8uint", "[]", "uint8[-1]", "uint8[*]", "uint8]", "uint8[", "uint8[1", "(uint8", "uint8)", "uint8,uint8", "uint8;", "uint256 payable", "uint256 indexed", "address payable", "bool?", "bool!",
]


def parts(tier):
    return [
        Part("text", run_text, enum=special_enum),
        Part("near-types", run_text, cases=gen.typeish(), n=(5000, 100000), size=300),
        Part("grid", run_enum, enum=enum),
        Part("nested", run_nested, cases=nested(), n=(8000, 200000), size=200),
        Part("free", run_nested, cases=free(), n=(5000, 100000), size=400),
    ]
