from .. import gen, ref, sut, sweeps
from ..abit import P, dynamic
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are types with in-domain values (and a split point, and junk to append). The composition "
    "laws are checked between several encodings produced by the code under test itself: T[k] vs the "
    "tuple of k T's, T[] vs T[k], argument lists vs single tuples, concatenation of static and of "
    "packed encodings, whole words, indifference to appended bytes. Non-trivial: a container with at "
    "least two words or a dynamic type; distinct by types and encoding."
)


def must(fn, *a, **k):
    out = sut.call(fn, *a, **k)
    if not out.ok:
        fail("%s%s %s", fn.__name__, repr(a)[:300], out)
    return out.value


def eq(law, a, b, *what):
    if a != b:
        fail("%s: %s != %s for %s", law, a.hex(), b.hex(), what)


def payload(ts, v):
    """Encoding of the single value without the offset word in front of dynamic ones."""
    e = must(sut.encode, [ts], [v])
    if dynamic(P(ts)):
        if e[:32] != ref.word(32):
            fail("encode([%s]) of a dynamic value starts with %s, not the word 0x20", ts, e[:32].hex())
        return e[32:]
    return e


def laws(types, vals, split, junk, rec):
    ts = [P(t) for t in types]
    whole = must(sut.encode, types, vals)
    packed = must(sut.encode_packed, types, vals)
    if len(whole) % 32:
        fail("encode(%s, %s) has %d bytes, not a whole number of words", types, vals, str(len(whole)))
    if len(whole) > 32:
        rec.nontrivial(tuple(types), whole)
    if types:
        tup = "(%s)" % ",".join(types)
        eq("argument list vs tuple payload", whole, payload(tup, tuple(vals)), types, vals)
        eq("packed argument list vs packed tuple", packed, must(sut.encode_packed, [tup], [tuple(vals)]), types, vals)
        # the tuple inside a tuple: transparent when static, behind an offset otherwise
        eq("tuple in a tuple", must(sut.encode, ["(%s)" % tup], [(tuple(vals),)]), (ref.word(32) if dynamic(P(tup)) else b"") + must(sut.encode, [tup], [vals]), types, vals)
    a, b = types[:split], types[split:]
    va, vb = vals[:split], vals[split:]
    eq("packed concatenation", packed, must(sut.encode_packed, a, va) + must(sut.encode_packed, b, vb), types, vals, split)
    ea, eb = must(sut.encode, a, va), must(sut.encode, b, vb)
    if not any(dynamic(t) for t in ts[:split]):
        # a static prefix only shifts the offsets in the rest
        n = len(ea)
        shifted = shift(ts[split:], eb, n)
        eq("static prefix", whole, ea + shifted, types, vals, split)
        rec.label("static-prefix")
    if not any(dynamic(t) for t in ts):
        eq("static concatenation", whole, ea + eb, types, vals, split)
        rec.label("static")
    for t, ty, v in zip(types, ts, vals):
        one(t, ty, v, rec, 2)
    for strict in (True, False):
        plain = must(sut.decode, types, whole, strict=strict)
        for j in junk:
            more = must(sut.decode, types, whole + j, strict=strict)
            if not ref.same(plain, more):
                fail("decode(%s) of an encoding with %s appended = %s, without %s", types, j.hex(), more, plain)


def shift(ts, e, n):
    """e with the top-level offsets in its head increased by n."""
    from ..abit import head_words

    out, pos = bytearray(e), 0
    for t in ts:
        if dynamic(t):
            out[pos:pos + 32] = ref.word(int.from_bytes(e[pos:pos + 32], "big") + n)
        pos += 32 * head_words(t)
    return bytes(out)


def one(s, t, v, rec, levels):
    if t.kind == "el" or levels == 0:
        return
    if t.kind == "tup":
        for c, x in zip(t.items, v):
            one(str(c), c, x, rec, levels - 1)
        return
    item = str(t.item)
    k = len(v)
    if k > 70:
        return
    rec.label("array")
    if k:
        sized = payload("%s[%d]" % (item, k), v)
        tup = payload("(%s)" % ",".join([item] * k), tuple(v))
        eq("sized array vs tuple", sized, tup, item, v)
        eq("packed sized array vs tuple", must(sut.encode_packed, ["%s[%d]" % (item, k)], [v]), must(sut.encode_packed, ["(%s)" % ",".join([item] * k)], [tuple(v)]), item, v)
        eq("sized array vs argument list", sized, must(sut.encode, [item] * k, list(v)), item, v)
    else:
        sized = b""
    eq("dynamic array vs length and sized array", must(sut.encode, [item + "[]"], [v]), ref.word(32) + ref.word(k) + sized, item, v)
    eq("packed dynamic array vs its items", must(sut.encode_packed, [item + "[]"], [v]), b"".join(must(sut.encode_packed, [item], [x]) for x in v), item, v)
    for x in list(v)[:2]:
        one(item, t.item, x, rec, levels - 1)


JUNK = [b"\x00", b"\xff" * 31, bytes(32), b"\xff" * 32, b"ab" * 20, ref.word(32) * 3]


def run_sweep(case, rec):
    cases = sweeps.expand(case)
    rec.more(len(cases) - 1)
    for types, vals in cases:
        with narrow(("args", types, vals)):
            laws(types, realize(vals), len(types) // 2, JUNK[:2], rec)


def enum(tier, seed):
    yield from sweeps.elementary(tier, seed, 16 if tier == "quick" else 1)
    yield from sweeps.containers(tier, seed)
    yield from sweeps.multis(tier, seed)
    yield from sweeps.lengths(tier, seed, tier != "quick")
    yield from sweeps.deep(tier, seed)
    yield from sweeps.wide(tier, seed, None if tier != "quick" else (9, 17, 33, 70))
    for i, case in enumerate(sweeps.broad(tier, seed)):
        if tier != "quick" or i % 3 == seed % 3:
            yield case


@composite
def args(draw):
    types, vals = draw(gen.typed_args(max_len=4, min_len=0, depth=3))
    return types, vals, draw(gen.I(0, len(types))), [draw(gen.S(JUNK)), draw(gen.BIN70)]


def run_random(case, rec):
    types, vals, split, junk = case
    laws(types, realize(vals), split, junk, rec)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=enum),
        Part("random", run_random, cases=args(), n=(8000, 250000)),
    ]
