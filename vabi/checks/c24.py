from .. import expect, gen, ref, sut
from ..abit import P
from ..abix import classify
from ..core import Part, Skip, narrow
from ..data import Special, realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are calls of encode, encode_packed and decode (module functions and codecs over registry "
    "copies) with zero or more malformed arguments: a container or data object of a wrong class "
    "(all kinds of falsy, iterable and sequence-like objects), 0..40 types with a different number of "
    "values, and lists of types with bad entries at any position; or no malformed argument, judged by "
    "the reference. Every object class is also swept in every position. "
    "Non-trivial: at least one argument is malformed or the type list is empty; distinct by case."
)

# objects that are no list or tuple; items are spliced in where "@" stands
BAD_LISTS = [
    None, "", "uint8", "uint8,bool", b"", b"uint8", bytearray(b""), 0, 1, 1.5, True, False, {},
    {"uint8": 1}, {0: "uint8", 1: "bool"},
    Special("set"), Special("set", "uint8"), Special("frozenset"), Special("frozenset", "uint8", "bool"),
    Special("gen"), Special("gen", "uint8"), Special("gen", "uint8", "bool"), Special("iter"), Special("iter", "uint8", "bool"),
    Special("dictvals"), Special("dictvals", "uint8", "bool"), Special("deque"), Special("deque", "uint8", "bool"),
    Special("userlist"), Special("userlist", "uint8", "bool"), Special("myseq"), Special("myseq", "uint8", "bool"),
    Special("lying"), Special("lying", "uint8"), Special("range", 0, 0), Special("range", 0, 2), Special("mystr", "uint8"),
    Special("mybytes", b"ab"), Special("memoryview", b""), Special("memoryview", b"ab"), Special("array"), Special("array", 1, 2), Special("object"),
    Special("opaque"), Special("type"), Special("func"), Special("ellipsis"), Special("exc"), Special("fraction", 1, 2),
]
BAD_DATA = [
    None, "", "0x00", "00" * 32, "\0" * 32, 0, 1, True, False, 1.5, [], [0] * 32, (), (0,) * 32, {}, {0: 0},
    Special("memoryview", b""), Special("memoryview", bytes(64)), Special("array", 1, 2, 3, 4), Special("array"), Special("byteslike", bytes(64)),
    Special("mystr", "00"), Special("range", 0, 0), Special("range", 0, 64), Special("gen", 0), Special("userlist", 0), Special("userlist"), Special("deque", 0),
    Special("myseq", *[0] * 32), Special("set"), Special("set", 1), Special("object"), Special("type"), Special("lying", *[0] * 32), Special("intlike", 64), Special("ellipsis"),
]
BAD_ENTRIES = [
    None, 0, 1, 8, True, 1.5, b"uint8", bytearray(b"uint8"), ["uint8"], ("uint8",), [], (), {}, "", "foo", "uint7", "uint8[", "(uint8",
    "uint8]", "uint 8", " uint8", "uint8 ", "uint08", "()", "[]", "(,)", "(uint8,)", "uint8,bool", "uint264", "bytes0", "bytes33", "bool8",
    "string1", "address20", "fixed8", "fixed128x", "fixed8x81", "uint8[0]", "uint8[-1]", "uint8[01]", "()[]", "uint8\n", "uint8\0", "UINT8",
    "tuple(uint8)", "*", "u\u0660", "uint\u0668", "0", "8", "x", "uint8[][", "(uint8)(bool)", "(((uint8))", Special("set"), Special("object"),
    Special("type"), Special("mybytes", b"uint8"), Special("myseq", "uint8"), Special("iter", "uint8"),
]
GOOD_LIST = ["list", "tuple", "mylist", "mytuple"]
POOL = ["uint8", "bool", "bytes", "string", "bytes2", "address", "int16[]", "(uint8,string)", "bytes[2]", "(bool)[]", "uint", "fixed8x1", "byte", "uint256[3]"]


def wrap(kind, items):
    if kind == "list":
        return list(items)
    if kind == "tuple":
        return tuple(items)
    return Special(kind, *items)


NTYPES = [0, 1, 2, 3, 1, 2, 5, 9, 0, 40]
FNS = ["encode", "decode", "pack", "codec-encode", "codec-decode", "codec-pack"]


@composite
def calls(draw):
    fn = draw(gen.S(FNS))
    n = draw(gen.S(NTYPES))
    types = [draw(gen.S(POOL)) for _ in range(n)]
    vals = [gen.draw_value(draw, P(t), True, False, [4]) for t in types]
    faults = []
    # at most three different malformations, often none or one
    for _ in range(draw(gen.S(NFAULTS))):
        k = draw(gen.I(0, 6))
        if k == 0:
            faults.append("types")
        elif k == 1:
            faults.append("args")
        elif k <= 3:
            faults.append("arity")
        elif k <= 5:
            faults.append("entry")
        else:
            faults.append("value")
    faults = set(faults)
    if "entry" in faults:
        bad = draw(gen.S(BAD_ENTRIES))
        at = draw(gen.I(0, max(n - 1, 0)))
        if types and draw(gen.I(0, 1)):
            types[at] = bad
        else:
            types.insert(at, bad)
            vals.insert(at, draw(gen.S(gen.JUNK)))
    if "value" in faults and vals:
        vals[draw(gen.I(0, len(vals) - 1))] = draw(gen.S(gen.JUNK))
    if "arity" in faults:
        k = draw(gen.I(0, 5))
        if k <= 1 and vals:
            del vals[draw(gen.I(0, len(vals) - 1))]
        elif k == 2:
            vals = []
        elif k == 3:
            vals = vals + [draw(gen.S(gen.JUNK)) for _ in range(draw(gen.I(1, 3)))]
        elif k == 4 and types:
            del types[draw(gen.I(0, len(types) - 1))]
        else:
            vals = vals + vals
    ts = draw(gen.S(BAD_LISTS)) if "types" in faults else wrap(draw(gen.S(GOOD_LIST)), types)
    if "args" in faults:
        a = draw(gen.S(BAD_DATA if "decode" in fn else BAD_LISTS))
    elif "decode" in fn:
        good = [t for t in types if type(t) is str and classify(t)[0] == "valid"]
        data, _ = gen.draw_payload(draw, good, False, KINDS)
        a = bytearray(data) if draw(gen.I(0, 1)) else data
        if draw(gen.I(0, 5)) == 0:
            a = Special("mybytes", bytes(a))
    else:
        a = wrap(draw(gen.S(GOOD_LIST)), vals)
    return fn, ts, a


NFAULTS = [0, 1, 1, 1, 1, 2, 3]
KINDS = ["valid", "valid", "mutated"]


def fixed_calls():
    """Every object in every position."""
    good = [[], ["uint8"], ["uint8", "bool"], ["string"], ["uint8[]", "bytes2", "(bool,string)"]]
    for fn in FNS:
        second = bytes(64) if "decode" in fn else []
        for o in BAD_LISTS:
            yield fn, o, second
            if "decode" not in fn:
                yield fn, o, [1]
                yield fn, o, [1, True]
        for ts in good:
            for o in BAD_DATA if "decode" in fn else BAD_LISTS:
                yield fn, ts, o
                yield fn, tuple(ts), o
            if "decode" in fn:
                continue
            for o in gen.JUNK:
                # values are always a list or tuple
                for k in range(6):
                    if k != len(ts):
                        yield fn, ts, [o] * k
                        yield fn, tuple(ts), (o,) * k
        for bad in BAD_ENTRIES:
            for n in range(4):
                for at in range(n + 1):
                    ts = ["uint8"] * n
                    ts.insert(at, bad)
                    yield fn, ts, second if "decode" in fn else [1] * (n + 1)
                    yield fn, tuple(ts), second if "decode" in fn else (1,) * (n + 1)


def sweep(tier, seed):
    batch = []
    for c in fixed_calls():
        batch.append(c)
        if len(batch) == 40:
            yield batch
            batch = []
    yield batch


def run_sweep(batch, rec):
    if isinstance(batch, tuple):
        return run_call(batch, rec)
    for c in batch:
        with narrow(c):
            run_call(c, rec)
    rec.more(len(batch) - 1)


def is_list(v):
    return isinstance(v, (list, tuple))


def plain(v):
    return [x for x in v]


_codecs = []


def codecs():
    if not _codecs:
        from eth_abi.codec import ABICodec, ABIEncoder

        _codecs.append(ABICodec(sut.registry.registry.copy()))
        _codecs.append(ABIEncoder(sut.registry.registry_packed.copy()))
    return _codecs


def run_call(case, rec):
    fn, ts, a = case
    std, pk = codecs()
    f = {
        "encode": sut.encode, "decode": sut.decode, "pack": sut.encode_packed,
        "codec-encode": std.encode, "codec-decode": std.decode, "codec-pack": pk.encode,
    }[fn]
    rt, ra = realize(ts), realize(a)
    dec = "decode" in fn
    if dec and is_list(rt) and isinstance(ra, (bytes, bytearray)) and all(
        isinstance(t, str) and classify(str(t))[0] == "valid" for t in rt
    ) and not expect.is_budget_ok([str(t) for t in rt], bytes(ra), True, 3000):
        raise Skip
    out = sut.call(f, rt, ra)
    rt, ra = realize(ts), realize(a)
    allowed = ()
    types_ok, args_ok = is_list(rt), isinstance(ra, (bytes, bytearray)) if dec else is_list(ra)
    if not types_ok or not args_ok:
        allowed += (TypeError,)
    if types_ok:
        bad = [t for t in rt if not isinstance(t, str) or classify(str(t))[0] != "valid"]
        if bad:
            allowed += (ValueError, sut.ParseError, TypeError)
            rec.label("bad-entry")
        if args_ok and not dec and len(rt) != len(ra):
            allowed += (sut.ValueOutOfBounds,)
            rec.label("arity")
    if allowed:
        rec.nontrivial(repr(case))
        rec.label("malformed-" + fn)
        if out.ok or not isinstance(out.exc, allowed):
            fail("%s(%s, %s) %s, expected %s", fn, rt, ra, out, sorted(c.__name__ for c in allowed))
        return
    rec.label("well-formed-" + fn)
    types = [str(t) for t in rt]
    if not types:
        rec.nontrivial(repr(case))
        if dec:
            if not out.ok or type(out.value) is not tuple or out.value != ():
                fail("%s(%s, %s) %s, expected ()", fn, rt, ra, out)
        elif not out.ok or type(out.value) is not bytes or out.value != b"":
            fail("%s(%s, %s) %s, expected b''", fn, rt, ra, out)
        return
    if dec:
        expect.judge_decode(types, bytes(ra), True, out, ctx=fn + ": ")
    else:
        expect.judge_encode(types, plain(ra), out, packed="pack" in fn, ctx=fn + ": ")


def parts(tier):
    return [
        Part("positions", run_sweep, enum=sweep),
        Part("calls", run_call, cases=calls(), n=(60000, 2000000), size=400),
    ]
