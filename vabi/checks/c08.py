from collections import UserList, deque
from decimal import Decimal

from .. import expect, gen, ref, sut, sweeps
from ..abit import P
from ..abix import classify
from ..core import Part, Skip
from ..data import MySeq, realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are histories of 3..14 calls (encode, encode_packed, decode in both modes, is_encodable "
    "and type-level variants, refused and malformed calls) over a small pool of type lists sharing "
    "components, on the default codecs, a fresh registry copy and a codec with registered decoder "
    "instances; every call is judged by the reference as if it were the only one, arguments are "
    "compared with a snapshot, then damaged, and all results compared again at the end; or 4..6 rounds "
    "of calls that reuse the same list and bytearray objects with other content each time; or long "
    "series of many and of nearly identical types. "
    "Non-trivial: the history repeats a type list after a different operation on it; distinct by history."
)

BAD_TYPES = ["uint7", "bytes33", "foo", "uint8[", "(uint8", "", "uint08", "()", "bool8", "fixed8x81"]
SHARED = ["bytes", "string", "uint8", "int16", "bytes", "string", "bool", "bytes4", "address", "fixed16x2",
          "bytes", "string", "uint16", "int8", "uint256", "uint", "bytes1", "byte", "bytes2", "fixed8x1", "fixed8x2", "ufixed8x1", "function", "bytes24", "int", "fixed", "ufixed128x18"]
WRAP = [
    "%s", "%s[]", "%s[2]", "(%s)", "(uint8,%s)", "(%s,bytes)", "(%s,string)[]", "%s[][]", "%s[1][]", "((%s),bool)", "(%s[],%s)",
    "%s[#]", "%s[#][]", "%s[][#]", "(%s[#])", "(%s,%s)", "(%s,(%s,%s))", "((%s,%s),%s)", "(%s,%s[#])",
]


@composite
def history(draw):
    els = [draw(gen.S(SHARED)) for _ in range(draw(gen.I(1, 2)))]
    pool = []
    for _ in range(draw(gen.I(1, 4))):
        ts = []
        for _ in range(draw(gen.I(1, 2))):
            w = draw(gen.S(WRAP))
            w = w.replace("#", str(draw(gen.I(1, 4))))
            ts.append(w.replace("%s", els[draw(gen.I(0, len(els) - 1))]))
        pool.append(ts)
    ops = []
    for _ in range(draw(gen.I(3, 14))):
        ts = pool[draw(gen.I(0, len(pool) - 1))]
        k = draw(gen.I(0, 11))
        if k <= 1:
            ops.append(("enc", ts, [gen.draw_value(draw, P(t), True, False, [6]) for t in ts]))
        elif k == 2:
            ops.append(("enc", ts, [gen.draw_any(draw, P(t), 4) for t in ts]))
        elif k == 3:
            ops.append(("pack", ts, [gen.draw_any(draw, P(t), 2) for t in ts]))
        elif k <= 8:
            data, kind = _payload(draw, ts, kinds=DEC_KINDS)
            ops.append(("dec", ts, data, draw(gen.I(0, 1)) == 0, draw(gen.I(0, 1))))
        elif k == 9:
            ops.append(("isenc", ts[0], gen.draw_any(draw, P(ts[0]), 2), draw(gen.I(0, 1))))
        elif k == 10:
            ops.append(("istype", ts[0] if draw(gen.I(0, 1)) else draw(gen.S(BAD_TYPES)), draw(gen.I(0, 1))))
        else:
            bad = ts[:1] + [draw(gen.S(BAD_TYPES))]
            ops.append(("badtype", bad, draw(gen.I(0, 2))))
    return draw(gen.I(0, 2)), ops


DEC_KINDS = ["valid", "lax", "lax", "valid", "mutated", "scattered", "words"]


def _payload(draw, types, big=False, kinds=None):
    kind = draw(gen.S(kinds or gen.PAYLOAD_KINDS))
    if kind != "lax":
        return gen.draw_payload(draw, types, big, KIND1[kind])
    vals = [realize(gen.draw_value(draw, P(t), False, False, [6])) for t in types]
    data, regions = ref.layout([P(t) for t in types], vals)
    pads = [r for r in regions if r.role == "datapad"]
    if not pads:
        return data, kind
    r = pads[draw(gen.I(0, len(pads) - 1))]
    d = bytearray(data)
    d[draw(gen.I(r.start, r.end - 1))] = 0x5A
    return bytes(d), kind


KIND1 = {k: [k] for k in set(gen.PAYLOAD_KINDS)}


def eqv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, deque, UserList, MySeq)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, Decimal):
        return a.as_tuple() == b.as_tuple()
    if isinstance(a, (bytes, bytearray, str, int)):
        return a == b
    return True


def damage(v):
    """Alters every mutable container and buffer in place."""
    if isinstance(v, (list, deque, UserList)):
        for x in v:
            damage(x)
        v.clear()
        v.append(None)
    elif isinstance(v, tuple):
        for x in v:
            damage(x)
    elif isinstance(v, MySeq):
        damage(v._items)
    elif isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0xFF
        v.append(0)


def codec_for(which):
    from eth_abi.codec import ABICodec

    if which == 0:
        return sut
    if which == 1:
        return ABICodec(sut.registry.registry.copy())
    # decoder and encoder instances (not classes) registered for bytes and string
    reg = sut.registry.registry.copy()
    reg.unregister_encoder("bytes")
    reg.unregister_decoder("bytes")
    reg.unregister_decoder("string")
    reg.register_encoder(sut.registry.BaseEquals("bytes", with_sub=False), sut.encoding.ByteStringEncoder(), label="bytes")
    reg.register_decoder(sut.registry.BaseEquals("bytes", with_sub=False), sut.decoding.ByteStringDecoder(), label="bytes")
    reg.register_decoder(sut.registry.BaseEquals("string"), sut.decoding.StringDecoder(), label="string")
    return ABICodec(reg)


def run_history(case, rec):
    which, ops = case
    codec = codec_for(which)
    results = []
    seen = set()
    ctx = "after %d other calls: "
    for i, op in enumerate(ops):
        kind = op[0]
        c = ctx % i
        if kind in ("enc", "pack"):
            ts, vals = list(op[1]), realize(op[2])
            fn = sut.encode_packed if kind == "pack" else codec.encode
            out = sut.call(fn, ts, vals)
            expect.judge_encode(op[1], realize(op[2]), out, packed=kind == "pack", ctx=c)
            if ts != op[1] or not eqv(vals, realize(op[2])):
                fail("%s%s modified its arguments: %s, %s", c, kind, ts, vals)
            damage(vals)
            damage(ts)
            if out.ok:
                results.append((i, out.value, bytes(out.value)))
            key = (tuple(op[1]), kind)
        elif kind == "dec":
            _, ts0, data0, strict, ba = op
            if not expect.is_budget_ok(ts0, data0, strict, 2000):
                continue
            ts = list(ts0)
            data = bytearray(data0) if ba else bytes(data0)
            out = sut.call(codec.decode, ts, data, strict=strict)
            expect.judge_decode(ts0, data0, strict, out, ctx=c)
            if ts != ts0 or data != data0:
                fail("%sdecode modified its arguments: %s, %s", c, ts, data.hex())
            try:
                damage(data)
            except BufferError:
                fail("%sdecode(%s, ...) keeps a hold on the caller's bytearray", c, ts0)
            damage(ts)
            if out.ok:
                expect.judge_decode(ts0, data0, strict, out, ctx=c + "after the data was modified: ")
                results.append((i, out, (ts0, data0, strict)))
            key = (tuple(ts0), kind, strict)
        elif kind == "isenc":
            _, s, v, packed = op
            val = realize(v)
            faults = expect.enc_faults([s], [realize(v)])
            out = sut.call(sut.is_encodable_packed if packed else codec.is_encodable, s, val)
            if not out.ok or type(out.value) is not bool:
                fail("%sis_encodable(%s, %s) %s", c, s, v, out)
            if not faults & {ref.AMBIG, ref.NEGRES} and out.value is not (not faults):
                fail("%sis_encodable(%s, %s) %s, faults: %s", c, s, v, out, sorted(faults))
            if not eqv(val, realize(v)):
                fail("%sis_encodable modified its argument: %s", c, val)
            key = ((s,), kind)
        elif kind == "istype":
            _, s, packed = op
            fn = sut.packed.default_encoder_packed.is_encodable_type if packed else codec.is_encodable_type
            out = sut.call(fn, s)
            if not out.ok or out.value is not (classify(s)[0] == "valid"):
                fail("%sis_encodable_type(%s) %s", c, s, out)
            key = ((s,), kind)
        else:
            _, ts, how = op
            if how == 0:
                out = sut.call(codec.encode, ts, [1] * len(ts))
            elif how == 1:
                out = sut.call(codec.decode, ts, bytes(64))
            else:
                out = sut.call(sut.encode_packed, ts, [1] * len(ts))
            if out.ok or not isinstance(out.exc, (ValueError, sut.ParseError)):
                fail("%scoding with types %s %s", c, ts, out)
            key = (tuple(ts), kind)
        if any(k[0] == key[0] and k != key for k in seen):
            rec.nontrivial()
        seen.add(key)
        rec.label(kind)
    for i, val, want in results:
        if isinstance(val, sut.Out):
            expect.judge_decode(want[0], want[1], want[2], val, ctx="result of call %d at the end: " % i)
        elif val != want:
            fail("result of call %s changed later: %s", i, val.hex())
    rec.more(len(ops) - 1)


# ------------------------------------------------------------------ many and similar types

VARIANTS = [["uint8", "int16", "int24", "bytes"], ["uint16", "string", "bytes8", "uint[]"], ["bool", "int8", "byte"], ["(uint8,bool)", "(int16,bool)", "(bool,uint8)", "(uint8,byte)"]]


def similar(n, form):
    """Type strings of n components that differ in a single place."""
    vs = VARIANTS[form % len(VARIANTS)]
    base = [vs[0]] * n if form < 4 else [vs[i * i % 2] for i in range(n)]
    yield base
    for at in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} | set(range(7, n, 29))):
        for v in vs:
            if v != base[at]:
                ts = list(base)
                ts[at] = v
                yield ts


def many_enum(tier, seed):
    for n in (8, 30, 60, 150) if tier == "quick" else (8, 30, 60, 150, 400, 1000):
        for form in range(8):
            yield ("similar", n, form)
    for k in range(8):
        yield ("many", k, 700 if tier == "quick" else 5000)


def run_many(case, rec):
    kind = case[0]
    if kind == "similar":
        lists = [["(%s)" % ",".join(ts)] for ts in similar(case[1], case[2])]
        lists += [["(%s)[2]" % ",".join(ts), "bool"] for ts in list(similar(case[1], case[2]))[:9] if case[1] < 100]
        lists += [ts for ts in list(similar(case[1], case[2]))[-9:]]
    else:
        k, n = case[1], case[2]
        els = sweeps.el_types(1)
        els = els[k::8] if k % 2 else els[k * 611:] + els[:k * 611]
        els = els[:n // 2] + [sweeps.REPR_EL[i % len(sweeps.REPR_EL)] for i in range(n // 2)]
        lists = []
        for i, e in enumerate(els):
            if i < n // 2:
                lists.append([e])
            else:
                lists.append(["%s[%d]" % (e, i % 5 + 1), "(%s,uint%d)[]" % (e, i % 32 * 8 + 8)] if i % 3 else ["(%s,%s)" % (e, els[i - n // 2])])
        lists = lists + lists[::-1] + lists[::7]
    codec = codec_for(case[2] % 2)
    for i, ts in enumerate(lists):
        vals = [sweeps.fill(P(t), sweeps.Picker(i % 3), sweeps.Lens([1, 2])) for t in ts]
        rec.more(1)
        c = "%s: after the coding of %d other types: " % (case, i)
        for packed, fn in ((False, codec.encode), (True, sut.encode_packed)):
            out = sut.call(fn, ts, vals)
            expect.judge_encode(ts, vals, out, packed=packed, ctx=c)
            if not packed:
                data = out.value
        for strict in (True, False):
            out = sut.call(codec.decode, ts, data, strict=strict)
            expect.judge_decode(ts, data, strict, out, ctx=c)
            if not out.ok:
                fail("%sdecode(%s, %s) %s", c, ts, data.hex(), out)
        rec.nontrivial(case, i)
        rec.label(kind)


# ------------------------------------------------------------------ the same objects again, with other content


def lists(v, i=0):
    """The value with every container a list and every byte string a bytearray."""
    if isinstance(v, (list, tuple)):
        return [lists(x) for x in v]
    if isinstance(v, bytes):
        return bytearray(v)
    return v


def morph(old, new):
    """Gives the object the content of another, in place wherever it has the same kind."""
    if isinstance(old, list) and isinstance(new, list):
        del old[len(new):]
        for i, x in enumerate(new):
            if i < len(old):
                old[i] = morph(old[i], x)
            else:
                old.append(x)
        return old
    if isinstance(old, bytearray) and isinstance(new, bytearray):
        old[:] = new
        return old
    return new


@composite
def reuse_case(draw):
    ts = [draw(gen.S(WRAP)).replace("#", str(draw(gen.I(1, 4)))).replace("%s", draw(gen.S(SHARED))) for _ in range(draw(gen.I(1, 3)))]
    vals = [[gen.draw_value(draw, P(t), False, False, [8]) for t in ts] for _ in range(draw(gen.I(2, 4)))]
    if draw(gen.I(0, 1)):
        # differing in one argument only, or in a type only
        for v in vals[1:]:
            keep = draw(gen.I(0, len(ts) - 1))
            for i in range(len(ts)):
                if i != keep:
                    v[i] = vals[0][i]
    ts2 = [draw(gen.S(WRAP)).replace("#", "2").replace("%s", draw(gen.S(SHARED))) for _ in ts]
    v2 = [gen.draw_value(draw, P(t), False, False, [8]) for t in ts2]
    return ts, vals, ts2, v2, draw(gen.I(0, 2)), draw(gen.I(0, 1))


def run_reuse(case, rec):
    ts, vals, ts2, v2, which, packed = case
    codec = codec_for(which)
    types, args, data = list(ts), [], bytearray()
    steps = [(ts, realize(v)) for v in vals] + [(ts2, realize(v2)), (ts, realize(vals[0]))]
    for n, (t, v) in enumerate(steps):
        c = "the same list objects with new content, call %d: " % n
        args = morph(args, lists(v))
        types[:] = t
        fresh = lists(v)
        if not eqv(args, fresh):
            fail("harness: morph")
        for name, fn, pk in (("encode", codec.encode, False), ("encode_packed", sut.encode_packed, True))[:1 + packed]:
            out = sut.call(fn, types, args)
            expect.judge_encode(t, fresh, out, packed=pk, ctx=c)
            if not out.ok:
                fail("%s%s(%s, %s) %s", c, name, t, fresh, out)
            if not pk:
                enc = out.value
        for s, a in zip(t, args):
            out = sut.call(codec.is_encodable, s, a)
            if not out.ok or out.value is not True:
                fail("%sis_encodable(%s, %s) %s", c, s, a, out)
        data[:] = enc
        for strict in (True, False):
            out = sut.call(codec.decode, types, data, strict=strict)
            expect.judge_decode(t, enc, strict, out, ctx=c)
        if types != list(t) or not eqv(args, fresh) or data != enc:
            fail("%sarguments were modified: %s, %s, %s", c, types, args, data.hex())
    if any(isinstance(x, (list, bytearray)) for x in args):
        rec.nontrivial()
    rec.label("reuse")
    rec.more(len(steps) - 1)


def parts(tier):
    return [
        Part("reuse", run_reuse, cases=reuse_case(), n=(4000, 100000), size=500),
        Part("many-types", run_many, enum=many_enum),
        Part("histories", run_history, cases=history(), n=(16000, 500000), size=700),
    ]
