from .. import gen, ht, ref, sut
from ..abit import P
from ..core import Part
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are nested types (arrays, tuples, depth up to 4) over custom leaves - plain callables, "
    "coder classes and coder instances, static of 0..4 words, of 1, 5 and 47 bytes, or dynamic, some using the coders of other types, some false as objects or with results such as None, mixed with built-in types - "
    "with values or planted coder errors (before, during and after validation; the call is then repeated with good values), compared with a generic head/tail model; and keyword-"
    "argument grids over the library's coder classes, including that settings stay with their object. Non-trivial: a custom leaf sits inside a "
    "container, or the construction must be refused; distinct by type and values."
)


class Boom(Exception):
    """An application error raised by a custom coder."""


BOOM = 666  # makes a custom coder raise Boom
BADV = 777  # makes a custom encoder raise an EncodingError
LATE = 888  # makes a custom encoder raise Boom when it encodes, having found nothing wrong before

# name -> (dynamic, words or None)
LEAVES = {
    "kone": (False, 1), "ktwo": (False, 2), "cone": (False, 1), "cw2": (False, 2), "cw3": (False, 3),
    "wide": (False, 2), "ione": (False, 1), "kdyn": (True, None), "cdyn": (True, None), "idyn": (True, None),
    "uint8": (False, 1), "bytes": (True, None), "string": (True, None),
    # their coder classes look up the coders of other types, in both directions
    "lone": (False, 1), "lfour": (False, 4), "ldyn": (True, None),
    # a constant: takes no room at all
    "kunit": (False, 0), "cunit": (False, 0),
    # narrower than a word, or not a whole number of words
    "kbyte": (False, None), "cfive": (False, None), "klong": (False, None),
    # coder objects that are false, with results such as None
    "kfalse": (False, 1), "dfalse": (True, None),
}
RESULTS = [None, False, 0, "", (), b"", [], 0.0, Ellipsis, NotImplemented, True, 1, "x", (None,)]
WIDTH = {"kbyte": 1, "cfive": 5, "klong": 47}
POOL = ["kone", "ktwo", "cone", "cw2", "cw3", "wide", "ione", "kdyn", "cdyn", "idyn", "lone", "lfour", "ldyn", "kunit", "cunit", "kbyte", "cfive", "klong", "kfalse", "dfalse"] * 3 + ["uint8", "bytes", "string"]


def zlen(v):
    return 75 if v == BOOM else v % 70


def body(name, v):
    if name == "uint8":
        return ref.word(v % 200)
    if name in ("bytes", "string", "ldyn"):
        b = b"z" * (zlen(v))
        return ref.word(len(b)) + b + bytes(-len(b) % 32)
    if name == "lone":
        return ref.word(v)
    if name == "lfour":
        return ref.word(v) + ref.word(v % 2) + ref.word(v + 1) + ref.word((v + 1) % 2)
    if name == "dfalse":
        return ref.word(v)
    if LEAVES[name][0]:
        # v % 4 words after a count word
        return ref.word(v % 4) + b"".join(ref.word(v + i) for i in range(v % 4))
    if name in WIDTH:
        return bytes([0xEE if v == BOOM else v % 200]) * WIDTH[name]
    n = LEAVES[name][1]
    if name == "wide":
        return v.to_bytes(64, "big")
    return b"".join(ref.word(v + 1000 * i) for i in range(n))


def decoded(name, v):
    if name == "uint8":
        return v % 200
    if name == "bytes":
        return b"z" * (zlen(v))
    if name == "string":
        return "z" * (zlen(v))
    if name == "ldyn":
        return ["z" * (zlen(v))]
    if name in ("kfalse", "dfalse"):
        return RESULTS[v % len(RESULTS)]
    if name == "lone":
        return [v]
    if name == "lfour":
        return [(v, bool(v % 2)), (v + 1, bool((v + 1) % 2))]
    if LEAVES[name][0]:
        return tuple(v + i for i in range(v % 4))
    if LEAVES[name][1] == 0:
        return name
    if name in WIDTH:
        return (name, v % 200)
    if name == "wide":
        return v
    return (name, v)


def arg(name, v):
    if name in ("uint8", "bytes", "string"):
        return decoded(name, v)
    return v


def leaf(t):
    n = str(t)
    return LEAVES[n][0], lambda v: body(n, v)


_codec = []


def codec():
    if _codec:
        return _codec[0]
    from eth_abi.codec import ABICodec

    E, D = sut.encoding, sut.decoding
    reg = sut.registry.registry.copy()

    def guard(v):
        if v == BOOM:
            raise Boom("encoder")
        if v == BADV or not isinstance(v, int) or isinstance(v, bool):
            raise sut.EncodingTypeError("refused")

    def late(v):
        if v == LATE:
            raise Boom("late")

    def enc_call(name):
        def fn(v):
            guard(v)
            late(v)
            return body(name, v)

        return fn

    def read(stream, n):
        b = stream.read(n)
        if len(b) != n:
            raise sut.InsufficientDataBytes("custom")
        return b

    def dec_static(name):
        def fn(stream):
            if name in WIDTH:
                b = read(stream, WIDTH[name])
                if b == b"\xee" * len(b):
                    raise Boom("decoder")
                if b != b[:1] * len(b):
                    raise sut.DecodingError("custom")
                return (name, b[0])
            b = read(stream, 32 * LEAVES[name][1])
            v = int.from_bytes(b[:32], "big")
            if v == BOOM:
                raise Boom("decoder")
            return (name, v)

        return fn

    def dec_dyn(stream):
        n = int.from_bytes(read(stream, 32), "big")
        vals = tuple(int.from_bytes(read(stream, 32), "big") for _ in range(min(n, 5)))
        if vals and vals[0] == BOOM:
            raise Boom("decoder")
        return vals

    def kdyn_enc(v):
        guard(v)
        late(v)
        return body("kdyn", v)

    def kdyn_dec(stream):
        return dec_dyn(stream)

    kdyn_enc.is_dynamic = True
    kdyn_dec.is_dynamic = True

    class Enc(E.BaseEncoder):
        name = None

        def validate_value(self, value):
            guard(value)

        def encode(self, value):
            self.validate_value(value)
            late(value)
            return body(self.name, value)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(name=type_str)

    class Dec(D.BaseDecoder):
        name = None

        def decode(self, stream):
            return dec_static(self.name)(stream)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(name=type_str)

    class DynEnc(Enc):
        is_dynamic = True

    class DynDec(Dec):
        is_dynamic = True

        def decode(self, stream):
            return dec_dyn(stream)

    class WideEnc(E.UnsignedIntegerEncoder):
        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(value_bit_size=512, data_byte_size=64)

        def validate_value(self, value):
            guard(value)
            super().validate_value(value)

        def encode(self, value):
            self.validate_value(value)
            late(value)
            return super().encode(value)

    class WideDec(D.UnsignedIntegerDecoder):
        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(value_bit_size=512, data_byte_size=64)

        def validate_padding_bytes(self, value, padding_bytes):
            if value == BOOM:
                raise Boom("decoder")
            super().validate_padding_bytes(value, padding_bytes)

    class LookEnc(Enc):
        item = None

        def encode(self, value):
            self.validate_value(value)
            late(value)
            if self.name == "lone":
                return self.item(value)
            if self.name == "ldyn":
                return self.item("z" * (zlen(value)))
            return self.item(decoded("lfour", value))

        @classmethod
        def from_type_str(cls, type_str, registry):
            registry.get_decoder(LOOK[type_str])
            registry.get_decoder(LOOK[type_str], strict=False)
            if not registry.has_encoder(LOOK[type_str]) or registry.has_encoder("nope"):
                raise Boom("has_encoder")
            return cls(name=type_str, item=registry.get_encoder(LOOK[type_str]))

    class LookDec(Dec):
        item = None
        back = None

        def decode(self, stream):
            v = self.item(stream)
            # checks what it read by encoding it again
            first = v[0][0] if self.name == "lfour" else v
            if self.back(v) != body(self.name, first if self.name != "ldyn" else BOOM if len(v) == 75 else len(v)):
                raise sut.DecodingError("encoding back")
            if first == BOOM or self.name == "ldyn" and len(v) == 75:
                raise Boom("decoder")
            return list(v) if self.name == "lfour" else [v]

        @classmethod
        def from_type_str(cls, type_str, registry):
            if not registry.has_encoder(LOOK[type_str]) or registry.has_encoder("nope"):
                raise Boom("has_encoder")
            return cls(name=type_str, item=registry.get_decoder(LOOK[type_str]), back=registry.get_encoder(LOOK[type_str]))

    class DynLookEnc(LookEnc):
        is_dynamic = True

    class DynLookDec(LookDec):
        is_dynamic = True

    def kunit_enc(v):
        guard(v)
        late(v)
        return b""

    class UnitDec(Dec):
        def decode(self, stream):
            return self.name

    class False_:
        def __init__(self, fn):
            self.fn = fn

        def __len__(self):
            return 0

        def __call__(self, x):
            return self.fn(x)

    class DynFalse(False_):
        is_dynamic = True

    def dec_false(stream):
        v = int.from_bytes(read(stream, 32), "big")
        if v == BOOM:
            raise Boom("decoder")
        return RESULTS[v % len(RESULTS)]

    reg.register("kfalse", False_(enc_call("kfalse")), False_(dec_false))
    reg.register("dfalse", DynFalse(enc_call("dfalse")), DynFalse(dec_false))
    reg.register("kbyte", enc_call("kbyte"), dec_static("kbyte"))
    reg.register("klong", enc_call("klong"), dec_static("klong"))
    reg.register("cfive", Enc, Dec)
    reg.register("kunit", kunit_enc, lambda stream: "kunit")
    reg.register("cunit", Enc, UnitDec)
    reg.register("lone", LookEnc, LookDec)
    reg.register(sut.registry.BaseEquals("lfour"), LookEnc, LookDec, label="lfour")
    reg.register("ldyn", DynLookEnc, DynLookDec)
    reg.register("kone", enc_call("kone"), dec_static("kone"))
    reg.register("ktwo", enc_call("ktwo"), dec_static("ktwo"))
    reg.register("cone", Enc, Dec)
    reg.register(sut.registry.BaseEquals("cw", with_sub=True), Enc, Dec, label="cw")
    reg.register(lambda s: s == "wide", WideEnc, WideDec, label="wide")
    reg.register("ione", Enc(name="ione"), Dec(name="ione"))
    reg.register("kdyn", kdyn_enc, kdyn_dec)
    reg.register("cdyn", DynEnc, DynDec)
    reg.register(sut.registry.Equals("idyn"), DynEnc(name="idyn"), DynDec(name="idyn"))
    _codec.append(ABICodec(reg))
    _codec.append(reg)
    return _codec[0]


LOOK = {"lone": "uint16", "lfour": "(uint16,bool)[2]", "ldyn": "string"}


def draw_vals(draw, t, budget, bad):
    """bad: [remaining faults]"""
    if t.kind == "el":
        budget[0] -= 1
        v = draw(gen.I(0, 400))
        return v
    n = len(t.items) if t.kind == "tup" else t.size
    if n is None:
        n = draw(gen.I(0, 3)) if budget[0] > 0 else 0
    return [draw_vals(draw, t.items[i] if t.kind == "tup" else t.item, budget, bad) for i in range(n)]


def plant(t, v, k, what):
    """Replaces the k-th custom leaf value."""
    count = [0]

    def go(t, v):
        if t.kind == "el":
            if str(t) in ("uint8", "bytes", "string"):
                return v
            count[0] += 1
            return what if count[0] - 1 == k else v
        return [go(t.items[i] if t.kind == "tup" else t.item, x) for i, x in enumerate(v)]

    out = go(t, v)
    return out, count[0]


def void(t):
    if t.kind == "el":
        return LEAVES[str(t)][1] == 0
    return void(t.item) and t.size is not None if t.kind == "arr" else all(map(void, t.items))


def void_items(t):
    if t.kind == "el":
        return False
    return void(t.item) or void_items(t.item) if t.kind == "arr" else any(map(void_items, t.items))


@composite
def case(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3, words=14, only=POOL))
    # arrays of items that take no room could be refused as longer than the data
    types = [t.replace("unit", "one") if void_items(P(t)) else t for t in types]
    budget = [14]
    vals = [draw_vals(draw, P(t), budget, None) for t in types]
    fault = None
    if draw(gen.I(0, 2)) == 0:
        i = draw(gen.I(0, len(types) - 1))
        _, n = plant(P(types[i]), vals[i], -1, None)
        if n:
            fault = [i, draw(gen.I(0, n - 1)), [BOOM, BADV, "junk", None, BOOM, LATE, LATE][draw(gen.I(0, 6))]]
    return types, vals, fault


def run(case, rec):
    types, vals, fault = case
    c = codec()
    ts = [P(t) for t in types]
    if any(t.kind != "el" and any(str(x) not in ("uint8", "bytes", "string") for x in ht.leaf_types(t)) for t in ts):
        rec.nontrivial()
    args = [ht.mapval(t, v, lambda l, x: arg(str(l), x)) for t, v in zip(ts, vals)]
    data = ht.args(ts, vals, leaf)
    for t in types:
        o = sut.call(c.is_encodable_type, t)
        if not o.ok or o.value is not True:
            fail("is_encodable_type(%s) %s with custom coders", t, o)
    def works(when):
        out = sut.call(c.encode, types, args)
        if not out.ok or out.value != data:
            fail("encode(%s, %s) with custom coders%s %s, expected %s", types, args, when, out, data.hex())
        want = tuple(ht.mapval(t, v, lambda l, x: decoded(str(l), x)) for t, v in zip(ts, vals))
        for strict in (True, False):
            out = sut.call(c.decode, types, data, strict=strict)
            if not out.ok or out.value != want:
                fail("decode(%s, %s, strict=%s) with custom coders%s %s, expected %s", types, data.hex(), strict, when, out, want)

    if fault is None:
        works("")
        # the coder objects of the types on their own
        reg = _codec[1]
        for t, tt, v, a in zip(types, ts, vals, args):
            own = ht.enc(tt, v, leaf)
            o = sut.call(reg.get_encoder(t), a)
            if not o.ok or o.value != own:
                fail("the encoder object of %s on %s %s, expected %s", t, a, o, own.hex())
            want = ht.mapval(tt, v, lambda l, x: decoded(str(l), x))
            for strict in (True, False):
                stream = sut.decoding.ContextFramesBytesIO(own)
                o = sut.call(reg.get_decoder(t, strict=strict), stream)
                if not o.ok or o.value != want:
                    fail("the decoder object (strict=%s) of %s on %s %s, expected %s", strict, t, own.hex(), o, want)
        for t, a in zip(types, args):
            o = sut.call(c.is_encodable, t, a)
            if not o.ok or o.value is not True:
                fail("is_encodable(%s, %s) %s with custom coders", t, a, o)
        # data that ends early: the custom (or built-in) reader's error comes through
        if data:
            o = sut.call(c.decode, types, data[:-32])
            if o.ok or not isinstance(o.exc, sut.DecodingError):
                fail("decode(%s, truncated %s) with custom coders %s", types, data[:-32].hex(), o)
        rec.label("round-trip")
        return
    i, k, what = fault
    bad, _ = plant(ts[i], vals[i], k, what)
    badargs = list(args)
    badargs[i] = ht.mapval(ts[i], bad, lambda l, x: arg(str(l), x) if isinstance(x, int) else x)
    out = sut.call(c.encode, types, badargs)
    want = Boom if what in (BOOM, LATE) else sut.EncodingTypeError
    if out.ok or type(out.exc) is not want:
        fail("encode(%s, %s) with a refusing custom encoder %s, expected %s", types, badargs, out, want.__name__)
    if what == LATE:
        # a failure halfway leaves nothing behind
        works(" after one that failed while it encoded")
        rec.label("error-late")
        return
    o = sut.call(c.is_encodable, types[i], badargs[i])
    if what == BOOM:
        if o.ok or type(o.exc) is not Boom:
            fail("is_encodable(%s, %s) %s, expected the custom encoder's error", types[i], badargs[i], o)
        hit = []
        ht.mapval(ts[i], bad, lambda l, x: hit.append(str(l)) if x == BOOM else None)
        works(" after one that failed")
        if all(LEAVES[n][1] == 0 for n in hit):
            rec.label("error-unit")
            return
        # the same payload makes the custom decoder fail (not for kdyn of 666 % 4 == 2 words: it does)
        bdata = ht.args(ts, vals[:i] + [bad] + vals[i + 1:], leaf)
        for strict in (True, False):
            o = sut.call(c.decode, types, bdata, strict=strict)
            if o.ok or type(o.exc) is not Boom:
                fail("decode(%s, %s, strict=%s) with a failing custom decoder %s, expected its error", types, bdata.hex(), strict, o)
        works(" after a decoder that failed")
    elif not o.ok or o.value is not False:
        fail("is_encodable(%s, %s) %s, expected False", types[i], badargs[i], o)
    rec.label("error-%s" % want.__name__)


# ---- construction

ENC_INT = ["UnsignedIntegerEncoder", "SignedIntegerEncoder", "PackedUnsignedIntegerEncoder", "PackedSignedIntegerEncoder"]
ENC_FIX = ["UnsignedFixedEncoder", "SignedFixedEncoder", "PackedUnsignedFixedEncoder", "PackedSignedFixedEncoder"]
DEC_INT = ["UnsignedIntegerDecoder", "SignedIntegerDecoder"]
DEC_FIX = ["UnsignedFixedDecoder", "SignedFixedDecoder"]
OTHER = ["BytesEncoder", "PackedBytesEncoder", "BytesDecoder"]
BITS = [None, 1, 4, 7, 8, 9, 12, 16, 31, 32, 63, 64, 65, 128, 248, 255, 256, 257, 264, 320, 512, 520]
BYTES = ["default", None, 1, 2, 8, 31, 32, 33, 64]
FRACS = ["default", None, -1, 0, 1, 2, 18, 79, 80, 81, 100]


def kw_enum(tier, seed):
    for cls in ENC_INT + DEC_INT + OTHER:
        for bits in BITS:
            for size in BYTES:
                yield (cls, bits, size, None)
    for cls in ENC_FIX + DEC_FIX:
        for bits in BITS:
            for frac in FRACS:
                yield (cls, bits, "default", frac)
        for size in BYTES:
            for frac in FRACS:
                yield (cls, 128, size, frac)
    for name in ENC_INT + ENC_FIX + DEC_INT + DEC_FIX + OTHER + [
        "BooleanEncoder", "BooleanDecoder", "AddressEncoder", "AddressDecoder", "ByteStringEncoder", "ByteStringDecoder",
        "TextStringEncoder", "SizedArrayEncoder", "DynamicArrayEncoder", "SizedArrayDecoder", "DynamicArrayDecoder",
        "TupleEncoder", "TupleDecoder", "HeadTailDecoder", "PackedArrayEncoder", "PackedBooleanEncoder",
    ]:
        for key in UNKNOWN:
            yield ("unknown", name, key)
        yield ("missing", name)
        yield ("own", name)
        yield ("address", name)
    for bits in BITS:
        yield ("addr-bits", bits)


FAMILY = ENC_INT + ENC_FIX + DEC_INT + DEC_FIX + OTHER + ["BooleanEncoder", "AddressEncoder", "ByteStringEncoder", "TextStringEncoder", "SizedArrayEncoder", "DynamicArrayEncoder", "TupleEncoder", "BooleanDecoder", "AddressDecoder", "TupleDecoder", "SizedArrayDecoder"]
UNKNOWN = ["foo", "value_bits", "Value_bit_size", "bits", "x", "encoder", "strict_", "size", "items", "data", "item_encode", "__nope__"]
GOOD_KW = {
    "SizedArrayEncoder": lambda: dict(array_size=2, item_encoder=sut.encoding.BooleanEncoder()),
    "DynamicArrayEncoder": lambda: dict(item_encoder=sut.encoding.BooleanEncoder()),
    "PackedArrayEncoder": lambda: dict(item_encoder=sut.encoding.BooleanEncoder()),
    "SizedArrayDecoder": lambda: dict(array_size=2, item_decoder=sut.decoding.BooleanDecoder()),
    "DynamicArrayDecoder": lambda: dict(item_decoder=sut.decoding.BooleanDecoder()),
    "TupleEncoder": lambda: dict(encoders=(sut.encoding.BooleanEncoder(),)),
    "TupleDecoder": lambda: dict(decoders=(sut.decoding.BooleanDecoder(),)),
    "HeadTailDecoder": lambda: dict(tail_decoder=sut.decoding.ByteStringDecoder()),
}


def good_kw(name):
    if name in GOOD_KW:
        return GOOD_KW[name]()
    if name in ENC_FIX + DEC_FIX:
        return dict(value_bit_size=64, frac_places=3)
    if name in ENC_INT + DEC_INT + OTHER:
        return dict(value_bit_size=64)
    return {}


NEEDS = {  # required settings and their absence
    "SizedArrayEncoder": ["item_encoder", "array_size"], "DynamicArrayEncoder": ["item_encoder"], "PackedArrayEncoder": ["item_encoder"],
    "SizedArrayDecoder": ["item_decoder"], "DynamicArrayDecoder": ["item_decoder"], "TupleEncoder": ["encoders"],
    "TupleDecoder": ["decoders"], "HeadTailDecoder": ["tail_decoder"],
}


def get(name):
    return getattr(sut.encoding, name, None) or getattr(sut.decoding, name)


class Thing:
    """A setting like no other."""

    def __call__(self, *a, **k):
        raise Boom("setting")


def settings(cls):
    return [k for k in dir(cls) if not k.startswith("_")]


def val(o, k):
    x = getattr(o, k, None)
    return getattr(x, "__func__", x)


def own(name, rec):
    """The settings of a coder object are its own: they change neither its class nor objects
    made before and after it, nor those of related classes."""
    cls = get(name)
    kin = [get(n) for n in FAMILY if n != name and (issubclass(get(n), cls) or issubclass(cls, get(n)) or set(get(n).__mro__[1:-3]) & set(cls.__mro__[1:-3]))]
    before = cls(**good_kw(name))
    for k in settings(cls):
        plain = val(before, k)
        others = {c: val(c, k) for c in [cls] + kin}
        for x in (Thing(), 24, 3, True, False, "text"):
            kw = good_kw(name)
            kw[k] = x
            o = sut.call(cls, **kw)
            if not o.ok:
                continue
            rec.more(1)
            after = cls(**good_kw(name))
            for z, when in ((before, "before"), (after, "after")):
                if k not in good_kw(name) and val(z, k) != plain:
                    fail("%s(%s=%s) changes %s of another object made %s it: %s", name, k, x, k, when, getattr(z, k))
                if k in good_kw(name) and getattr(z, k) is x and type(x) is Thing:
                    fail("%s(%s=%s) changes %s of another object made %s it", name, k, x, k, when)
            for c, was in others.items():
                if val(c, k) is not was and val(c, k) != was:
                    fail("%s(%s=%s) changes %s.%s", name, k, x, c.__name__, k)
            rec.nontrivial("own", name, k, repr(type(x)))
            rec.label("own-setting")


def run_kw(case, rec):
    kind = case[0]
    if kind == "unknown":
        _, name, key = case
        kw = good_kw(name)
        if key in dir(get(name)):
            return
        kw[key] = 1
        out = sut.call(get(name), **kw)
        if out.ok or not isinstance(out.exc, AttributeError):
            fail("%s(%s) %s, expected AttributeError", name, sorted(kw), out)
        rec.nontrivial()
        return
    if kind in ("missing", "address"):
        name = case[1]
        out = sut.call(get(name), **good_kw(name))
        if not out.ok:
            fail("%s(%s) %s", name, sorted(good_kw(name)), out)
        for k, v in good_kw(name).items():
            if getattr(out.value, k, None) is None:
                fail("%s(%s) does not keep the setting %s", name, sorted(good_kw(name)), k)
        required = list(NEEDS.get(name, good_kw(name)))
        for k in required:
            kw = good_kw(name)
            del kw[k]
            for given in (False, True):
                if given:
                    kw[k] = None
                if name in ("TupleDecoder",):
                    pass
                o = sut.call(get(name), **kw)
                if o.ok or not isinstance(o.exc, ValueError):
                    fail("%s(%s) without %s %s, expected ValueError", name, sorted(kw), k, o)
                rec.nontrivial(name, k, given)
        return
    if kind == "own":
        return own(case[1], rec)
    if kind == "addr-bits":
        for name in ("AddressEncoder", "PackedAddressEncoder"):
            o = sut.call(get(name), value_bit_size=case[1])
            if o.ok or not isinstance(o.exc, ValueError):
                fail("%s(value_bit_size=%s) %s, expected ValueError", name, case[1], o)
        rec.nontrivial()
        return
    name, bits, size, frac = case
    kw = {"value_bit_size": bits}
    if size != "default":
        kw["data_byte_size"] = size
    if frac != "default" and name in ENC_FIX + DEC_FIX:
        kw["frac_places"] = frac
    eff = 32 if size == "default" else size
    bad = bits is None or eff is None or bits % 8 != 0 or bits > eff * 8
    if name in ENC_FIX + DEC_FIX:
        bad = bad or frac in ("default", None) or not 0 < frac <= 80
    o = sut.call(get(name), **kw)
    if bad:
        if o.ok or not isinstance(o.exc, ValueError):
            fail("%s(%s) %s, expected ValueError", name, kw, o)
        rec.nontrivial()
    elif not o.ok:
        fail("%s(%s) %s, expected success", name, kw, o)
    else:
        for k, v in kw.items():
            if getattr(o.value, k) != v:
                fail("%s(%s) has %s = %s", name, kw, k, getattr(o.value, k))
    rec.label("kwargs-" + ("refused" if bad else "accepted"))


def parts(tier):
    return [
        Part("kwargs", run_kw, enum=kw_enum),
        Part("compose", run, cases=case(), n=(20000, 500000), size=300),
    ]
