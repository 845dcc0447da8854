import itertools

from .. import gen, sut, sweeps
from ..abit import P, leaves, valid
from ..abix import classify
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are a type string (valid, aliased, nearly valid, malformed, or not a string at all) and "
    "an arbitrary Python value, on the default codec, the packed codec and codecs over customised "
    "registries; is_encodable is compared with whether encode succeeds and is_encodable_type with "
    "the specification. Non-trivial: a valid type whose value is not encodable, or an invalid type; "
    "distinct by type and value."
)


def check(types_value, rec):
    s, v = types_value
    std = sut.call(sut.encode, [s], [realize(v)])
    pck = sut.call(sut.encode_packed, [s], [realize(v)])
    for name, enc, fn in (
        ("is_encodable", std, sut.is_encodable),
        ("is_encodable_packed", pck, sut.is_encodable_packed),
    ):
        out = sut.call(fn, s, realize(v))
        if not out.ok:
            fail("%s(%s, %s) %s", name, s, v, out)
        if out.value is not True and out.value is not False:
            fail("%s(%s, %s) %s, not a bool", name, s, v, out)
        if out.value != enc.ok:
            fail("%s(%s, %s) is %s but encoding %s", name, s, v, str(out.value), enc)
    kind = classify(s)[0] if isinstance(s, str) else "not-a-string"
    for name, fn in (
        ("is_encodable_type", sut.is_encodable_type),
        ("packed is_encodable_type", sut.packed.default_encoder_packed.is_encodable_type),
    ):
        out = sut.call(fn, s)
        if not out.ok or out.value is not (kind == "valid"):
            fail("%s(%s) %s for a type that is %s", name, s, out, kind)
    rec.label(kind + ("" if kind != "valid" else "-encodable" if std.ok else "-refused"))
    if kind != "valid" or not std.ok:
        rec.nontrivial(repr(s), repr(v))


def one(s, v, rec):
    with narrow(("one", s, v)):
        check((s, v), rec)


def sweep_enum(tier, seed):
    for s in sweeps.el_types(9 if tier == "quick" else 1):
        yield ("near", s)
    for s in sweeps.REPR_EL:
        yield ("junk", s)
    for tpl in sweeps.TEMPLATES:
        for e in ("uint8", "string", "fixed8x1", "address"):
            yield ("shape", tpl.replace("T", e))
    for case in itertools.chain(sweeps.far_faults(tier, seed), sweeps.farther_faults(tier, seed)):
        if len(case[1]) == 1:
            yield ("one", case[1][0], case[2][0])
    for x in gen.NOT_STR:
        yield ("one", x, 1)
        yield ("one", x, b"")
    for x in gen.FRAGS + ["", "uint", "uint0", "uint7", "uint264", "bytes0", "bytes33", "fixed8x0", "fixed8x81", "bool1", "string1", "address1", "function24", "byte1", "tuple", "uint8[0]", "uint8[-1]", "((uint8)", "(uint8))", "(uint8,)", "(,uint8)", "uint8[][", "uint8 []", "hash", "hash32", "foo[]", "(foo)", "(uint8,foo)[2]"]:
        for v in (1, b"", "", [], (1,), True, None):
            yield ("one", x, v)


def run_sweep(case, rec):
    kind, s = case[0], case[1]
    if kind == "one":
        return check(case[1:], rec)
    t = P(s)
    if kind == "near":
        for v in gen.near_list(t) + sweeps.el_vals(s):
            rec.more(1)
            one(s, v, rec)
        for v in gen.near_list(t)[:6]:
            rec.more(2)
            one(s + "[]", [v], rec)
            one("(%s,bool)" % s, (v, True), rec)
    elif kind == "junk":
        for v in gen.JUNK:
            rec.more(4)
            one(s, v, rec)
            one(s + "[]", [v], rec)
            one("(bool,%s)" % s, (False, v), rec)
            one(s + "[1][]", [[v]], rec)
    else:
        for i, seq in enumerate(([0], [1], [2])):
            good = sweeps.fill(t, sweeps.Picker(i), sweeps.Lens(seq))
            for v in (good, [good], (good,), None, [], list(good) + list(good) if isinstance(good, (list, tuple)) else good, good[:-1] if isinstance(good, (list, tuple)) else good):
                rec.more(1)
                one(s, v, rec)


@composite
def pair(draw):
    s = draw(gen.type_str(depth=3))
    m = draw(gen.I(0, 5))
    if m == 5:
        v = gen.draw_value(draw, P(draw(gen.type_str(depth=2))), True, False, [10])
    else:
        v = gen.draw_any(draw, P(s))
    return s, v


@composite
def oddpair(draw):
    s = gen.draw_typeish(draw)
    if draw(gen.I(0, 1)):
        return s, draw(gen.S(gen.JUNK))
    t = classify(s)
    if t[0] == "valid" and small(t[1]):
        return s, gen.draw_any(draw, t[1])
    return s, gen.draw_value(draw, P(draw(gen.type_str(depth=2))), True, False, [10])


def small(t):
    if t.kind == "el":
        return True
    if t.kind == "tup":
        return all(map(small, t.items))
    return (t.size or 0) <= 6 and small(t.item)


# ---- customised registries

CUSTOM_LEAVES = ["uint8", "even", "odd", "text", "gone", "cls", "bool"]


def custom_codec():
    from eth_abi.codec import ABICodec
    from eth_abi.registry import BaseEquals, registry

    reg = registry.copy()

    def even(v):
        if not isinstance(v, int) or v % 2:
            raise sut.EncodingTypeError("not even")
        return v.to_bytes(32, "big", signed=True) if abs(v) < 2**200 else refuse(v)

    def refuse(v):
        raise sut.ValueOutOfBounds("too big")

    def text(v):
        if not isinstance(v, str):
            raise sut.IllegalValue("not text")
        b = v.encode("utf-8", "replace")
        return len(b).to_bytes(32, "big") + b + bytes(-len(b) % 32)

    text.is_dynamic = True

    class Cls(sut.encoding.BaseEncoder):
        def validate_value(self, value):
            if value is not None:
                self.invalidate_value(value)

        def encode(self, value):
            self.validate_value(value)
            return bytes(32)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    reg.register_encoder("even", even)
    reg.register_encoder("text", text, label="t")
    reg.register_encoder(lambda s: s == "cls", Cls, label="c")
    reg.unregister_encoder("bool")
    reg.register_encoder(BaseEquals("odd", with_sub=False), lambda v: refuse(v) if not isinstance(v, int) or v % 2 == 0 else bytes(31) + b"\1", label="odd")
    return ABICodec(reg)


CUSTOM = []
HAVE = {"uint8", "even", "odd", "text", "cls"}


@composite
def custom_case(draw):
    s = draw(gen.type_str(depth=2, only=CUSTOM_LEAVES))

    def val(t):
        if t.kind == "el":
            if draw(gen.I(0, 5)) == 0:
                return draw(gen.S(gen.JUNK))
            return {"uint8": 3, "even": 4, "odd": 5, "text": "ab", "cls": None, "gone": 1, "bool": True}[str(t)]
        if t.kind == "tup":
            return tuple(val(c) for c in t.items)
        n = t.size if t.size is not None else draw(gen.I(0, 2))
        return [val(t.item) for _ in range(n + (draw(gen.I(0, 9)) == 9))]

    return s, val(P(s))


def run_custom(case, rec):
    s, v = case
    if not CUSTOM:
        CUSTOM.append(custom_codec())
    codec = CUSTOM[0]
    have = all(str(e) in HAVE for e in leaves(P(s)))
    out = sut.call(codec.is_encodable_type, s)
    if not out.ok or out.value is not have:
        fail("customised codec: is_encodable_type(%s) %s, expected %s", s, out, have)
    enc = sut.call(codec.encode, [s], [realize(v)])
    out = sut.call(codec.is_encodable, s, realize(v))
    if not out.ok or out.value is not enc.ok:
        fail("customised codec: is_encodable(%s, %s) %s but encoding %s", s, v, out, enc)
    rec.label("custom-ok" if enc.ok else "custom-refused" if have else "custom-no-type")
    if not enc.ok:
        rec.nontrivial()


# ---- registries with entries removed

BUILTIN = {
    "uint": "uint16", "int": "int8", "address": "address", "bool": "bool", "bytes<M>": "bytes3", "bytes": "bytes",
    "string": "string", "ufixed": "ufixed8x1", "fixed": "fixed8x1",
}
REST = ["has_arrlist", "is_base_tuple"]


@composite
def removal(draw):
    pool = sorted(BUILTIN.values())
    gone = sorted({draw(gen.S(sorted(BUILTIN) + REST * 4)) for _ in range(draw(gen.I(1, 4)))})
    return gone, [draw(gen.type_str(depth=2, only=pool)) for _ in range(4)], draw(gen.I(0, 1))


def needs(t):
    """Labels of the registrations that coding the type involves."""
    if t.kind == "el":
        return {k for k, v in BUILTIN.items() if v == str(t)}
    if t.kind == "tup":
        return {"is_base_tuple"}.union(*map(needs, t.items))
    return {"has_arrlist"} | needs(t.item)


def run_removal(case, rec):
    from eth_abi.codec import ABIEncoder

    gone, types, packed = case
    reg = (sut.registry.registry_packed if packed else sut.registry.registry).copy()
    enc = ABIEncoder(reg)
    for back in (False, True):
        for s in types:
            t = P(s)
            v = sweeps.fill(t, sweeps.Picker(0), sweeps.Lens([1, 2]))
            have = not back or not needs(t) & set(gone)
            out = sut.call(enc.is_encodable_type, s)
            if not out.ok or out.value is not have:
                fail("without %s: is_encodable_type(%s) %s, expected %s", gone if back else [], s, out, have)
            out = sut.call(enc.is_encodable, s, v)
            if not out.ok or out.value is not have:
                fail("without %s: is_encodable(%s, %s) %s, expected %s", gone if back else [], s, v, out, have)
            e = sut.call(enc.encode, [s], [v])
            if e.ok is not have:
                fail("without %s: encode(%s, %s) %s, expected %s", gone if back else [], s, v, e, "success" if have else "failure")
            if not have:
                rec.nontrivial(gone, s)
        if not back:
            for k in gone:
                reg.unregister_encoder(k)
    rec.label("removal")
    rec.more(len(types))


def parts(tier):
    return [
        Part("removed", run_removal, cases=removal(), n=(2400, 60000), size=200),
        Part("sweep", run_sweep, enum=sweep_enum),
        Part("pairs", check, cases=pair(), n=(10000, 300000)),
        Part("odd-types", check, cases=oddpair(), n=(12000, 300000)),
        Part("custom", run_custom, cases=custom_case(), n=(6000, 100000), size=200),
    ]
