from .. import expect, gen, ref, sut, sweeps
from ..abit import P, dynamic
from ..abix import classify
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are a type string (every elementary type, container templates, random, aliased, nearly "
    "valid and malformed ones) with values, in or out of the domain. The coders that the registries "
    "and the matching coder classes (or subclasses of them) give for the type are called directly and "
    "compared with the reference encoding of the bare value; every other coder class must refuse the "
    "type. Non-trivial: the type is a container or an alias, the value is out of the domain or the "
    "class must refuse; distinct by class, type and value."
)

# class -> kind of type it is for
STD = {
    "UnsignedIntegerEncoder": "uint", "SignedIntegerEncoder": "int", "AddressEncoder": "address", "BooleanEncoder": "bool",
    "UnsignedFixedEncoder": "ufixed", "SignedFixedEncoder": "fixed", "BytesEncoder": "bytesM", "ByteStringEncoder": "bytes",
    "TextStringEncoder": "string", "BaseArrayEncoder": "arr", "TupleEncoder": "tup",
}
PACKED = {
    "PackedUnsignedIntegerEncoder": "uint", "PackedSignedIntegerEncoder": "int", "PackedAddressEncoder": "address",
    "PackedBooleanEncoder": "bool", "PackedUnsignedFixedEncoder": "ufixed", "PackedSignedFixedEncoder": "fixed",
    "PackedBytesEncoder": "bytesM", "PackedByteStringEncoder": "bytes", "PackedTextStringEncoder": "string",
    "PackedArrayEncoder": "arr", "TupleEncoder": "tup",
}
DEC = {
    "UnsignedIntegerDecoder": "uint", "SignedIntegerDecoder": "int", "AddressDecoder": "address", "BooleanDecoder": "bool",
    "UnsignedFixedDecoder": "ufixed", "SignedFixedDecoder": "fixed", "BytesDecoder": "bytesM", "ByteStringDecoder": "bytes",
    "StringDecoder": "string", "BaseArrayDecoder": "arr", "TupleDecoder": "tup",
}
SETS = [
    ("encoder", STD, "encoding", "registry"), ("packed encoder", PACKED, "encoding", "registry_packed"), ("decoder", DEC, "decoding", "registry"),
]


def kind_of(t):
    if t.kind != "el":
        return t.kind
    base, sub = t.canon
    return "bytesM" if base == "bytes" and sub is not None else base


_subs = {}


def cls_of(mod, name, sub):
    c = getattr(getattr(sut, mod), name)
    if not sub or name.startswith("Base"):
        return c
    if c not in _subs:
        _subs[c] = type("My" + name, (c,), {})
    return _subs[c]


def refuse(case, rec):
    """Every class refuses the types it is not for."""
    _, s, sub = case
    kind, t = classify(s)
    want = kind_of(t) if kind == "valid" else None
    for what, classes, mod, reg in SETS:
        registry = getattr(sut.registry, reg)
        for name, k in classes.items():
            if {k, want} == {"bytes", "bytesM"}:
                continue
            if k == "tup" and t is not None and t.kind == "arr" and s.startswith("("):
                continue  # unspecified: tuple coder classes only look at the tuple itself
            if kind == "wellformed" and k in ("bytes", "bytesM") and s.startswith("bytes"):
                continue
            c = cls_of(mod, name, sub)
            out = sut.call(c.from_type_str, s, registry)
            rec.more(1)
            if k == want:
                if not out.ok:
                    fail("%s.from_type_str(%s) %s", name, s, out)
                if not name.startswith("Base") and type(out.value) is not c:
                    fail("%s.from_type_str(%s) gave a %s", c.__name__, s, type(out.value).__name__)
                continue
            if out.ok or not isinstance(out.exc, (ValueError, sut.ParseError)):
                fail("%s.from_type_str(%s) %s, expected a refusal", name, s, out)
            rec.nontrivial(name, s)
    rec.label("class-" + kind)


def coders(s, t, sub):
    k = kind_of(t)
    for what, classes, mod, reg in SETS:
        registry = getattr(sut.registry, reg)
        get = registry.get_decoder if what == "decoder" else registry.get_encoder
        yield what, "get_%s(%s)" % (what, s), sut.call(get, s)
        for name, kk in classes.items():
            if kk == k:
                yield what, "%s.from_type_str(%s)" % (name, s), sut.call(cls_of(mod, name, sub).from_type_str, s, registry)


def check(s, v, rec, sub=0):
    t = P(s)
    val = realize(v)
    faults = ref.domain(t, realize(v))
    for what, name, c in coders(s, t, sub):
        if not c.ok:
            fail("%s %s", name, c)
        coder = c.value
        if what == "decoder":
            if not faults:
                decode(s, t, name, coder, val)
            continue
        packed = what == "packed encoder"
        if not packed and getattr(coder, "is_dynamic", False) is not dynamic(t):
            fail("%s has is_dynamic %s", name, getattr(coder, "is_dynamic", None))
        for how, fn in (("", coder), (".encode", coder.encode), (".validate_value", coder.validate_value)):
            out = sut.call(fn, val)
            if faults & {ref.AMBIG, ref.NEGRES}:
                continue
            if faults:
                if out.ok or not isinstance(out.exc, sut.allowed_classes(faults)):
                    fail("%s%s(%s) %s, faults %s", name, how, v, out, sorted(faults))
            elif not out.ok:
                fail("%s%s(%s) %s for a value of the type", name, how, v, out)
            elif how == ".validate_value":
                if out.value is not None:
                    fail("%s%s(%s) %s", name, how, v, out)
            else:
                want = ref.packed(t, val) if packed else ref.enc(t, val)
                if out.value != want or not isinstance(out.value, (bytes, bytearray)):
                    fail("%s%s(%s) %s, expected %s", name, how, v, out, want.hex())
    rec.label(kind_of(t) + ("-refused" if faults else ""))
    if t.kind != "el" or faults or str(t) != s:
        rec.nontrivial(s, repr(v))


def decode(s, t, name, coder, val):
    data = ref.enc(t, val)
    want = ref.canon(t, val)
    for prefix in (b"", b"\x55" * 64):
        stream = sut.decoding.ContextFramesBytesIO(prefix + data)
        if prefix:
            stream.push_frame(len(prefix))
        for how, fn in (("", coder), (".decode", coder.decode)):
            stream.seek_in_frame(0)
            out = sut.call(fn, stream)
            if not out.ok or not ref.same(out.value, want):
                fail("%s%s on %s %s, expected %s", name, how, data.hex(), out, want)


def run_sweep(case, rec):
    if case[0] == "class":
        return refuse(case, rec)
    if case[0] == "one":
        return check(case[1], case[2], rec, case[3])
    _, s, i = case
    t = P(s)
    if t.kind == "el":
        vals = sweeps.el_vals(s) + gen.near_list(t)[:12]
    else:
        vals = [sweeps.fill(t, sweeps.Picker(i + k), sweeps.Lens(seq)) for k, seq in enumerate(([0], [1], [2, 1]))] + [None, [], 3]
    for v in vals:
        rec.more(1)
        with narrow(("one", s, v, i % 2)):
            check(s, v, rec, i % 2)


def enum(tier, seed):
    for i, s in enumerate(sweeps.el_types(13 if tier == "quick" else 1)):
        yield ("values", s, i)
        yield ("class", s, i % 2)
    for i, e in enumerate(sweeps.REPR_EL):
        for j, tpl in enumerate(sweeps.TEMPLATES):
            s = tpl.replace("T", e)
            yield ("values", s, i + j)
            if i < 4:
                yield ("class", s, i % 2)
    for i, case in enumerate(sweeps.far_faults("quick", seed)):
        if len(case[1]) == 1 and (i % 3 == 0 or case[1][0].startswith("(")):
            yield ("one", case[1][0], case[2][0], i % 2)
    for i, case in enumerate(sweeps.wide(tier, seed, ns=(9, 17, 40))):
        if len(case[1]) == 1:
            yield ("one", case[1][0], case[2][0], i % 2)
    for s in gen.FRAGS + ODD:
        yield ("class", s, 0)
        yield ("class", s, 1)


ODD = [
    "", "uint", "int", "fixed", "ufixed", "function", "byte", "uint0", "uint7", "uint264", "int8x8", "fixed8", "fixed8x0", "fixed8x81", "fixed7x1",
    "bool1", "bool8x1", "string1", "address1", "address20", "function24", "byte1", "tuple", "uint8[0]", "uint8[-1]", "((uint8)", "(uint8))", "(uint8,)",
    "(,uint8)", "uint8[][", "uint8 []", "hash32", "foo", "foo[]", "(foo)", "(uint8,foo)[2]", "()", "(())", "uint7[]", "(uint7)", "(bool1)[]",
    "uints", "uint8s", "strings", "Uint8", "UINT8", "addresss", "fixed128x18x1", "int256[]", "uint[3]", "(int)", "(byte,function)", "byte[]",
]


@composite
def random_case(draw):
    s = draw(gen.type_str(depth=3))
    return ("one", s, gen.draw_any(draw, P(s), 2), draw(gen.I(0, 1)))


@composite
def odd_case(draw):
    return ("class", gen.draw_typeish(draw), draw(gen.I(0, 1)))


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=enum),
        Part("values", run_sweep, cases=random_case(), n=(8000, 200000)),
        Part("classes", run_sweep, cases=odd_case(), n=(3000, 80000)),
    ]
