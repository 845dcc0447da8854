import inspect

from .. import expect, gen, ref, sut, sweeps
from ..abit import P
from ..core import Part, Skip, narrow
from ..data import realize
from ..src import composite
from ..sut import fail
from .c25 import DEC, PACKED, STD, kind_of

RULE = (
    "Cases are a set of kinds of type whose coders are replaced, in copies of the default registries, by "
    "subclasses that override encode, validate_value and decode to take and give wrapped objects (or that "
    "override validate_value alone, for elementary types, to refuse marked values), with types, values and payloads as for C03 "
    "and C05. Wrapping, coding and unwrapping must give what the reference prescribes, every replaced part must have "
    "gone through its subclass, and a marked part must be refused. Non-trivial: a replaced kind occurs "
    "inside a container; distinct by case."
)

KINDS = ["uint", "int", "address", "bool", "ufixed", "fixed", "bytesM", "bytes", "string", "arr", "tup"]
SETS = [KINDS, KINDS[:9], ["arr", "tup"], ["tup"], ["arr"], ["uint", "bytes"], ["string", "tup"], ["bool", "int", "arr"], ["fixed", "ufixed", "address"], ["bytesM", "string"]]


class W:
    """A wrapped value, of no type that the library knows."""

    def __init__(self, v, bad=False):
        self.v, self.bad = v, bad

    def __repr__(self):
        return "W(%s%s)" % (sut.repr_(self.v), "!" if self.bad else "")


def unwrap(x):
    return x.v if type(x) is W else x


REFUSED = set()  # of reprs


def override(base, name, make):
    """A method of the same kind (class or instance method) as the one it overrides."""
    if isinstance(inspect.getattr_static(base, name), classmethod):
        return classmethod(make(lambda cls, sub: getattr(super(sub[0], cls), name)))
    return make(lambda self, sub: getattr(super(sub[0], self), name))


def sub_encoder(base, guard):
    sub = []

    def validate(up):
        def validate_value(self, value):
            if (guard and sut.repr_(value) in REFUSED) or (type(value) is W and value.bad):
                raise sut.IllegalValue("refused by the subclass")
            return up(self, sub)(unwrap(value))

        return validate_value

    def enc(up):
        def encode(self, value):
            if type(value) is W and value.bad:
                raise sut.IllegalValue("refused by the subclass")
            return up(self, sub)(unwrap(value))

        return encode

    d = {"validate_value": override(base, "validate_value", validate)}
    if not guard:
        d["encode"] = override(base, "encode", enc)
    sub.append(type("My" + base.__name__, (base,), d))
    return sub[0]


def sub_decoder(base):
    class Sub(base):
        def decode(self, stream):
            return W(super().decode(stream))

    return Sub


def arrays(base, sized, dynamic, item, get):
    """The registered class of array coders that gives the two subclasses."""

    class Arr(base):
        @classmethod
        def from_type_str(cls, type_str, registry):
            t = sut.grammar.parse(sut.grammar.normalize(type_str))
            inner = getattr(registry, get)(t.item_type.to_type_str())
            dim = t.arrlist[-1]
            if dim or sized is dynamic:
                return sized(**{item: inner, "array_size": dim[0] if dim else None})
            return dynamic(**{item: inner})

    return Arr


LABELS = {"bytesM": ["bytes<M>", "function", "byte"], "arr": ["has_arrlist"], "tup": ["is_base_tuple"]}
_codecs = {}


def lookup(label):
    r = sut.registry
    if label in ("has_arrlist", "is_base_tuple"):
        return getattr(r, label)
    if label in ("bytes", "bytes<M>"):
        return r.BaseEquals("bytes", with_sub=label == "bytes<M>")
    return r.BaseEquals(label)


def codec(kinds, packed, guard):
    key = (tuple(kinds), packed, guard)
    if key in _codecs:
        return _codecs[key]
    E, D = sut.encoding, sut.decoding
    reg = (sut.registry.registry_packed if packed else sut.registry.registry).copy()
    names = PACKED if packed else STD
    for name, kind in names.items():
        if kind not in kinds:
            continue
        if kind != "arr":
            enc = sub_encoder(getattr(E, name), guard)
        elif packed:
            sub = sub_encoder(E.PackedArrayEncoder, guard)
            enc = arrays(E.BaseArrayEncoder, sub, sub, "item_encoder", "get_encoder")
        else:
            enc = arrays(E.BaseArrayEncoder, sub_encoder(E.SizedArrayEncoder, guard), sub_encoder(E.DynamicArrayEncoder, guard), "item_encoder", "get_encoder")
        for label in LABELS.get(kind, [kind]):
            reg.unregister_encoder(label)
            reg.register_encoder(lookup(label), enc, label=label)
    for name, kind in DEC.items():
        if kind not in kinds or packed:
            continue
        if kind != "arr":
            dec = sub_decoder(getattr(D, name))
        else:
            dec = arrays(D.BaseArrayDecoder, sub_decoder(D.SizedArrayDecoder), sub_decoder(D.DynamicArrayDecoder), "item_decoder", "get_decoder")
        for label in LABELS.get(kind, [kind]):
            reg.unregister_decoder(label)
            reg.register_decoder(lookup(label), dec, label=label)
    from eth_abi.codec import ABICodec

    _codecs[key] = ABICodec(reg)
    return _codecs[key]


def wrap(t, v, kinds, mark=None):
    """Wraps what is of a replaced kind; ``mark`` counts down to the part that is marked."""
    if t.kind != "el" and type(v) in (list, tuple):
        items = t.items if t.kind == "tup" else [t.item] * len(v)
        if len(items) == len(v):
            v = type(v)(wrap(c, x, kinds, mark) for c, x in zip(items, v))
    if kind_of(t) not in kinds:
        return v
    if mark is not None:
        mark[0] -= 1
    return W(v, mark is not None and mark[0] == 0)


def count(t, v, kinds):
    n = 0
    if t.kind != "el":
        items = t.items if t.kind == "tup" else [t.item] * len(v)
        n = sum(count(c, x, kinds) for c, x in zip(items, v))
    return n + (kind_of(t) in kinds)


def nodes(t, v, kinds):
    if t.kind != "el":
        for c, x in zip(t.items if t.kind == "tup" else [t.item] * len(v), v):
            yield from nodes(c, x, kinds)
    if kind_of(t) in kinds:
        yield v


def peel(t, v, kinds):
    if kind_of(t) in kinds:
        if type(v) is not W:
            fail("the decoder subclass for %s was bypassed: got %s", str(t), v)
        v = v.v
    elif type(v) is W:
        fail("%s, which has no subclass, was decoded by one: %s", str(t), v)
    if t.kind == "el" or type(v) is not tuple:
        return v
    items = t.items if t.kind == "tup" else [t.item] * len(v)
    return tuple(peel(c, x, kinds) for c, x in zip(items, v))


def inside(types, kinds):
    return any(P(t).kind != "el" for t in types)


def run_values(case, rec):
    k, types, vals = case
    kinds = SETS[k]
    ts = [P(t) for t in types]
    for packed in (False, True):
        c = codec(kinds, packed, False)
        ctx = "with subclasses of the coders of %s: " % kinds
        wrapped = [wrap(t, v, kinds) for t, v in zip(ts, realize(vals))]
        out = sut.call(c.encode, types, wrapped)
        verdict = expect.judge_encode(types, realize(vals), out, packed=packed, rec=None, ctx=ctx)
        rec.label(("packed-" if packed else "") + verdict)
        for s, t, v in zip(types, ts, vals):
            faults = ref.domain(t, realize(v))
            if faults & {ref.AMBIG, ref.NEGRES}:
                continue
            out = sut.call(c.is_encodable, s, wrap(t, realize(v), kinds))
            if not out.ok or out.value is not (not faults):
                fail("%sis_encodable(%s, wrapped %s) %s", ctx, s, v, out)
    if inside(types, kinds):
        rec.nontrivial()


def run_marked(case, rec):
    k, types, vals, at = case
    kinds = SETS[k]
    ts = [P(t) for t in types]
    vs = realize(vals)
    n = sum(count(t, v, kinds) for t, v in zip(ts, vs))
    if not n:
        raise Skip
    for packed in (False, True):
        c = codec(kinds, packed, False)
        mark = [at % n + 1]
        wrapped = [wrap(t, v, kinds, mark) for t, v in zip(ts, vs)]
        refused(c, types, wrapped, kinds, "marked")
    # the same with subclasses, of the coders of elementary types, that override validate_value alone
    els = [k for k in kinds if k not in ("arr", "tup")]
    parts = [x for t, v in zip(ts, vs) for x in nodes(t, v, els)]
    if parts:
        part = sut.repr_(parts[at % len(parts)])
        REFUSED.clear()
        REFUSED.add(part)
        try:
            for packed in (False, True):
                refused(codec(els, packed, True), types, vs, els, "refused %s in" % sut.cut(part, 60))
        finally:
            REFUSED.clear()
    rec.label("marked")
    if inside(types, kinds):
        rec.nontrivial()


def refused(c, types, vals, kinds, what):
    out = sut.call(c.encode, types, vals)
    if out.ok or not isinstance(out.exc, sut.IllegalValue):
        fail("with subclasses of the coders of %s: encode(%s, %s %s) %s, expected the subclass's IllegalValue", kinds, types, what, vals, out)
    outs = [sut.call(c.is_encodable, s, v) for s, v in zip(types, vals)]
    if not all(o.ok for o in outs) or all(o.value is True for o in outs) or any(type(o.value) is not bool for o in outs):
        fail("with subclasses of the coders of %s: is_encodable(%s, %s %s) %s", kinds, types, what, vals, outs)


def run_payload(case, rec):
    k, types, data, kind = case
    kinds = SETS[k]
    ts = [P(t) for t in types]
    if not (expect.is_budget_ok(types, data, True, 3000) and expect.is_budget_ok(types, data, False, 3000)):
        raise Skip
    c = codec(kinds, False, False)
    for strict in (True, False):
        out = sut.call(c.decode, types, data, strict)
        if out.ok:
            if type(out.value) is not tuple or len(out.value) != len(ts):
                fail("decode(%s, %s) %s", types, data.hex(), out)
            out.value = tuple(peel(t, v, kinds) for t, v in zip(ts, out.value))
        verdict = expect.judge_decode(types, data, strict, out, ctx="with subclasses of the decoders of %s: " % kinds)
        rec.label("decode-" + verdict)
    if inside(types, kinds):
        rec.nontrivial()


@composite
def values_case(draw):
    k = draw(gen.I(0, len(SETS) - 1))
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    rate = draw(gen.S([2, 50]))
    return k, types, [gen.draw_any(draw, P(t), rate) for t in types]


@composite
def marked_case(draw):
    k = draw(gen.I(0, len(SETS) - 1))
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    budget = [30]
    vals = [gen.draw_value(draw, P(t), False, False, budget) for t in types]
    return k, types, vals, draw(gen.I(0, 40))


@composite
def payload_case(draw):
    k = draw(gen.I(0, len(SETS) - 1))
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3, words=12))
    return (k, types) + gen.draw_payload(draw, types)


def enum(tier, seed):
    els = sweeps.REPR_EL
    for i, e in enumerate(els):
        for j, tpl in enumerate(sweeps.TEMPLATES):
            if tier == "quick" and (i + j + seed) % 2:
                continue
            s = tpl.replace("T", e)
            for m, seq in enumerate(([0], [1], [2, 1], [3])):
                yield ("args", (i + j + m) % len(SETS), [s], [sweeps.fill(P(s), sweeps.Picker(i + j + m), sweeps.Lens(seq))])
    # long enough for shortcuts meant for long arrays
    for i, e in enumerate(els):
        for n in (9, 33, 130, 300):
            for s in ("%s[]" % e, "%s[%d]" % (e, n), "(bool,%s)[]" % e):
                if tier == "quick" and (i + n + seed) % 3:
                    continue
                t = P(s)
                yield ("args", 0 if (i + n) % 2 else 1, [s], [sweeps.fill(t, sweeps.Picker(i), sweeps.Lens([n]))])


def run_sweep(case, rec):
    if case[0] == "one":
        return {"values": run_values, "payload": run_payload, "marked": run_marked}[case[1]](case[2:], rec)
    _, k, types, vals = case
    rec.more(4)
    with narrow(("one", "values", k, types, vals)):
        run_values((k, types, vals), rec)
    data = ref.enc_args([P(t) for t in types], realize(vals))
    with narrow(("one", "payload", k, types, data, "valid")):
        run_payload((k, types, data, "valid"), rec)
    for at in (0, 1, len(data) // 40, len(data) // 33):
        try:
            with narrow(("one", "marked", k, types, vals, at)):
                run_marked((k, types, vals, at), rec)
        except Skip:
            break


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=enum),
        Part("values", run_values, cases=values_case(), n=(6000, 150000)),
        Part("marked", run_marked, cases=marked_case(), n=(5000, 120000)),
        Part("payloads", run_payload, cases=payload_case(), n=(8000, 250000)),
    ]
