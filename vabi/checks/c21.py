from .. import gen, ref, sut, sweeps
from ..abit import ALIAS_NAMES, P, dynamic, leaves
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are valid types (all elementary types, container templates, deep nestings, random types) "
    "with a value. is_dynamic, is_array and item_type of the parsed type and of every item type and "
    "component below it are compared with the model type and with the wire: after a uint256 argument, "
    "the value sits in the head exactly when is_dynamic is False and behind the offset 0x40 otherwise; "
    "the coders of the standard registry must carry the same flag. Non-trivial: a container type; "
    "distinct by type string."
)


def walk(a, t, whole):
    s = str(t)
    o = sut.call(lambda: a.is_dynamic)
    if not o.ok or o.value is not dynamic(t):
        fail("is_dynamic of %s (in %s) %s, expected %s", s, whole, o, dynamic(t))
    o = sut.call(lambda: a.is_array)
    if not o.ok or o.value is not (t.kind == "arr"):
        fail("is_array of %s (in %s) %s", s, whole, o)
    o = sut.call(lambda: a.item_type)
    if t.kind == "arr":
        if not o.ok or o.value.to_type_str() != str(t.item):
            fail("item_type of %s (in %s) %s, expected %s", s, whole, o, str(t.item))
        walk(o.value, t.item, whole)
        if a.to_type_str() != s:
            fail("%s prints as %s after item_type was used", s, a.to_type_str())
    else:
        if o.ok or not isinstance(o.exc, ValueError):
            fail("item_type of the non-array %s (in %s) %s, expected ValueError", s, whole, o)
        if t.kind == "tup":
            if len(a.components) != len(t.items):
                fail("%s has %s components", s, len(a.components))
            for x, c in zip(a.components, t.items):
                walk(x, c, whole)


def check(s, v, rec):
    t = P(s)
    if t.kind != "el":
        rec.nontrivial(s)
    a = sut.grammar.parse(s)
    walk(a, t, s)
    rec.label("dynamic" if dynamic(t) else "static")
    reg = sut.registry.registry
    for name, c in (
        ("encoder", sut.call(reg.get_encoder, s)),
        ("strict decoder", sut.call(reg.get_decoder, s)),
        ("non-strict decoder", sut.call(reg.get_decoder, s, strict=False)),
    ):
        if not c.ok:
            fail("lookup of the %s for %s %s", name, s, c)
        flag = getattr(c.value, "is_dynamic", False)
        if flag is not dynamic(t):
            fail("the %s for %s has is_dynamic %s, expected %s", name, s, flag, dynamic(t))
    if v is None:
        return
    alone = sut.encode([s], [v])
    after = sut.encode(["uint256", s], [7, v])
    if a.is_dynamic:
        want = ref.word(7) + ref.word(64) + alone[32:]
        if alone[:32] != ref.word(32) or after != want:
            fail("%s is dynamic but its value is not behind an offset: %s, %s", s, alone.hex(), after.hex())
    elif after != ref.word(7) + alone:
        fail("%s is static but its value is not in place: %s, %s", s, alone.hex(), after.hex())
    # and as a component of a tuple
    tup = sut.encode(["(uint256,%s)" % s], [(7, v)])
    if tup != (ref.word(32) if a.is_dynamic else b"") + after:
        fail("encoding of (uint256,%s) disagrees with is_dynamic of %s: %s", s, s, tup.hex())


def run(case, rec):
    check(case[0], realize(case[1]), rec)


def enum(tier, seed):
    for s in sweeps.el_types(1):
        yield ("el", s)
    for i, e in enumerate(sweeps.REPR_EL):
        for j, tpl in enumerate(sweeps.TEMPLATES):
            s = tpl.replace("T", e)
            yield (s, sweeps.fill(P(s), sweeps.Picker(i + j), sweeps.Lens([1, 2])))
    for case in sweeps.deep(tier, seed):
        yield (case[1][0], case[2][0])
    for case in sweeps.wide(tier, seed):
        if len(case[1]) == 1:
            yield (case[1][0], case[2][0])
    for s in ["uint8[1000]", "bytes[1000]", "(uint8[100],bool)[50]", "(uint8,bytes[3])[200]", "uint8[1000000][2]", "string[99999999999]", "(bool,(bool,(bool[7],uint8[]))[3])[8]"]:
        yield (s, None)


def run_enum(case, rec):
    if case[0] != "el":
        return run(case, rec)
    s = case[1]
    v = sweeps.el_vals(s)[0]
    for ts, x in ((s, v), (s + "[]", [v]), (s + "[2]", [v, v]), ("(%s)" % s, (v,)), ("(%s,bool)[1]" % s, [(v, True)])):
        rec.more(1)
        with narrow((ts, x)):
            check(ts, x, rec)


@composite
def typed(draw):
    s = draw(gen.type_str(depth=5))
    return s, gen.draw_value(draw, P(s), False, False, [12])


def parts(tier):
    return [
        Part("sweep", run_enum, enum=enum),
        Part("random", run, cases=typed(), n=(12000, 300000)),
    ]
