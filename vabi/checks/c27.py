from .. import gen, sut
from ..abix import classify
from ..core import Part
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are a string (valid, nearly valid and malformed type strings, exhaustive short texts over "
    "an alphabet of type fragments) given to every kind of predicate with every setting, and pairs of "
    "predicates compared for equality, hash and interchangeability in a registry. The oracle is an "
    "independent parser. Non-trivial: some predicate matches, or the text is malformed, or the two "
    "predicates are equal, of one class, or share a setting; distinct by text or pair."
)

BASES = ["uint", "int", "bytes", "string", "foo", "tuple", "x", "Uint", "", "uint8", "(uint8)", "uint[]"]
SUBS = [None, True, False]


def reg():
    return sut.registry


def run_text(s, rec):
    kind, t = classify(s)
    R = reg()
    hit = kind == "malformed"
    for base in BASES + ([t.base] if t is not None and t.kind == "el" else []):
        for sub in SUBS:
            want = t is not None and t.kind == "el" and t.base == base and (sub is None or sub == (t.sub is not None))
            p = R.BaseEquals(base, with_sub=sub) if sub is not None or len(s) % 2 else R.BaseEquals(base)
            same(p, s, want)
            hit = hit or want
    for v in (s, s + " ", s[:-1], s.upper(), "uint8", ""):
        same(R.Equals(v), s, v == s)
    same(R.has_arrlist, s, t is not None and t.kind == "arr")
    same(R.is_base_tuple, s, t is not None and t.kind == "tup")
    rec.more(3 * len(BASES) + 8)
    rec.label(kind)
    if hit or t is not None and t.kind != "el":
        rec.nontrivial(s)


def same(p, s, want):
    out = sut.call(p, s)
    if not out.ok or bool(out.value) is not want:
        fail("%s on %s %s, expected %s", repr(p), s, out, want)


FR = ["uint", "8", "x", "[", "]", "(", ")", ",", "[]", "foo", "0", " ", "\n"]


def text_enum(tier, seed):
    yield ""
    for a in FR:
        yield a
        for b in FR:
            yield a + b
            for c in FR:
                yield a + b + c
                if tier != "quick" or (FR.index(a) + FR.index(b) + FR.index(c) + seed) % 3 == 0:
                    for d in FR:
                        yield a + b + c + d
    for s in gen.FRAGS:
        yield s


# ------------------------------------------------------------------ pairs

_USER = []


def user_classes():
    """Predicate classes a user might write: they share settings with the library's."""
    if not _USER:
        R = reg()

        class Prefix(R.Predicate):
            __slots__ = ("value",)

            def __init__(self, value):
                self.value = value

            def __call__(self, type_str):
                return type_str.startswith(self.value)

            def __str__(self):
                return "(prefix %r)" % (self.value,)

        class Loose(R.Predicate):
            __slots__ = ("base", "with_sub")

            def __init__(self, base, with_sub=None):
                self.base = base
                self.with_sub = with_sub

            def __call__(self, type_str):
                return self.base in type_str

            def __str__(self):
                return "(loose %r)" % (self.base,)

        class Quiet(R.Equals):
            def __call__(self, type_str):
                return False

        _USER.extend((Prefix, Loose, Quiet))
    return _USER


def build(d):
    R = reg()
    k = d[0]
    if k == "prefix":
        return user_classes()[0](d[1])
    if k == "loose":
        return user_classes()[1](d[1], d[2])
    if k == "quiet":
        return user_classes()[2](d[1])
    if k == "eq":
        return R.Equals(d[1])
    if k == "base":
        return R.BaseEquals(d[1], with_sub=d[2])
    if k == "base1":
        return R.BaseEquals(d[1])
    return (R.has_arrlist, R.is_base_tuple)[d[1] % 2]


def settings(d):
    if d[0] == "base1":
        return ("base", d[1], None)
    if d[0] == "fn":
        return ("fn", d[1] % 2)
    return tuple(d)


@composite
def pred(draw):
    k = draw(gen.I(0, 8))
    name = draw(gen.S(["uint", "foo", "bytes", "uint8", "a", "", "foo[]"]))
    if k <= 1:
        return ("eq", name)
    if k <= 3:
        return ("base", name, draw(gen.S(SUBS)))
    if k == 4:
        return ("base1", name)
    if k == 6:
        return (draw(gen.S(["prefix", "quiet"])), name)
    if k == 7:
        return ("loose", name, draw(gen.S(SUBS)))
    return ("fn", draw(gen.I(0, 1)))


@composite
def pair(draw):
    a = draw(pred())
    how = draw(gen.I(0, 3))
    if how == 0:
        return a, list(a[:-1]) + [draw(gen.S(SUBS)) if a[0] in ("base", "loose") else a[-1]]
    if how == 1 and a[0] != "fn":
        # the same settings under another class
        kinds = ["eq", "prefix", "quiet"] if len(a) == 2 and a[0] != "base1" else ["base", "loose"]
        rest = list(a[1:]) if a[0] != "base1" else [a[1], None]
        return a, [draw(gen.S(kinds))] + rest
    return a, draw(pred())


def run_pair(case, rec):
    a, b = tuple(case[0]), tuple(case[1])
    p, q = build(a), build(b)
    equal = settings(a) == settings(b)
    for x, y, n in ((p, q, "=="), (q, p, "==")):
        if (x == y) is not equal or (x != y) is equal:
            fail("%s == %s is %s, expected %s", repr(x), repr(y), x == y, equal)
    for d, x in ((a, p), (b, q)):
        if x != build(d) or hash(x) != hash(build(d)) or len({x, build(d)}) != 1:
            fail("%s differs from another predicate with its settings", repr(x))
        if x == settings(d) or x == (d[1] if len(d) > 1 else None) or x == object():
            fail("%s equals something that is not a predicate", repr(x))
    if equal and hash(p) != hash(q):
        fail("%s and %s are equal and have different hashes", repr(p), repr(q))
    # in a registry equal predicates are one entry, different ones are two
    r = sut.registry.ABIRegistry()
    one, two = (lambda v: b"1"), (lambda v: b"2")
    r.register_encoder(p, one)
    out = sut.call(r.register_encoder, q, two)
    if out.ok is equal or not out.ok and not isinstance(out.exc, ValueError):
        fail("registering %s beside %s %s", repr(q), repr(p), out)
    out = sut.call(r.unregister_encoder, build(b))
    if not out.ok:
        fail("unregistering by a predicate equal to %s %s", repr(q), out)
    out = sut.call(r.unregister_encoder, build(a))
    if out.ok is equal or not out.ok and not isinstance(out.exc, KeyError):
        fail("unregistering by a predicate equal to %s after %s %s", repr(p), repr(q), out)
    rec.label("equal" if equal else "different")
    if equal or a[0][:4] == b[0][:4] or a[1] == b[1]:
        rec.nontrivial()


def parts(tier):
    return [
        Part("texts", run_text, enum=text_enum),
        Part("near-types", run_text, cases=gen.typeish(), n=(16000, 400000), size=300),
        Part("pairs", run_pair, cases=pair(), n=(12000, 200000), size=40),
    ]
