"""Model of an ABIRegistry: per side a list of registrations (used by C09 and C23)."""
from . import ht, ref, sut
from .abit import Bad, P, parse
from .gen import I, S
from .sut import fail

# predicates known to both model and registry
FNS = {
    "starts-cu": lambda s: s.startswith("cu") and "[" not in s,
    "ends-8": lambda s: s.endswith("8") and "[" not in s and "(" not in s,
    "never": lambda s: False,
    "is-cuA": lambda s: s == "cuA",
    "is-da": lambda s: s in ("da", "da8"),
}

# two classes of predicates that print alike and have equal attributes, but are different
TWINS = {}


def twin(which):
    if which not in TWINS:
        class Named(sut.registry.Predicate):
            __slots__ = ("name",)

            def __init__(self, name):
                self.name = name

            def __str__(self):
                return "(custom %s)" % self.name

        class First(Named):
            __slots__ = ()

            def __call__(self, s):
                return s == "cu"

            def __iter__(self):
                yield self.name

        class Second(First):
            __slots__ = ()

            def __call__(self, s):
                return s == "cu16"

        First.__name__ = Second.__name__ = First.__qualname__ = Second.__qualname__ = "Named"
        TWINS["first"], TWINS["second"] = First, Second
    return TWINS[which]("cu")


LOOKUPS = [
    ("twin", "first"), ("twin", "second"), ("twin", "first"), ("twin", "second"),
    ("str", "cuA"), ("str", "cuB"), ("str", "cu8"), ("eq", "cuA"), ("eq", "cu8"), ("base", "cu", None),
    ("base", "cu", True), ("base", "cu", False), ("base", "cuA", None), ("base", "da", None), ("base", "da", True),
    ("base", "uint", None), ("str", "uint8"), ("fn", "starts-cu"), ("fn", "ends-8"), ("fn", "never"), ("fn", "is-cuA"),
    ("fn", "is-da"), ("str", "da"), ("base", "bytes", False), ("base", "string", None), ("str", "bytes"),
    ("fn", "has_arrlist"), ("fn", "is_base_tuple"), ("str", "cuA[]"), ("str", "(cuA,cuB)"),
    ("base", "byte", None), ("base", "function", None), ("str", "byte"), ("base", "bytes", True), ("str", "bytes1"), ("base", "int", None), ("str", "uint"), ("base", "address", None),
]
LABELS = [None, None, None, "one", "two", "cuA", "da", "uint", "cu8", "", "One", " one"]
UNREG_LABELS = ["one", "two", "cuA", "cuB", "da", "uint", "cu8", "bytes", "string", "has_arrlist", "is_base_tuple", "uint8", "nolabel", "cuA[]", "bool", "", "One", " one", "byte", "function", "bytes<M>", "int", "address", "byte", "uint"]
TYPES = [
    "cuA", "cuB", "cu", "cu8", "cu16", "da", "da8", "uint8", "bool", "bytes", "string",
    "cuA[]", "(cuA,cuB)", "cuA[2]", "(cu8,uint8)[]", "((cuA),cuB[])", "cu8[][2]", "zz", "(bytes,cuA)", "(zz,cuA)",
    "string[]", "(da,(da8,cu))", "uint8[2]", "(string,uint8)", "cuA[][]", "(cuA,cuB)[1]", "bytes[][1]",
    # an alias is looked up under its own name
    "byte", "function", "uint", "bytes1", "int16", "address[1]", "(bytes1,cuA)",
]
MALFORMED = ["cuA[", "(cuA", "cu A", "[]", "cuA]"]

BUILTIN = ["uint", "int", "address", "bool", "ufixed", "fixed", "bytes<M>", "bytes", "function", "byte", "string", "has_arrlist", "is_base_tuple"]
BUILTIN_LOOKUP = {
    "bytes<M>": ("base", "bytes", True), "bytes": ("base", "bytes", False),
    "has_arrlist": ("fn", "has_arrlist"), "is_base_tuple": ("fn", "is_base_tuple"),
}


def key(lk):
    """Equal lookups have equal keys."""
    return ("eq", lk[1]) if lk[0] == "str" else lk


def real(lk):
    r = sut.registry
    if lk[0] == "str":
        return lk[1]
    if lk[0] == "twin":
        return twin(lk[1])
    if lk[0] == "eq":
        return r.Equals(lk[1])
    if lk[0] == "base":
        return r.BaseEquals(lk[1], with_sub=lk[2])
    if lk[1] == "has_arrlist":
        return r.has_arrlist
    if lk[1] == "is_base_tuple":
        return r.is_base_tuple
    return FNS[lk[1]]


def matches(lk, s):
    if lk[0] in ("str", "eq"):
        return lk[1] == s
    if lk[0] == "twin":
        return s == ("cu" if lk[1] == "first" else "cu16")
    if lk[0] == "fn" and lk[1] in FNS:
        return FNS[lk[1]](s)
    try:
        t = parse(s)
    except Bad:
        return False
    if lk[0] == "fn":
        return t.kind == ("arr" if lk[1] == "has_arrlist" else "tup")
    return t.kind == "el" and t.base == lk[1] and (lk[2] is None or (t.sub is not None) == lk[2])


class Model:
    def __init__(self, builtin):
        self.sides = {"enc": [], "dec": []}
        if builtin:
            for side in self.sides.values():
                for b in BUILTIN:
                    side.append((BUILTIN_LOOKUP.get(b, ("base", b, None)), b, ("builtin", b)))

    def copy(self):
        m = Model(False)
        m.sides = {k: list(v) for k, v in self.sides.items()}
        return m

    def add(self, side, lk, label, coder):
        """None or the error class expected."""
        if lk[0] == "str":
            label = lk[1]
        es = self.sides[side]
        if any(key(e[0]) == key(lk) for e in es) or (label is not None and any(e[1] == label for e in es)):
            return ValueError
        es.append((lk, label, coder))

    def remove_label(self, side, label):
        es = self.sides[side]
        for e in es:
            if e[1] == label:
                es.remove(e)
                return None
        return KeyError

    def remove_lookup(self, side, lk):
        es = self.sides[side]
        for e in es:
            if key(e[0]) == key(lk):
                es.remove(e)
                return None
        return KeyError

    def resolve(self, side, s, out):
        """Adds to ``out``: {leaf or opaque type string: coder}; returns the set of
        exception classes that resolving may raise."""
        es = [e for e in self.sides[side] if matches(e[0], s)]
        if not es:
            try:
                parse(s)
            except Bad:
                return {sut.ParseError} | ({ValueError} if "()" in s else set())
            return {sut.NoEntriesFound}
        if len(es) > 1:
            return {sut.MultipleEntriesFound}
        coder = es[0][2]
        out[s] = coder
        if coder[0] != "builtin" or coder[1] not in ("has_arrlist", "is_base_tuple"):
            return set()
        t = P(s)
        errs = set()
        for c in [t.item] if t.kind == "arr" else t.items:
            errs |= self.resolve(side, str(c), out)
        return errs


# ---- tagged coders: every one works on ints and one word

class False_:
    """A callable object that is false."""

    def __init__(self, fn):
        self.fn = fn

    def __len__(self):
        return 0

    def __call__(self, x):
        return self.fn(x)


def make_encoder(coder):
    kind, tag = coder

    def fn(v):
        return ref.word(tag * 2**64 + v)

    if kind == "call":
        return fn
    if kind == "false":
        return False_(fn)

    class Enc(sut.encoding.BaseEncoder):
        def validate_value(self, value):
            if not isinstance(value, int):
                self.invalidate_value(value)

        def encode(self, value):
            return fn(value)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return Enc if kind == "class" else Enc()


def make_decoder(coder):
    kind, tag = coder

    def fn(stream):
        return (tag, int.from_bytes(stream.read(32), "big"))

    if kind == "call":
        return fn
    if kind == "false":
        return False_(fn)

    class Dec(sut.decoding.BaseDecoder):
        def decode(self, stream):
            return fn(stream)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return Dec if kind == "class" else Dec()


KINDS = ["call", "class", "instance", "false"]


def container(side_map, s):
    """Is the type string s coded by a container coder?"""
    c = side_map.get(s)
    return c is not None and c[0] == "builtin" and c[1] in ("has_arrlist", "is_base_tuple")


class Opaque:
    """A type that is coded as a whole by a custom coder (even if it looks like a
    container)."""

    kind = "el"

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def tree(side_map, s):
    """Type tree for ht: expanded only where a container coder is in charge."""
    if not container(side_map, s):
        return Opaque(s)
    from .abit import Arr, Tup

    t = P(s)
    if t.kind == "arr":
        return Arr(tree(side_map, str(t.item)), t.size)
    return Tup([tree(side_map, str(c)) for c in t.items])


def value(t, n=[0]):
    """Value tree with small distinct ints at the leaves."""
    if t.kind == "el":
        n[0] = (n[0] + 7) % 97
        return n[0]
    if t.kind == "arr":
        return [value(t.item, n) for _ in range(t.size if t.size is not None else 2)]
    return [value(c, n) for c in t.items]


def builtin_value(s, v):
    if s in ("byte", "bytes1"):
        return bytes([v])
    if s == "function":
        return bytes([v]) * 24
    if s == "address":
        return "0x%040x" % v
    return v if s in ("uint8", "uint", "int16") else v % 2 == 1 if s == "bool" else b"x" * v if s == "bytes" else "y" * v


def enc_leaf(side_map):
    def leaf(t):
        coder = side_map[t.s]
        if coder[0] == "builtin":
            base = t.s
            if base in ("bytes", "string"):
                return True, lambda v: ref.word(v) + (b"x" if base == "bytes" else b"y") * v + bytes(-v % 32)
            if base in ("uint8", "uint", "int16", "address"):
                return False, ref.word
            if base in ("byte", "bytes1", "function"):
                return False, lambda v: builtin_value(base, v).ljust(32, b"\x00")
            return False, lambda v: ref.word(v % 2)
        return False, lambda v: ref.word(coder[1] * 2**64 + v)

    return leaf


class Sut:
    """A real registry with its codec, driven next to a Model."""

    def __init__(self, reg):
        from eth_abi.codec import ABICodec

        self.reg = reg
        self.codec = ABICodec(reg)
        self.objs = {}

    def obj(self, side, coder):
        if coder[0] == "builtin":
            r = {"has_arrlist": (sut.encoding.BaseArrayEncoder, sut.decoding.BaseArrayDecoder),
                 "is_base_tuple": (sut.encoding.TupleEncoder, sut.decoding.TupleDecoder),
                 "uint": (sut.encoding.UnsignedIntegerEncoder, sut.decoding.UnsignedIntegerDecoder),
                 "bytes<M>": (sut.encoding.BytesEncoder, sut.decoding.BytesDecoder),
                 "bytes": (sut.encoding.ByteStringEncoder, sut.decoding.ByteStringDecoder),
                 "string": (sut.encoding.TextStringEncoder, sut.decoding.StringDecoder)}[coder[1]]
            return r[0 if side == "enc" else 1]
        return make_encoder(coder) if side == "enc" else make_decoder(coder)


def expected_error(out, want, what, *a):
    if want is None:
        if not out.ok:
            fail(what + " %s, expected success", *(a + (out,)))
    elif out.ok or type(out.exc) is not want and not (isinstance(out.exc, want)):
        fail(what + " %s, expected %s", *(a + (out, want.__name__)))


def check_query(m, s, x, side, mode, ctx):
    """Compares the registry and codec with the model for one type string."""
    side_map = {}
    errs = m.resolve(side, s, side_map)
    if side == "enc":
        out = sut.call(x.reg.get_encoder, s)
    else:
        out = sut.call(x.reg.get_decoder, s, strict=mode) if mode is not None else sut.call(x.reg.get_decoder, s)
    if errs:
        if out.ok or not isinstance(out.exc, tuple(errs)):
            fail("%s%s lookup of %s %s, expected %s", ctx, side, s, out, sorted(e.__name__ for e in errs))
        # (NoEntriesFound and MultipleEntriesFound are distinct)
        if side == "enc":
            h = sut.call(x.reg.has_encoder, s)
            if errs == {sut.MultipleEntriesFound}:
                if h.ok or not isinstance(h.exc, sut.MultipleEntriesFound):
                    fail("%shas_encoder(%s) %s, expected MultipleEntriesFound", ctx, s, h)
            elif sut.MultipleEntriesFound not in errs and (not h.ok or h.value is not False):
                fail("%shas_encoder(%s) %s, expected False", ctx, s, h)
            u = sut.call(x.codec.encode, [s], [1])
        else:
            u = sut.call(x.codec.decode, [s], bytes(64)) if mode is None else sut.call(x.codec.decode, [s], bytes(64), strict=mode)
        if u.ok or not isinstance(u.exc, tuple(errs)):
            fail("%scoding %s %s, expected %s", ctx, s, u, sorted(e.__name__ for e in errs))
        return "error"
    if not out.ok:
        fail("%s%s lookup of %s %s, expected it to resolve", ctx, side, s, out)
    t = tree(side_map, s)
    v = value(t)
    data = ht.args([t], [v], enc_leaf(side_map))
    if side == "enc":
        h = sut.call(x.reg.has_encoder, s)
        if not h.ok or h.value is not True:
            fail("%shas_encoder(%s) %s, expected True", ctx, s, h)

        def lf(t, v):
            return builtin_value(t.s, v) if side_map[t.s][0] == "builtin" else v

        arg = ht.mapval(t, v, lf)
        u = sut.call(x.codec.encode, [s], [arg])
        if not u.ok or u.value != data:
            fail("%sencode([%s], [%s]) %s, expected %s with registrations %s", ctx, s, arg, u, data.hex(), side_map)
        e = sut.call(x.codec.is_encodable, s, arg)
        if not e.ok or e.value is not True:
            fail("%sis_encodable(%s, %s) %s, expected True", ctx, s, arg, e)
    else:
        def lf(t, v):
            c = side_map[t.s]
            return builtin_value(t.s, v) if c[0] == "builtin" else (c[1], c[1] * 2**64 + v)

        want = (ht.mapval(t, v, lf),)
        u = sut.call(x.codec.decode, [s], data) if mode is None else sut.call(x.codec.decode, [s], data, strict=mode)
        if not u.ok or u.value != want:
            fail("%sdecode([%s], %s, strict=%s) %s, expected %s with registrations %s", ctx, s, data.hex(), mode, u, want, side_map)
    return "resolved"


def apply(m, x, op, ctx):
    """Applies one operation to model and registry; raises Violation on disagreement.
    Returns a label."""
    k = op[0]
    if k in ("reg_enc", "reg_dec"):
        _, lk, label, coder = op
        side = k[4:]
        want = m.add(side, lk, label, coder)
        fn = x.reg.register_encoder if side == "enc" else x.reg.register_decoder
        args = (real(lk), x.obj(side, coder))
        out = sut.call(fn, *args) if label is None or lk[0] == "str" else sut.call(fn, *args, label=label)
        expected_error(out, want, ctx + "%s(%s, label=%s)", k, lk, label)
        return k + ("-refused" if want else "")
    if k == "reg":
        _, lk, label, coder = op
        probe = m.copy()
        a = probe.add("enc", lk, label, coder)
        b = probe.add("dec", lk, label, coder)
        if a is not b and a is None:
            return "skipped"
        args = (real(lk), x.obj("enc", coder), x.obj("dec", coder))
        out = sut.call(x.reg.register, *args) if label is None or lk[0] == "str" else sut.call(x.reg.register, *args, label=label)
        if a is not None:
            expected_error(out, a, ctx + "register(%s, label=%s)", lk, label)
            return "reg-refused"
        expected_error(out, None, ctx + "register(%s, label=%s)", lk, label)
        m.sides = probe.sides
        return "reg"
    if k in ("unreg_enc", "unreg_dec"):
        _, what, arg = op
        side = k[6:]
        fn = x.reg.unregister_encoder if side == "enc" else x.reg.unregister_decoder
        if what == "label":
            want = m.remove_label(side, arg)
            out = sut.call(fn, arg)
        else:
            want = m.remove_lookup(side, arg)
            r = real(arg)
            out = sut.call(fn, sut.registry.Equals(arg[1]) if isinstance(r, str) else r)
        expected_error(out, want, ctx + "%s(%s %s)", k, what, arg)
        return k + ("-refused" if want else "")
    if k == "unreg":
        probe = m.copy()
        a = probe.remove_label("enc", op[1])
        b = probe.remove_label("dec", op[1])
        if a is not b and a is None:
            return "skipped"
        out = sut.call(x.reg.unregister, op[1])
        expected_error(out, a, ctx + "unregister(%s)", op[1])
        if a is None:
            m.sides = probe.sides
        return "unreg" + ("-refused" if a else "")
    if k == "badlookup":
        bad = [None, 5, b"cuA", ("cuA",)][op[1]]
        fns = [
            lambda: x.reg.register_encoder(bad, len), lambda: x.reg.register_decoder(bad, len),
            lambda: x.reg.register(bad, len, len), lambda: x.reg.unregister_encoder(bad),
            lambda: x.reg.unregister_decoder(bad), lambda: x.reg.unregister(bad),
        ]
        out = sut.call(fns[op[2]])
        expected_error(out, TypeError, ctx + "registering with lookup %s", bad)
        return "badlookup"
    if k == "query":
        _, s, side, mode = op
        return "query-" + check_query(m, s, x, side, mode, ctx)
    raise AssertionError(op)


POOLS = [
    [("twin", "first"), ("twin", "second")],
    [("twin", "first"), ("twin", "second"), ("base", "cu", None)],
    [("str", "cuA"), ("eq", "cuA"), ("fn", "is-cuA")],
    [("base", "cu", None), ("base", "cu", True), ("base", "cu", False)],
    [("base", "byte", None), ("str", "byte"), ("base", "bytes", True), ("str", "bytes1"), ("base", "function", None)],
    [("fn", "is-da"), ("str", "da"), ("base", "da", None), ("base", "da", True)],
]


def draw_op(draw, tag, pool=LOOKUPS):
    k = draw(I(0, 15))
    coder = (draw(S(KINDS)), tag)
    lk = draw(S(pool))
    if lk == ("fn", "has_arrlist") or lk == ("fn", "is_base_tuple"):
        coder = ("builtin", lk[1])
    elif lk[0] == "base" and lk[1] in ("bytes", "string") and draw(I(0, 1)):
        coder = ("builtin", "bytes<M>" if lk[2] else lk[1])
    elif lk == ("base", "uint", None) and draw(I(0, 1)):
        coder = ("builtin", "uint")
    if k <= 1:
        return ("reg_enc", lk, draw(S(LABELS)), coder)
    if k <= 3:
        return ("reg_dec", lk, draw(S(LABELS)), coder)
    if k <= 5:
        return ("reg", lk, draw(S(LABELS)), coder)
    if k <= 7:
        side = ("unreg_enc", "unreg_dec")[draw(I(0, 1))]
        if draw(I(0, 1)):
            return (side, "label", draw(S(UNREG_LABELS)))
        return (side, "lookup", lk)
    if k == 8:
        return ("unreg", draw(S(UNREG_LABELS)))
    if k == 9:
        return ("badlookup", draw(I(0, 3)), draw(I(0, 5)))
    return draw_query(draw)


MODES = [None, True, False]


def draw_query(draw):
    s = draw(S(TYPES)) if draw(I(0, 12)) else draw(S(MALFORMED))
    return ("query", s, ("enc", "dec")[draw(I(0, 1))], draw(S(MODES)))


ALL_LABELS = sorted({x for x in LABELS if x is not None} | set(UNREG_LABELS) | set(BUILTIN))


def drain(m, x, ctx, order=0):
    """Uses up what is left of a registry: every label and every lookup is known to it
    exactly when the model says so, until nothing is left."""
    for side in ("enc", "dec"):
        for lk, label, _ in list(m.sides[side]):
            # taken labels and lookups are refused (and nothing changes)
            if label is not None:
                apply(m, x, ("reg_" + side, ("fn", "never") if order % 2 else ("eq", "unused"), label, ("call", 99)), ctx)
            apply(m, x, ("reg_" + side, lk, None, ("call", 99)), ctx)
        labels = ALL_LABELS[::-1] if order & 2 else ALL_LABELS
        lookups = [e[0] for e in m.sides[side]]
        if order & 4:
            for lk in lookups[order % 3::3]:
                apply(m, x, ("unreg_" + side, "lookup", lk), ctx)
        for label in labels:
            apply(m, x, ("unreg_" + side, "label", label), ctx)
        for lk in lookups:
            apply(m, x, ("unreg_" + side, "lookup", lk), ctx)
    sweep_queries(m, x, ctx, TYPES[order % 4::4])


def sweep_queries(m, x, ctx, types=TYPES):
    for s in types:
        check_query(m, s, x, "enc", None, ctx)
        check_query(m, s, x, "dec", True, ctx)
        check_query(m, s, x, "dec", False, ctx)
