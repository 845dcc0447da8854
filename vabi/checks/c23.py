import copy

from .. import gen, ref, regmodel, sut
from ..core import Part, Skip, Violation
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are histories of 5..24 operations over a growing set of at most 6 registries, starting from "
    "an empty registry (also of a subclass) or the default one: copying any of them (copy method, copy.copy, copy.deepcopy, "
    "deep copies of structures holding the registry), registering and unregistering on any "
    "of them, and lookups and codings on any of them. Each registry has its own model (C09's); after "
    "changes a part of, and at the end all of, 27 types are resolved and coded on all registries, and "
    "the registries are emptied one after another and the default registry and codecs compared with a pristine model. Packed cases do the same for "
    "copies of the packed registry, and a grid for registries with no encoders, no decoders or neither. Non-trivial: a registry was changed after it had been copied or "
    "was itself a copy, with lookups before; distinct by history."
)

COPY = ["method", "copy", "deepcopy", "dict", "list"]
# a poisoned default registry makes every later case fail: only the case that did it counts
poisoned = []


def make_copy(reg, how):
    """A real copy of the registry by the given means."""
    if how == "method":
        return reg.copy()
    if how == "copy":
        return copy.copy(reg)
    if how == "deepcopy":
        return copy.deepcopy(reg)
    if how == "list":
        a, b = copy.deepcopy([reg, reg])
        if a is reg or b is reg:
            fail("a deep copy of a list holds the same registry object")
        return a
    return copy.deepcopy({"x": [reg], "y": (1, 2)})["x"][0]


@composite
def history(draw):
    ops = []
    pool = draw(gen.S(regmodel.POOLS)) if draw(gen.I(0, 2)) == 0 else regmodel.LOOKUPS
    n = draw(gen.I(5, 24))
    for i in range(n):
        k = draw(gen.I(0, 5))
        at = draw(gen.I(0, 59))
        if k == 0 or i == 0 and k <= 3:
            ops.append(("copy", at, draw(gen.S(COPY))))
        else:
            ops.append(("on", at, regmodel.draw_op(draw, i + 1, pool)))
    return draw(gen.I(0, 5)), ops


def check_default(ctx):
    m = regmodel.Model(True)
    x = regmodel.Sut(sut.registry.registry)
    try:
        regmodel.sweep_queries(m, x, ctx + "the default registry: ")
        for t, v, want in DEFAULTS:
            out = sut.call(sut.encode, [t], [v])
            if not out.ok or out.value != want:
                fail("%sthe default encode([%s], [%s]) %s", ctx, t, v, out)
            out = sut.call(sut.decode, [t], want)
            if not out.ok or out.value != (v,):
                fail("%sthe default decode([%s]) %s", ctx, t, out)
            if sut.is_encodable(t, v) is not True:
                fail("%sthe default is_encodable(%s, %s) is not True", ctx, t, v)
        for t in ("cuA", "cu8", "da", "cuA[]", "(cuA,cuB)"):
            if sut.is_encodable_type(t) is not False:
                fail("%sthe default is_encodable_type(%s) is not False", ctx, t)
    except Violation:
        poisoned.append(ctx)
        raise


DEFAULTS = [
    ("uint8", 7, ref.word(7)), ("bool", True, ref.word(1)), ("bytes4", b"abcd", b"abcd" + bytes(28)),
    ("string", "hi", ref.word(32) + ref.word(2) + b"hi" + bytes(30)),
    ("bytes", b"hi", ref.word(32) + ref.word(2) + b"hi" + bytes(30)),
    ("(uint8,int8)[2]", ((1, -1), (2, -2)), ref.word(1) + b"\xff" * 32 + ref.word(2) + b"\xff" * 31 + b"\xfe"),
    ("uint8[]", (3,), ref.word(32) + ref.word(1) + ref.word(3)),
    ("address", "0x" + "11" * 20, bytes(12) + b"\x11" * 20),
]


SUB = []


def sub_class():
    """A subclass of the registry that looks at what is registered."""
    if not SUB:
        class Sub(sut.registry.ABIRegistry):
            def register_encoder(self, lookup, encoder, label=None):
                if label == "forbidden":
                    raise ValueError("forbidden")
                super().register_encoder(lookup, encoder, label=label)

            def has_encoder(self, type_str):
                return super().has_encoder(type_str) and type_str != "forbidden"

        SUB.append(Sub)
    return SUB[0]


def run_history(case, rec):
    if poisoned:
        raise Skip
    start, ops = case
    if start == 5:
        reg, m = sub_class()(), regmodel.Model(False)
        pre = [("reg", ("fn", "has_arrlist"), "has_arrlist", ("builtin", "has_arrlist")),
               ("reg", ("base", "uint", None), "uint", ("builtin", "uint"))]
    elif start == 4:
        reg, m, pre = sut.registry.ABIRegistry(), regmodel.Model(False), []
    elif start == 0:
        reg, m = sut.registry.ABIRegistry(), regmodel.Model(False)
        pre = [("reg", ("fn", "has_arrlist"), "has_arrlist", ("builtin", "has_arrlist")),
               ("reg", ("fn", "is_base_tuple"), "is_base_tuple", ("builtin", "is_base_tuple"))]
    else:
        reg, m, pre = sut.registry.registry.copy(), regmodel.Model(True), []
    world = [(m, regmodel.Sut(reg))]
    for op in pre:
        regmodel.apply(m, world[0][1], op, "")
    if start == 2:
        regmodel.sweep_queries(m, world[0][1], "before any change: ")
    if start == 3:
        # the default registry takes part as a source of copies (it is never changed)
        d = sut.registry.registry
        how = COPY[len(ops) % len(COPY)]
        world.append((regmodel.Model(True), regmodel.Sut(make_copy(d, how))))
    used = start == 2
    copied = set()
    for i, op in enumerate(ops):
        op = tuple(op)
        at = op[1] % len(world)
        m, x = world[at]
        if op[0] == "copy":
            if len(world) >= 6:
                continue
            new = make_copy(x.reg, op[2])
            if type(new) is not type(x.reg):
                fail("operation %s: a copy (%s) of a %s is a %s", i, op[2], type(x.reg).__name__, type(new).__name__)
            if new is x.reg:
                fail("operation %s: a copy (%s) is the same object", i, op[2])
            if type(new) is not type(x.reg):
                fail("operation %s: a copy (%s) of %s is a %s", i, op[2], type(x.reg).__name__, type(new).__name__)
            world.append((m.copy(), regmodel.Sut(new)))
            copied |= {at, len(world) - 1}
            rec.label("copy-" + op[2])
            ts = regmodel.TYPES[i % 3::3]
            regmodel.sweep_queries(world[-1][0], world[-1][1], "operation %d: right after copying: " % i, ts)
            continue
        label = regmodel.apply(m, x, tuple(op[2]), "operation %d on registry %d: " % (i, at))
        rec.label(label)
        if label.startswith("query"):
            used = True
        elif not label.endswith(("refused", "skipped", "badlookup")):
            if used and at in copied:
                rec.nontrivial()
            ts = regmodel.TYPES[i % 7::7]
            for j, (m2, x2) in enumerate(world):
                regmodel.sweep_queries(m2, x2, "after operation %d on registry %d: registry %d: " % (i, at, j), ts)
    for j, (m2, x2) in enumerate(world):
        regmodel.sweep_queries(m2, x2, "at the end: registry %d: " % j)
    # emptying one leaves the others alone, labels included
    first = len(ops) % len(world)
    order = world[first:] + world[:first]
    for j, (m2, x2) in enumerate(order):
        regmodel.drain(m2, x2, "emptying the registries one after another: ", len(ops) + j)
        for m3, x3 in order[j + 1:j + 2]:
            regmodel.sweep_queries(m3, x3, "after emptying others: ", regmodel.TYPES[j % 6::6])
    check_default("at the end: ")
    rec.more(len(ops))


# ---- copies of the packed registry

LABELS = {
    # label -> (type, value, packed encoding)
    "uint": ("uint16", 258, b"\x01\x02"), "int": ("int8", -1, b"\xff"), "bool": ("bool", True, b"\x01"),
    "address": ("address", "0x" + "22" * 20, b"\x22" * 20), "bytes<M>": ("bytes2", b"ab", b"ab"),
    "bytes": ("bytes", b"xyz", b"xyz"), "string": ("string", "q", b"q"),
    "fixed": ("fixed8x1", 0, b"\0"), "ufixed": ("ufixed8x1", 0, b"\0"),
}
KEYS = sorted(LABELS)


@composite
def packed_history(draw):
    ops = []
    for i in range(draw(gen.I(3, 16))):
        k = draw(gen.I(0, 4))
        at = draw(gen.I(0, 59))
        if k == 0:
            ops.append(("copy", at, draw(gen.S(COPY))))
        elif k <= 2:
            ops.append(("remove", at, draw(gen.S(KEYS))))
        else:
            ops.append(("add", at, draw(gen.S(KEYS)), i + 1))
    return draw(gen.I(0, 1)), ops


def check_packed(st, enc, is_enc, is_type, ctx):
    for k in KEYS:
        t, v, want = LABELS[k]
        if st[k] is not None and st[k] != "std":
            want = bytes([st[k]])
        for wrap in ("%s", "%s[]", "(%s,%s)"):
            s = wrap.replace("%s", t)
            val = v if wrap == "%s" else [v] if wrap == "%s[]" else (v, v)
            w = want * (2 if wrap == "(%s,%s)" else 1)
            out = sut.call(enc, [s], [val])
            if st[k] is None:
                if out.ok or not isinstance(out.exc, sut.NoEntriesFound):
                    fail("%sencoding %s %s, expected NoEntriesFound", ctx, s, out)
            elif not out.ok or out.value != w:
                fail("%sencoding %s of type %s %s, expected %s", ctx, val, s, out, w.hex())
            out = sut.call(is_type, s)
            if not out.ok or out.value is not (st[k] is not None):
                fail("%sis_encodable_type(%s) %s", ctx, s, out)
            out = sut.call(is_enc, s, val)
            if not out.ok or out.value is not (st[k] is not None):
                fail("%sis_encodable(%s, %s) %s", ctx, s, val, out)


def run_packed(case, rec):
    if poisoned:
        raise Skip
    from eth_abi.codec import ABIEncoder

    warm, ops = case
    reg = sut.registry.registry_packed.copy()
    world = [({k: "std" for k in KEYS}, reg, ABIEncoder(reg))]

    def look(which, ctx):
        for j, (st, _, e) in enumerate(which):
            check_packed(st, e.encode, e.is_encodable, e.is_encodable_type, "%sregistry %d: " % (ctx, j))

    if warm:
        look(world, "before any change: ")
    changed = False
    for i, op in enumerate(ops):
        st, reg, e = world[op[1] % len(world)]
        if op[0] == "copy":
            if len(world) < 5:
                new = make_copy(reg, op[2])
                world.append((dict(st), new, ABIEncoder(new)))
            continue
        label = op[2]
        if op[0] == "remove":
            out = sut.call(reg.unregister_encoder, label)
            if out.ok is not (st[label] is not None):
                fail("operation %s: unregister_encoder(%s) %s", i, label, out)
            st[label] = None
        else:
            base = label.replace("<M>", "")
            sub = None if base != "bytes" else label == "bytes<M>"
            tag = op[3]
            out = sut.call(
                reg.register_encoder, sut.registry.BaseEquals(base, with_sub=sub),
                lambda v, tag=tag: bytes([tag]), label=label,
            )
            if out.ok is not (st[label] is None):
                fail("operation %s: register_encoder(%s) %s", i, label, out)
            if st[label] is None:
                st[label] = tag
        changed = True
        if i % 2:
            look(world, "after operation %d: " % i)
    look(world, "at the end: ")
    if changed and len(world) > 1:
        rec.nontrivial()
    p = sut.packed
    try:
        check_packed(
            {k: "std" for k in KEYS}, p.encode_packed, p.is_encodable_packed,
            p.default_encoder_packed.is_encodable_type, "the default packed codec: ",
        )
    except Violation:
        poisoned.append("packed")
        raise
    check_default_light()
    rec.more(len(ops))


def check_default_light():
    for t, v, want in DEFAULTS:
        out = sut.call(sut.encode, [t], [v])
        if not out.ok or out.value != want:
            poisoned.append("x")
            fail("after changes to copies of the packed registry, the default encode([%s], [%s]) %s", t, v, out)


# ---- registries with one side, or both, empty

ADD = {
    "zeta": ("zeta", lambda v: bytes(31) + b"z", lambda stream: stream.read(32) and "z"),
    "pre": (lambda s: s == "pre", lambda v: bytes(31) + b"p", lambda stream: stream.read(32) and "p"),
}


def empty_enum(tier, seed):
    for start in ("new", "packed", "decoders-only", "encoders-only", "emptied"):
        for how in COPY:
            for side in ("encoder", "decoder", "both"):
                for first in (0, 1):
                    for k in sorted(ADD):
                        yield (start, how, side, first, k)


def run_empty(case, rec):
    if poisoned:
        raise Skip
    start, how, side, first, key = case
    R = sut.registry
    if start == "packed":
        reg = R.registry_packed.copy()
    else:
        reg = R.ABIRegistry()
    if start == "emptied":
        reg.register("zeta", ADD["zeta"][1], ADD["zeta"][2])
        reg.unregister("zeta")
    if start in ("decoders-only", "encoders-only"):
        f = reg.register_decoder if start[0] == "d" else reg.register_encoder
        f("one", lambda x: 1)
    pair = [reg, make_copy(reg, how)]
    third = make_copy(pair[1], how)
    lookup, e, d = ADD[key]
    x, y = pair[first], pair[1 - first]
    label = None if key == "zeta" else key
    if side == "both":
        x.register(lookup, e, d, label=label)
    elif side == "encoder":
        x.register_encoder(lookup, e, label=label)
    else:
        x.register_decoder(lookup, d, label=label)

    def has(r, what):
        out = sut.call(r.get_encoder if what == "encoder" else r.get_decoder, key)
        if not out.ok and not isinstance(out.exc, sut.NoEntriesFound):
            fail("%s: get_%s(%s) %s", case, what, key, out)
        return out.ok

    def check(want, when):
        for r, name in ((x, "changed"), (y, "other"), (third, "third"), (R.registry, "default"), (R.registry_packed, "default packed")):
            for what in ("encoder", "decoder"):
                exp = name in want and side in (what, "both")
                got = has(r, what)
                if got is not exp:
                    if name.startswith("default"):
                        poisoned.append(case)
                    fail("%s: %s, the %s registry %s %s for %s", case, when, name, "has a" if got else "has no", what, key)

    check(("changed",), "after a registration on one of two copies")
    new = make_copy(x, how)
    if side == "both":
        x.unregister(key)
    elif side == "encoder":
        x.unregister_encoder(key)
    else:
        x.unregister_decoder(key)
    check((), "after the registration was undone")

    def put(r):
        if side == "both":
            return sut.call(r.register, lookup, e, d, label=label)
        f, v = (r.register_encoder, e) if side == "encoder" else (r.register_decoder, d)
        return sut.call(f, lookup, v, label=label)

    def drop(r):
        return sut.call(r.unregister if side == "both" else r.unregister_encoder if side == "encoder" else r.unregister_decoder, key)

    # the same registration, under the same label, in each of them
    for n, r in enumerate((x, y, third)):
        out = put(r)
        if not out.ok:
            fail("%s: registering %s in registry %d of three that were empty copies %s", case, key, n, out)
    check(("changed", "other", "third"), "after registering in each")
    out = put(y)
    if out.ok or not isinstance(out.exc, ValueError):
        fail("%s: registering %s twice %s", case, key, out)
    for r, left in ((y, ("changed", "third")), (third, ("changed",)), (x, ())):
        out = drop(r)
        if not out.ok:
            fail("%s: unregistering %s by its label %s", case, key, out)
        check(left, "after unregistering in turn")
        out = drop(r)
        if out.ok or not isinstance(out.exc, KeyError):
            fail("%s: unregistering %s twice %s", case, key, out)
    for what in ("encoder", "decoder"):
        if has(new, what) is not (side in (what, "both")):
            fail("%s: a copy made before the removal changed with it (%s)", case, what)
    rec.nontrivial()
    rec.label("empty-" + start)


def parts(tier):
    return [
        Part("empty", run_empty, enum=empty_enum),
        Part("histories", run_history, cases=history(), n=(2400, 60000), size=300),
        Part("packed", run_packed, cases=packed_history(), n=(1200, 30000), size=100),
    ]
