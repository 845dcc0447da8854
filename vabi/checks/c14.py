from .. import expect, gen, sut, sweeps
from ..abit import ALIAS_NAMES, ALIAS_STR, Bad, El, P, canonical, leaves, parse
from ..core import Part, Skip, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are types with aliases at one or more leaves and any value or payload: every operation "
    "(encode, encode_packed, decode in both modes, is_encodable, is_encodable_type) must give for the "
    "alias spelling the result it gives for the canonical spelling, and that result must be the "
    "reference's. normalize() is compared with rewriting of whole-word tokens on grammatical strings "
    "and on words that contain, extend or surround the alias names. Non-trivial: the type contains "
    "an alias (or, for normalize, the text contains an alias name); distinct by case."
)


def same_out(a, b):
    if a.ok != b.ok:
        return False
    if a.ok:
        return type(a.value) is type(b.value) and repr(a.value) == repr(b.value)
    return type(a.exc) is type(b.exc)


def compare(name, s, c, a, b, arg):
    if not same_out(a, b):
        fail("%s for %s %s but for %s %s (argument %s)", name, s, a, c, b, arg)


def run_value(case, rec):
    types, vals = case
    canon = [str(canonical(P(t))) for t in types]
    if canon != types:
        rec.nontrivial(types, sut.repr_(vals))
    for name, fn in (("encode", sut.encode), ("encode_packed", sut.encode_packed)):
        a = sut.call(fn, types, realize(vals))
        b = sut.call(fn, canon, realize(vals))
        compare(name, types, canon, a, b, vals)
        expect.judge_encode(types, realize(vals), a, packed=fn is sut.encode_packed)
    ok = a.ok
    rec.label("encoded" if ok else "refused")
    for t, c, v in zip(types, canon, vals):
        for name, fn in (("is_encodable", sut.is_encodable), ("is_encodable_packed", sut.is_encodable_packed)):
            compare(name, t, c, sut.call(fn, t, realize(v)), sut.call(fn, c, realize(v)), v)
        for name, fn in (
            ("is_encodable_type", sut.is_encodable_type),
            ("packed is_encodable_type", sut.packed.default_encoder_packed.is_encodable_type),
        ):
            a, b = sut.call(fn, t), sut.call(fn, c)
            if not a.ok or a.value is not True:
                fail("%s(%s) %s", name, t, a)
            compare(name, t, c, a, b, "")
        check_normalize(t)


def run_payload(case, rec):
    types, data, kind = case
    canon = [str(canonical(P(t))) for t in types]
    if canon != types:
        rec.nontrivial(types, data)
    for strict in (True, False):
        if not expect.is_budget_ok(types, data, strict):
            raise Skip()
    for strict in (True, False):
        a = sut.call(sut.decode, types, data, strict=strict)
        b = sut.call(sut.decode, canon, data, strict=strict)
        compare("decode strict=%s" % strict, types, canon, a, b, data.hex())
        rec.label(expect.judge_decode(types, data, strict, a))


def aliases_of(t):
    """All-alias spelling of a type where canonical leaves have an alias."""
    back = {v: k for k, v in ALIAS_STR.items()}

    def go(t):
        if t.kind == "el":
            return back.get(str(t), str(t))
        if t.kind == "arr":
            return "%s[%s]" % (go(t.item), "" if t.size is None else t.size)
        return "(%s)" % ",".join(go(c) for c in t.items)

    return go(t)


# ------------------------------------------------------------------ normalize


def expected_normal(s):
    """Rewrites whole-word alias names (words are runs of letters, digits, underscores)."""
    out, i = [], 0
    while i < len(s):
        j = i
        while j < len(s) and (s[j].isalnum() or s[j] == "_"):
            j += 1
        if j > i:
            out.append(ALIAS_STR.get(s[i:j], s[i:j]))
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def check_normalize(s):
    out = sut.call(sut.grammar.normalize, s)
    want = expected_normal(s)
    if not out.ok or type(out.value) is not str or out.value != want:
        fail("normalize(%s) %s, expected %s", repr(s), out, repr(want))
    again = sut.call(sut.grammar.normalize, out.value)
    if not again.ok or again.value != out.value:
        fail("normalize is not idempotent on %s: %s", repr(s), again)
    try:
        t = parse(s)
    except Bad:
        return
    if want != str(canonical(t)):
        fail("harness: %s vs %s", want, str(canonical(t)))


def run_normalize(case, rec):
    check_normalize(case)
    if any(a in case for a in ALIAS_NAMES):
        rec.nontrivial(case)
    rec.label("changed" if expected_normal(case) != case else "unchanged")


AROUND = ["", "a", "u", "x", "8", "256", "s", "_", " ", ",", "(", ")", "[", "]", "[]", "[2]", "int", "uint", "fixed", "byte", "bytes", "function", "128x18", "0", "X", "Int"]


def enum(tier, seed):
    for a in ALIAS_NAMES + ["Int", "INT", "UINT", "Fixed", "Byte", "Function", "bytes", "string", "address", "bool", "ints", "hash"]:
        yield ("around", a)
    for i, a in enumerate(ALIAS_NAMES):
        for j, tpl in enumerate(sweeps.TEMPLATES):
            yield ("tpl", a, tpl)
        yield ("near", a)
        for j, tpl in enumerate(sweeps.MULTI):
            yield ("multi", a, j)
        for b in ALIAS_NAMES:
            yield ("mixed", a, b)
    for n in (9, 17, 33, 40, 65, 129, 300) if tier == "quick" else (9, 16, 17, 32, 33, 40, 64, 65, 128, 129, 256, 257, 300, 1030):
        for form in range(6):
            yield ("many", n, form)


MIXED = ["(A,B)", "(A,C,B)[]", "(A[2],B[])[2]", "((A),(B,D))", "(B,A,B,A)", "(C[],(A,B)[],D)", "(string,A,(B,bytes)[][2])"]


def run_enum(case, rec):
    kind = case[0]
    if kind == "norm":
        return run_normalize(case[1], rec)
    if kind == "value":
        return run_value((case[1], case[2]), rec)
    if kind == "payload":
        return run_payload((case[1], case[2], ""), rec)

    def full(types, vals):
        rec.more(3)
        with narrow(("value", types, vals)):
            run_value((types, vals), rec)
        out = sut.call(sut.encode, types, realize(vals))
        if out.ok:
            for data in (out.value, out.value[:-1], out.value + b"\1", bytes([255]) + out.value[1:], out.value[:-1] + b"\xff"):
                with narrow(("payload", types, data)):
                    run_payload((types, data, ""), rec)

    if kind == "around":
        for p in AROUND:
            for q in AROUND:
                s = p + case[1] + q
                rec.more(1)
                with narrow(("norm", s)):
                    run_normalize(s, rec)
    elif kind == "near":
        t = P(case[1])
        for v in gen.near_list(t) + sweeps.el_vals(case[1]) + gen.JUNK:
            full([case[1]], [v])
            rec.more(1)
            with narrow(("value", ["(%s,bool)[]" % case[1]], [[(v, True)]])):
                run_value((["(%s,bool)[]" % case[1]], [[(v, True)]]), rec)
    elif kind == "tpl":
        s = case[2].replace("T", case[1])
        for k, seq in enumerate(([0], [1], [2, 1])):
            full([s], [sweeps.fill(P(s), sweeps.Picker(k), sweeps.Lens(seq))])
    elif kind == "many":
        n, form = case[1], case[2]
        if form == 0:
            names = [ALIAS_NAMES[i % len(ALIAS_NAMES)] for i in range(n)]
        elif form == 1:
            names = ["int"] * n
        elif form == 2:
            names = ["bool"] * (n - 1) + ["uint"]
        elif form == 3:
            names = ["byte"] + ["uint8"] * (n - 2) + ["function"]
        elif form == 4:
            names = ["(ufixed,string)"] * (n // 2) + ["(bytes,(fixed,uint[2]))"]
        else:
            names = ["uint[]", "byte[2]", "(int)[]"] * (n // 3)
        s = "(%s)" % ",".join(names)
        for v in sweeps.Picker(form)(P("uint")), sweeps.Picker(n)(P("uint")):
            full([s], [sweeps.fill(P(s), sweeps.Picker(v % 7), sweeps.Lens([1, 0]))])
        full(names, [sweeps.fill(P(t), sweeps.Picker(i), sweeps.Lens([1])) for i, t in enumerate(names)])
        if n < 40:
            for k in range(n):
                s = "uint" + "[1]" * k
                full([s], [sweeps.fill(P(s), sweeps.Picker(form), sweeps.Lens([1]))])
    elif kind == "multi":
        tss = [x.replace("T", case[1]) for x in sweeps.MULTI[case[2]]]
        full(tss, [sweeps.fill(P(ts), sweeps.Picker(i), sweeps.Lens([2])) for i, ts in enumerate(tss)])
    else:
        a, b = case[1], case[2]
        for tpl in MIXED:
            s = tpl.replace("A", a).replace("B", b).replace("C", ALIAS_STR[a]).replace("D", ALIAS_STR[b])
            full([s], [sweeps.fill(P(s), sweeps.Picker(3), sweeps.Lens([2, 1]))])


POOL = ALIAS_NAMES * 4 + list(ALIAS_STR.values()) + ["bytes", "string", "uint8", "bool", "bytes2", "int64"]


@composite
def value(draw):
    types = draw(gen.type_list(max_len=2, min_len=1, depth=3, only=POOL))
    return types, [gen.draw_any(draw, P(t), fault_rate=1) for t in types]


@composite
def norm_text(draw):
    k = draw(gen.I(0, 2))
    if k == 0:
        return draw(gen.type_str(depth=4, only=POOL))
    return "".join(draw(gen.S(AROUND)) if draw(gen.I(0, 2)) else draw(gen.S(ALIAS_NAMES)) for _ in range(draw(gen.I(1, 6))))


def parts(tier):
    return [
        Part("sweep", run_enum, enum=enum),
        Part("values", run_value, cases=value(), n=(8000, 200000)),
        Part("payloads", run_payload, cases=gen.payload(only=POOL), n=(8000, 200000)),
        Part("normalize", run_normalize, cases=norm_text(), n=(16000, 200000), size=120),
    ]
