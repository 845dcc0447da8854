import decimal
from decimal import Decimal

from .. import expect, gen, ref, sut, sweeps
from ..abit import ALL_FIXED, P
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are a fixed-point type (all 5,120 widths and exponents are swept), an integer k at or "
    "beyond its boundaries or random, a spelling of k*10^-N (or a neighbour with excess digits, an int, "
    "NaN, infinity) and an ambient decimal context (precision 1.., every rounding mode, trap sets, "
    "exponent limits, clamp). Encoding (standard, packed, is_encodable) and decoding run under that "
    "context and are judged with exact rational arithmetic outside it; the context's settings must be "
    "unchanged. Non-trivial: k has more digits than the ambient precision, or the value is refused, or "
    "the context traps; distinct by type, value and context."
)

SIGNALS = {
    s.__name__: s
    for s in (
        decimal.Clamped, decimal.DivisionByZero, decimal.Inexact, decimal.Rounded, decimal.Subnormal,
        decimal.Overflow, decimal.Underflow, decimal.FloatOperation, decimal.InvalidOperation,
    )
}
ALL = sorted(SIGNALS)
ROUNDINGS = [
    decimal.ROUND_HALF_EVEN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_UP,
    decimal.ROUND_DOWN, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_05UP,
]
DEFAULT_TRAPS = ["DivisionByZero", "InvalidOperation", "Overflow"]
# (prec, rounding, Emin, Emax, capitals, clamp, traps)
CONTEXTS = [
    (28, "ROUND_HALF_EVEN", -999999, 999999, 1, 0, DEFAULT_TRAPS),
    (1, "ROUND_HALF_EVEN", -999999, 999999, 1, 0, []),
    (1, "ROUND_UP", 0, 0, 0, 1, ALL),
    (3, "ROUND_FLOOR", -5, 5, 1, 0, []),
    (2, "ROUND_CEILING", -1, 1, 1, 1, ["Inexact", "Rounded"]),
    (28, "ROUND_DOWN", -10, 10, 0, 0, ALL),
    (77, "ROUND_05UP", -999999, 999999, 1, 1, ["Inexact"]),
    (78, "ROUND_HALF_UP", -80, 80, 1, 0, ["Subnormal", "Underflow", "Clamped"]),
    (999, "ROUND_HALF_DOWN", -999999, 999999, 1, 0, ALL),
    (5000, "ROUND_UP", decimal.MIN_EMIN, decimal.MAX_EMAX, 0, 0, ["FloatOperation"]),
    (decimal.MAX_PREC, "ROUND_HALF_EVEN", decimal.MIN_EMIN, decimal.MAX_EMAX, 1, 0, ["Inexact"]),
]


def build(c):
    prec, rounding, emin, emax, capitals, clamp, traps = c
    return decimal.Context(
        prec=prec, rounding=rounding, Emin=emin, Emax=emax, capitals=capitals, clamp=clamp,
        traps=[SIGNALS[t] for t in traps], flags=[],
    )


def settings(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(s.__name__ for s, on in c.traps.items() if on)))


def under(ctx, fn, *a, **k):
    """Calls fn with ctx as the ambient context; checks that it is left alone."""
    saved = decimal.getcontext()
    c = build(ctx)
    want = settings(c)
    decimal.setcontext(c)
    try:
        out = sut.call(fn, *a, **k)
        after = decimal.getcontext()
        got = settings(after)
    finally:
        decimal.setcontext(saved)
    if got != want:
        fail("%s%s changed the decimal context from %s to %s", fn.__name__, repr(a)[:200], want, got)
    return out


def text(ctx):
    return "under %s: " % (ctx,)


def run_encode(case, rec):
    types, vals, ctx = case
    vals = realize(vals)
    where = text(ctx)
    outs = []
    for fn, packed in ((sut.encode, False), (sut.encode_packed, True)):
        out = under(ctx, fn, types, vals)
        kind = expect.judge_encode(types, vals, out, packed=packed, rec=rec, ctx=where)
        outs.append(out)
    for t, v in zip(types, vals):
        for fn, out in ((sut.is_encodable, outs[0]), (sut.is_encodable_packed, outs[1])):
            if len(types) == 1:
                o = under(ctx, fn, t, v)
                if not o.ok or o.value is not out.ok:
                    fail("%s%s(%s, %s) %s but encoding %s", where, fn.__name__, t, v, o, out)
    rec.label(kind)
    if kind != "ok" or ctx[6] or any(len(d.as_tuple().digits) > ctx[0] for d in vals if isinstance(d, Decimal)):
        rec.nontrivial(types, sut.repr_(vals), ctx)
    # decoding what was encoded, under the same context
    if kind == "ok":
        o = under(ctx, sut.decode, types, outs[0].value)
        expect.judge_decode(types, outs[0].value, True, o, ctx=where)


def run_decode(case, rec):
    types, data, ctx = case
    if not expect.is_budget_ok(types, data, True):
        return
    for strict in (True, False):
        out = under(ctx, sut.decode, types, data, strict=strict)
        rec.label(expect.judge_decode(types, data, strict, out, ctx=text(ctx)))
    rec.nontrivial(types, data, ctx)


def enum(tier, seed):
    for i, s in enumerate(ALL_FIXED):
        yield ("type", s, i)
    for n in range(1, 81):
        for u in ("fixed", "ufixed"):
            if tier == "thorough" or n in (1, 2, 3, 18, 79, 80):
                yield ("all8", "%s8x%d" % (u, n), n)
    for i, s in enumerate(gen.FIXED_EL + ["fixed", "ufixed", "fixed8x2", "ufixed16x4", "fixed256x79"]):
        yield ("near", s, i)


def run_enum(case, rec):
    kind = case[0]
    if kind == "encode":
        return run_encode(case[1:], rec)
    if kind == "decode":
        return run_decode(case[1:], rec)
    s, i = case[1], case[2]
    base, (m, n) = P(s).canon
    lo, hi = ref.int_bounds(base == "fixed", m)

    def enc(v, ctx):
        rec.more(1)
        with narrow(("encode", [s], [v], ctx)):
            run_encode(([s], [v], ctx), rec)

    if kind == "type":
        ks = [lo, hi, lo - 1, hi + 1, hi - 1, lo + 1, 1, 10**min(n, 77) - 1, 0]
        ks += [-1] if base == "fixed" else []
        for j, k in enumerate(ks):
            enc(gen.dec(k, n, (i + j) % 4), CONTEXTS[(i + j) % len(CONTEXTS)])
        # excess digits next to the bounds and next to zero
        for j, k in enumerate((hi * 10 + 1, (hi - 1) * 10 + 5, 1, lo * 10 - 1 if lo else -1)):
            enc(gen.dec(k, n + 1), CONTEXTS[(i * 3 + j) % len(CONTEXTS)])
        ctx = CONTEXTS[(i * 5 + 1) % len(CONTEXTS)]
        for j, k in enumerate((hi, lo, hi // 3, lo // 7, 10**min(n, 60) % (hi + 1))):
            data = ref.word(k % 2**256)
            rec.more(1)
            with narrow(("decode", [s], data, ctx)):
                run_decode(([s], data, ctx), rec)
        return
    if kind == "all8":
        for k in range(lo - 2, hi + 3):
            enc(gen.dec(k, n, k % 4), CONTEXTS[(k + i) % len(CONTEXTS)])
        for k in range(256):
            for data in (ref.word(k), ref.word((k - 256) % 2**256)):
                with narrow(("decode", [s], data, CONTEXTS[k % len(CONTEXTS)])):
                    run_decode(([s], data, CONTEXTS[k % len(CONTEXTS)]), rec)
        return
    for j, v in enumerate(gen.near_list(P(s)) + gen.JUNK + EXTREME):
        for d in range(3):
            enc(v, CONTEXTS[(i + j + 4 * d) % len(CONTEXTS)])


EXTREME = [
    Decimal("1E+%d" % e) for e in (1, 76, 77, 78, 100, 997, 998, 999, 1000, 2000, 10**6, 10**17)
] + [Decimal("1E-%d" % e) for e in (1, 80, 81, 82, 100, 918, 919, 998, 999, 1000, 1079, 1080, 2000, 10**6, 10**17)] + [
    Decimal("0E+%d" % e) for e in (1, 100, 10**6, 10**17)
] + [Decimal("0E-%d" % e) for e in (1, 81, 1000, 10**6, 10**17)] + [
    Decimal("-0"), Decimal("0.1"), Decimal("0.10"), Decimal("1." + "0" * 1200), Decimal("1." + "0" * 1200 + "1"),
    Decimal("0." + "9" * 80), Decimal("0." + "9" * 81), Decimal("0." + "9" * 1100), Decimal("12." + "7" * 998), Decimal("NaN123"),
    Decimal("-NaN"), Decimal("sNaN5"), Decimal("-Infinity"), Decimal("1" + "0" * 1100), Decimal("10" * 600), 10**80, -(10**80), 10**1100,
]


def draw_context(draw):
    if draw(gen.I(0, 2)) == 0:
        return draw(gen.S(CONTEXTS))
    emax = draw(gen.S([999999, 0, 1, 10, 77, 78, 100]))
    emin = -draw(gen.S([999999, 0, 1, 10, 79, 80, 81, 100]))
    k = draw(gen.I(0, 3))
    traps = [] if k == 0 else ALL if k == 1 else DEFAULT_TRAPS if k == 2 else [t for t in ALL if draw(gen.I(0, 1))]
    return (draw(gen.S(PRECS)), draw(gen.S(ROUNDINGS)), emin, emax, draw(gen.I(0, 1)), draw(gen.I(0, 1)), traps)


PRECS = [28, 1, 2, 3, 5, 9, 18, 19, 27, 29, 38, 39, 40, 50, 76, 77, 78, 79, 100, 300]
TYPES = ALL_FIXED[::7] + gen.FIXED_EL * 8 + ["fixed", "ufixed"] * 8
WITH = TYPES + ["bool", "bytes", "uint8", "string"] * 12


@composite
def enc_case(draw):
    if draw(gen.I(0, 2)):
        s = draw(gen.S(TYPES))
        base, (m, n) = P(s).canon
        lo, hi = ref.int_bounds(base == "fixed", m)
        mode = draw(gen.I(0, 4))
        k = gen.draw_int(draw, lo, hi)
        if mode <= 1:
            v = gen.dec(k, n, draw(gen.I(0, 4)))
        elif mode == 2:  # k with excess digits
            extra = draw(gen.I(1, 30)) if draw(gen.I(0, 1)) else draw(gen.S(gen.RESIDUE_EXTRA))
            v = gen.dec(k * 10**extra + draw(gen.S(gen.RESIDUES)), n + extra, draw(gen.I(0, 2)))
        elif mode == 3:
            v = gen.near(draw, P(s))
        else:
            v = draw(gen.S(EXTREME))
        return [s], [v], draw_context(draw)
    types = draw(gen.type_list(max_len=2, min_len=1, depth=2, only=WITH))
    return types, [gen.draw_any(draw, P(t), 1) for t in types], draw_context(draw)


@composite
def dec_case(draw):
    if draw(gen.I(0, 1)):
        s = draw(gen.S(TYPES))
        base, (m, n) = P(s).canon
        lo, hi = ref.int_bounds(base == "fixed", m)
        k = gen.draw_int(draw, lo, hi)
        return [s], ref.word(k % 2**256), draw_context(draw)
    types, data, kind = draw(gen.payload(only=WITH, depth=2))
    return types, data, draw_context(draw)


def parts(tier):
    return [
        Part("sweep", run_enum, enum=enum),
        Part("encode", run_encode, cases=enc_case(), n=(16000, 400000), size=200),
        Part("decode", run_decode, cases=dec_case(), n=(8000, 200000), size=300),
    ]
