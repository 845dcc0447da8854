"""Oracles shared by the checks: what a coding call must do, judged by vabi.ref."""
from . import ref, sut
from .core import Skip
from .sut import fail
from .abit import P


def enc_faults(types, vals):
    faults = set()
    if len(types) != len(vals):
        faults.add(ref.BOUNDS)
    for t, v in zip(types, vals):
        faults |= ref.domain(P(t), v)
    return faults


def enc_bytes(types, vals, packed):
    ts = [P(t) for t in types]
    if packed:
        return b"".join(ref.packed(t, v) for t, v in zip(ts, vals))
    return ref.enc_args(ts, vals)


def judge_encode(types, vals, out, packed=False, rec=None, classes=True, ctx=""):
    """Checks the outcome of encoding arbitrary values against the reference."""
    fn = "encode_packed" if packed else "encode"
    faults = enc_faults(types, vals)
    if ref.AMBIG in faults:
        if faults - {ref.AMBIG, ref.NEGRES} and out.ok:
            fail("%s%s(%s, %s) accepted a value outside the domain: %s", ctx, fn, types, vals, out)
        if not out.ok and not isinstance(out.exc, sut.EncodingError):
            fail("%s%s(%s, %s) %s instead of an EncodingError", ctx, fn, types, vals, out)
        return "ambiguous"
    if not faults:
        want = enc_bytes(types, vals, packed)
        if not out.ok:
            fail("%s%s(%s, %s) %s for a value of the type", ctx, fn, types, vals, out)
        if type(out.value) is not bytes:
            fail("%s%s(%s, %s) returned a %s", ctx, fn, types, vals, type(out.value).__name__)
        if out.value != want:
            fail("%s%s(%s, %s) = %s, expected %s", ctx, fn, types, vals, out.value.hex(), want.hex())
        return "ok"
    if faults == {ref.NEGRES}:
        if out.ok:
            if out.value == enc_bytes(types, vals, packed):
                if rec is not None:
                    rec.hit(
                        "negative-residue",
                        "%s%s(%s, %s) = %s: accepts a negative value with more decimals than the type holds"
                        % (ctx, fn, types, sut.cut(sut.repr_(vals)), out.value.hex()),
                    )
                return "known"
            fail("%s%s(%s, %s) = %s for a value with excess precision", ctx, fn, types, vals, out.value.hex())
        if not isinstance(out.exc, sut.IllegalValue):
            fail("%s%s(%s, %s) %s, expected IllegalValue", ctx, fn, types, vals, out)
        return "illegal"
    if out.ok:
        fail("%s%s(%s, %s) accepted a value outside the domain (%s): %s", ctx, fn, types, vals, sorted(faults), out)
    want = sut.allowed_classes(faults) if classes else (sut.EncodingError,)
    if not isinstance(out.exc, want):
        fail("%s%s(%s, %s) %s, expected %s", ctx, fn, types, vals, out, [c.__name__ for c in want])
    return "+".join(sorted(faults))


def has_string(t):
    if t.kind == "el":
        return t.canon[0] == "string"
    if t.kind == "arr":
        return has_string(t.item)
    return any(has_string(c) for c in t.items)


def judge_decode(types, data, strict, out, budget=20000, ctx=""):
    """Checks the outcome of decoding arbitrary bytes against the reference."""
    ts = [P(t) for t in types]
    try:
        d = ref.decode(ts, data, strict, budget)
    except ref.Budget:
        raise Skip()
    except ref.Reject as e:
        if out.ok:
            fail("%sdecode(%s, %s, strict=%s) %s for malformed data (%s)", ctx, types, bytes(data).hex(), strict, out, e.kind)
        if isinstance(out.exc, sut.DecodingError):
            return "reject-" + e.kind
        if (
            isinstance(out.exc, UnicodeDecodeError)
            and any(map(has_string, ts))
            and any(b >= 0x80 for b in data)
        ):
            return "reject-" + e.kind
        fail("%sdecode(%s, %s, strict=%s) %s, expected a DecodingError (%s)", ctx, types, bytes(data).hex(), strict, out, e.kind)
    if d.bad_text:
        if out.ok or not isinstance(out.exc, UnicodeDecodeError):
            fail("%sdecode(%s, %s, strict=%s) %s, expected UnicodeDecodeError", ctx, types, bytes(data).hex(), strict, out)
        return "bad-text"
    if not out.ok:
        fail("%sdecode(%s, %s, strict=%s) %s for well-formed data", ctx, types, bytes(data).hex(), strict, out)
    if not ref.same(out.value, d.value):
        fail("%sdecode(%s, %s, strict=%s) = %s, expected %s", ctx, types, bytes(data).hex(), strict, out.value, d.value)
    return "accept"


def is_budget_ok(types, data, strict, budget=20000):
    """False if decoding would do exponential aliasing work; call before the code
    under test sees the payload."""
    try:
        ref.decode([P(t) for t in types], data, strict, budget)
    except ref.Budget:
        return False
    except ref.Reject:
        return True
    return True
