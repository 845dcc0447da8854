import itertools
import re

from .. import expect, gen, ref, sut, sweeps
from ..abit import Bad, P, parse
from ..abix import classify
from ..core import Part, Skip, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are calls that must fail: values outside the domain at any nesting (also huge ones), type "
    "strings with one invalid component at a known place, texts that do not parse, payloads with one "
    "corrupted offset, and lookups that match no or several registrations. The error must print, stay "
    "short and name its cause: a refused part of the value and its Python type, the invalid component "
    "and its column, the type string, the position of the offset. Non-trivial: the cause is not the "
    "whole argument; distinct by case."
)

LIMIT = 2000  # characters of message beyond the texts the caller supplied


def message(out, what, *args):
    """The printed error; it must print and be bounded."""
    try:
        s = str(out.exc)
        repr(out.exc)
    except Exception as e:
        fail(what + " raised an error that cannot be printed: %s", *(args + (repr(e),)))
    return s


def abbrev(v):
    try:
        r = repr(v)
    except Exception:
        return None
    return r if len(r) <= 60 else r[:60]


def culprits(t, v):
    """The parts of the value that are themselves at fault."""
    if t.kind == "el":
        return [v] if ref.domain(t, v) else []
    if not ref.listlike(v):
        return [v]
    out = []
    n = len(t.items) if t.kind == "tup" else t.size
    if n is not None and len(v) != n:
        out.append(v)
    for i, x in enumerate(v):
        if t.kind == "arr" or i < len(t.items):
            out += culprits(t.items[i] if t.kind == "tup" else t.item, x)
    return out


def run_value(case, rec):
    types, vals = case
    val = realize(vals)
    faults = expect.enc_faults(types, val)
    if not faults or faults & {ref.AMBIG, ref.NEGRES}:
        raise Skip
    bad = [val] if len(types) != len(val) else []
    for s, v in zip(types, val):
        bad += culprits(P(s), v)
    for name, fn in (("encode", sut.encode), ("encode_packed", sut.encode_packed)):
        out = sut.call(fn, types, val)
        if out.ok or not isinstance(out.exc, sut.EncodingError):
            continue  # C03
        msg = message(out, "%s(%s, %s)", name, types, vals)
        if len(msg) > LIMIT:
            fail("the error of %s(%s, %s) has %s characters", name, types, vals, len(msg))
        texts = [(abbrev(b), b) for b in bad]
        if not any(a is None or (a in msg and type(b).__name__ in msg) for a, b in texts):
            fail("the error of %s(%s, %s) names no part at fault (%s) and its type: %s", name, types, vals, [a for a, _ in texts][:3], msg)
    rec.label("value")
    if not (len(types) == 1 and P(types[0]).kind == "el"):
        rec.nontrivial()


def value_enum(tier, seed):
    for case in itertools.chain(sweeps.far_faults(tier, seed), sweeps.farther_faults(tier, seed)):
        yield (case[1], case[2])
    for s in sweeps.REPR_EL:
        for v in gen.JUNK + gen.near_list(P(s)):
            yield ([s], [v])
            yield (["(bool,%s)[]" % s], [[(True, v)]])
    for n in (100, 5000, 100000):
        for big in ("q" * n, b"q" * n, [5] * n, ["q" * n], [[1] * n] * 3):
            for s in ("uint8", "bool", "bytes4", "uint8[2]", "(uint8,bool)", "address", "fixed8x1", "string[1]", "bytes[][2]"):
                yield ([s], [big])
                yield (["(bool,%s)[]" % s], [[(True, big)]])


@composite
def value_case(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    return types, [gen.draw_any(draw, P(t), 1) for t in types]


# ------------------------------------------------------------------ invalid components

BAD_EL = ["uint7", "int264", "uint300", "bytes33", "bytes100", "fixed8", "fixed8x81", "ufixed7x1", "fixed264x1", "bool8", "bool1", "address20", "address1x1", "string4", "string8x8", "bytes8x8", "int8x8", "hash"]
SUFFIX = ["", "", "", "[]", "[3]", "[][2]", "[10][]"]
GOOD = ["uint8", "bool", "string", "bytes3[]", "(bool,int16)", "((uint8)[2],bytes)", "foo", "fixed16x2", "address"]


@composite
def component_case(draw):
    bad = draw(gen.S(BAD_EL)) + draw(gen.S(SUFFIX))
    pre, post = "", ""
    # components of an unknown base are valid; these contain the text of the invalid one
    alike = ["foo" + bad, "q" + bad, "foo" + bad + "[2]", "(z%s,bool)" % bad]
    for _ in range(draw(gen.I(0, 4))):
        before = [draw(gen.S(GOOD + alike)) for _ in range(draw(gen.I(0, 3)))]
        after = [draw(gen.S(GOOD + alike)) for _ in range(draw(gen.I(0, 2)))]
        pre = "(" + "".join(b + "," for b in before) + pre
        post = post + "".join("," + a for a in after) + ")" + draw(gen.S(SUFFIX))
    return pre, bad, post


def run_component(case, rec):
    pre, bad, post = case
    s = pre + bad + post
    try:
        parse(s)
    except Bad:
        raise Skip
    out = sut.call(lambda: sut.grammar.parse(s).validate())
    if out.ok or not isinstance(out.exc, sut.ABITypeError):
        fail("validation of %s %s, expected ABITypeError", s, out)
    msg = message(out, "validation of %s", s)
    if bad not in msg or s not in msg:
        fail("the error for %s does not name the invalid component %s: %s", s, bad, msg)
    col = re.search(r"column (\d+)", msg)
    if not col or int(col.group(1)) != len(pre) + 1:
        fail("the error for %s does not name column %s of the invalid component %s: %s", s, len(pre) + 1, bad, msg)
    el = bad.split("[")[0]
    if not any(x in s for x in ("foo", "q", "z")):
        for name, fn in (("encode", lambda: sut.encode([s], [1])), ("decode", lambda: sut.decode([s], b""))):
            out = sut.call(fn)
            if out.ok or not isinstance(out.exc, (ValueError, sut.ParseError)):
                fail("%s with the type %s %s", name, s, out)
            if el not in message(out, "%s with %s", name, s):
                fail("the error of %s with the type %s does not name %s: %s", name, s, el, str(out.exc))
    if len(msg) > LIMIT + 3 * len(s):
        fail("the error for %s has %s characters", s, len(msg))
    rec.label("component")
    if pre:
        rec.nontrivial()


# ------------------------------------------------------------------ texts that do not parse

def run_text(s, rec):
    if classify(s)[0] != "malformed":
        raise Skip
    out = sut.call(sut.grammar.parse, s)
    if out.ok or not isinstance(out.exc, (sut.ParseError, ValueError)):
        fail("parse(%s) %s", s, out)
    msg = message(out, "parse(%s)", s)
    if isinstance(out.exc, sut.ParseError):
        e = out.exc
        if e.text != s or s not in msg:
            fail("the ParseError for %s does not name it: %s", s, msg)
        if not isinstance(e.pos, int) or not 0 <= e.pos <= len(s):
            fail("the ParseError for %s has the position %s", s, e.pos)
        if not viable(s[:e.pos]):
            fail("the ParseError for %s has the position %s, but %s cannot begin a type", s, e.pos, s[:e.pos])
        rec.label("parse-error")
        if e.pos:
            rec.nontrivial()
    if len(msg) > LIMIT + 2 * len(s):
        fail("the error for %s has %s characters", s, len(msg))
    for fn in (sut.is_encodable_type, lambda t: sut.encode([t], [1]), lambda t: sut.decode([t], b"")):
        out = sut.call(fn, s)
        if not out.ok:
            message(out, "coding with the type %s", s)


ENDS = ["", "a", "1", "1]", "]", "8"]


def viable(p):
    """Whether some type string starts with the text."""
    for e in ENDS:
        q = p + e
        # close what is open
        depth = q.count("(") - q.count(")")
        for f in ("", "a"):
            try:
                parse(q + f + ")" * max(0, depth))
                return True
            except Bad:
                pass
    return False


# ------------------------------------------------------------------ offsets

@composite
def pointer_case(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    vals = [gen.draw_value(draw, P(t), False, False, [14]) for t in types]
    return types, vals, draw(gen.I(0, 999)), draw(gen.I(0, 5))


def run_pointer(case, rec):
    types, vals, k, how = case
    data, regions = ref.layout([P(t) for t in types], realize(vals))
    ptrs = [r for r in regions if r.role == "ptr"]
    if not ptrs:
        raise Skip
    r = ptrs[k % len(ptrs)]
    frame, head = r.info["frame"], r.info["head_end"]
    off = [0, head - frame - 1, len(data) - frame, 2**256 - 1, len(data), 2**64][how]
    bad = data[:r.start] + ref.word(off) + data[r.start + 32:]
    for strict in (True, False):
        out = sut.call(sut.decode, types, bad, strict)
        if out.ok or not isinstance(out.exc, sut.InvalidPointer):
            fail("decode(%s, %s, strict=%s) %s, expected InvalidPointer", types, bad.hex(), strict, out)
        msg = message(out, "decode(%s, %s)", types, bad.hex())
        nums = [int(x) for x in re.findall(r"\d+", msg)]
        if r.start not in nums:
            fail("decode(%s, %s, strict=%s): the offset at %s is wrong but the error says: %s", types, bad.hex(), strict, r.start, msg)
        if len(msg) > LIMIT:
            fail("the error of decode(%s, %s) has %s characters", types, bad.hex(), len(msg))
    rec.label("pointer")
    if r.start:
        rec.nontrivial()


@composite
def payload_case(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    return types, gen.draw_payload(draw, types, False)[0], draw(gen.I(0, 1)) == 0


def run_payload(case, rec):
    types, data, strict = case
    if not expect.is_budget_ok(types, data, strict, 3000):
        raise Skip
    out = sut.call(sut.decode, types, data, strict)
    if out.ok or not isinstance(out.exc, sut.DecodingError):
        raise Skip
    msg = message(out, "decode(%s, %s, strict=%s)", types, data.hex(), strict)
    if not msg or len(msg) > LIMIT:
        fail("decode(%s, %s, strict=%s): the error has %s characters", types, data.hex(), strict, len(msg))
    m = re.search(r"read (\d+) bytes, only got (\d+) bytes", msg)
    if m and not int(m.group(1)) > int(m.group(2)):
        fail("decode(%s, %s, strict=%s): the error says: %s", types, data.hex(), strict, msg)
    rec.label("payload-" + type(out.exc).__name__)
    rec.nontrivial()


# ------------------------------------------------------------------ lookups

def lookup_enum(tier, seed):
    for s in ("foo", "foo[]", "(uint8,foo)", "hash32", "hash32[2]", "foo8[][2]", "(foo)[]"):
        yield ("none", s)
    for s in ("uint8", "uint8[]", "(bool,uint8)", "uint8[2][]"):
        for k in (1, 2, 5):
            yield ("many", s, k)


def run_lookup(case, rec):
    R = sut.registry
    if case[0] == "none":
        s = case[1]
        for name, fn in (("get_encoder", R.registry.get_encoder), ("get_decoder", R.registry.get_decoder), ("packed get_encoder", R.registry_packed.get_encoder)):
            out = sut.call(fn, s)
            if out.ok or not isinstance(out.exc, sut.NoEntriesFound):
                fail("%s(%s) %s, expected NoEntriesFound", name, s, out)
            leaf = re.search(r"foo8?|hash32", s).group(0)
            if leaf not in message(out, "%s(%s)", name, s):
                fail("the error of %s(%s) does not name %s: %s", name, s, leaf, str(out.exc))
        rec.nontrivial()
        return
    _, s, k = case
    reg = R.registry.copy()
    preds = []
    for i in range(k):
        class Pred(R.Predicate):
            __slots__ = ("i",)

            def __init__(self, i):
                self.i = i

            def __call__(self, t):
                return t == "uint8"

            def __str__(self):
                return "lookup-%d" % self.i

        preds.append(Pred(i))
        reg.register(preds[-1], lambda v: b"", lambda stream: 1, label="l%d" % i)
    for name, fn in (("get_encoder", reg.get_encoder), ("get_decoder", reg.get_decoder), ("has_encoder", reg.has_encoder)):
        out = sut.call(fn, s)
        if out.ok or not isinstance(out.exc, sut.MultipleEntriesFound):
            fail("%s(%s) with %s more lookups %s, expected MultipleEntriesFound", name, s, k, out)
        msg = message(out, "%s(%s)", name, s)
        for p in preds:
            if "lookup-%d" % p.i not in msg:
                fail("the error of %s(%s) does not name the lookup %s: %s", name, s, repr(p), msg)
        if "uint8" not in msg or repr(R.BaseEquals("uint")) not in msg:
            fail("the error of %s(%s) does not name the type and its own lookup: %s", name, s, msg)
    rec.nontrivial()


def parts(tier):
    return [
        Part("lookups", run_lookup, enum=lookup_enum),
        Part("value-sweep", run_value, enum=value_enum),
        Part("values", run_value, cases=value_case(), n=(12000, 300000)),
        Part("components", run_component, cases=component_case(), n=(6000, 100000), size=200),
        Part("texts", run_text, cases=gen.typeish(), n=(12000, 300000)),
        Part("pointers", run_pointer, cases=pointer_case(), n=(8000, 200000)),
        Part("payloads", run_payload, cases=payload_case(), n=(8000, 200000)),
    ]
