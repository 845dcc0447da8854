from .. import gen, ref, sut, sweeps
from ..core import Part, narrow
from ..data import realize
from ..abit import P, depth, dynamic
from ..sut import fail

RULE = (
    "Cases are type lists with in-domain values (the C01 sweep over every elementary type, "
    "container templates, lengths and nestings, plus Hypothesis-drawn nested types and values in "
    "every accepted spelling), encoded, decoded in both modes from bytes and bytearray, and "
    "encoded again. Non-trivial: the encoding has a non-zero byte; distinct by types and encoding."
)


def one(types, vals, rec, seq=0):
    want = tuple(ref.canon(P(t), v) for t, v in zip(types, vals))
    data = sut.call(sut.encode, types, vals)
    if not data.ok:
        fail("encode(%s, %s) %s", types, vals, data)
    data = data.value
    for strict in (True, False):
        for conv in (bytes, bytearray):
            if len(data) > 4096 and conv is bytearray and strict:
                continue
            out = sut.call(sut.decode, tuple(types) if seq else types, conv(data), strict)
            if not out.ok:
                fail("decode(%s, %s %s, strict=%s) %s after encoding %s", types, conv.__name__, data.hex(), strict, out, vals)
            if not ref.same(out.value, want):
                fail("decode(%s, %s %s, strict=%s) = %s, expected %s", types, conv.__name__, data.hex(), strict, out.value, want)
    out = sut.call(sut.decode, types, data)
    if not out.ok or not ref.same(out.value, want):
        fail("decode(%s, %s) %s, expected %s", types, data.hex(), out, want)
    again = sut.call(sut.encode, types, out.value)
    if not again.ok or again.value != data:
        fail("encode(%s, %s) of decoded values %s, expected %s", types, out.value, again, data.hex())
    if any(data):
        rec.nontrivial(tuple(types), data)
    if any(dynamic(P(t)) for t in types):
        rec.label("dynamic")
    if any(depth(P(t)) >= 2 for t in types):
        rec.label("nested")


def run_sweep(case, rec):
    cases = sweeps.expand(case)
    rec.more(len(cases) - 1)
    for types, vals in cases:
        with narrow(("args", types, vals)):
            one(types, realize(vals), rec)


def run_random(case, rec):
    types, vals = case
    one(types, realize(vals), rec, len(types) % 2)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=sweeps.everything),
        Part("random", run_random, cases=gen.typed_args(max_len=4, min_len=0, depth=4), n=(10000, 250000)),
        Part("flat", run_random, cases=gen.typed_args(max_len=6, depth=1), n=(5000, 100000)),
    ]
