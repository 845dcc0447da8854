from .. import expect, gen, sut, sweeps
from ..core import Part, narrow
from ..data import realize
from ..abit import P, depth, dynamic

RULE = (
    "Cases are type lists with in-domain values: a sweep over all 5,000+ elementary types x "
    "boundary values, container templates, length and nesting sweeps, plus Hypothesis-drawn "
    "nested types and values in every accepted Python spelling. Non-trivial: the types contain a "
    "container or a byte string, or the value is not zero; distinct by types and encoding."
)


def one(types, vals, rec):
    out = sut.call(sut.encode, types, vals)
    expect.judge_encode(types, vals, out)
    if any(out.value):
        rec.nontrivial(tuple(types), out.value)
    if any(dynamic(P(t)) for t in types):
        rec.label("dynamic")
    if any(depth(P(t)) >= 2 for t in types):
        rec.label("nested")


def run_sweep(case, rec):
    cases = sweeps.expand(case)
    rec.more(len(cases) - 1)
    for types, vals in cases:
        with narrow(("args", types, vals)):
            one(types, realize(vals), rec)


def run_random(case, rec):
    types, vals = case
    one(types, realize(vals), rec)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=sweeps.everything),
        Part("random", run_random, cases=gen.typed_args(max_len=4, min_len=0, depth=4), n=(16000, 400000)),
        Part("flat", run_random, cases=gen.typed_args(max_len=6, depth=1), n=(8000, 200000)),
    ]
