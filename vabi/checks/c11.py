from .. import expect, gen, ref, sut, sweeps
from ..abit import P, depth
from ..core import Part, narrow
from ..data import realize
from ..src import composite
from ..sut import fail
from . import c03

RULE = (
    "Cases are type lists with values for encode_packed: the sweep over every elementary type x "
    "boundary values, container templates, lengths and nestings, random nested types and values, and "
    "values with a fault at a random position. Non-trivial: non-empty output, or a refused value; "
    "distinct by types and value."
)


def one(types, vals, rec):
    vs = realize(vals)
    out = sut.call(sut.encode_packed, types, vs)
    verdict = expect.judge_encode(types, realize(vals), out, packed=True, rec=rec)
    if out.ok:
        if out.value:
            rec.nontrivial(tuple(types), out.value)
    else:
        rec.nontrivial(tuple(types), repr(vals))
    rec.label(verdict)
    return out


def run_sweep(case, rec):
    if case[0] == "arity":
        return run_arity(case, rec)
    cases = sweeps.expand(case)
    rec.more(len(cases) - 1)
    for types, vals in cases:
        with narrow(("args", types, vals)):
            one(types, vals, rec)


def enum(tier, seed):
    yield from sweeps.everything(tier, seed)
    for tpl in sweeps.TEMPLATES:
        for e in ("uint8", "string", "bytes3", "bytes", "fixed16x2", "bool"):
            yield ("arity", tpl.replace("T", e))
    yield from sweeps.far_faults(tier, seed)
    yield from sweeps.farther_faults(tier, seed)


def run_arity(case, rec):
    """Sized arrays and tuples require their exact length at every level."""
    ts = case[1]
    t = P(ts)
    good = sweeps.fill(t, sweeps.Picker(3), sweeps.Lens([2, 1]))
    paths = set()

    def walk(t, v, path):
        if t.kind == "el":
            return
        paths.add(path)
        for i, x in enumerate(v):
            walk(t.items[i] if t.kind == "tup" else t.item, x, path + (i,))

    walk(t, good, ())
    for path in sorted(paths):
        sub = good
        for i in path:
            sub = sub[i]
        for new in (list(sub)[:-1], list(sub) + list(sub)[-1:], [], list(sub) * 2, tuple(sub)):
            rec.more(1)
            with narrow(("args", [ts], [c03.put(good, path, new)])):
                one([ts], [c03.put(good, path, new)], rec)


def run_random(case, rec):
    one(case[0], case[1], rec)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=enum),
        Part("random", run_random, cases=gen.typed_args(max_len=4, min_len=0, depth=4), n=(12000, 300000)),
        Part("any", run_random, cases=c03.arg(), n=(8000, 200000)),
    ]
