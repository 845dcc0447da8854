import itertools

from .. import expect, gen, sut, sweeps
from ..core import Part, narrow
from ..data import realize
from ..abit import P
from ..src import composite

RULE = (
    "Cases are a type and an arbitrary Python value, in both codecs: a sweep of every elementary "
    "type x boundary and one-off-boundary values x ~100 junk objects, and random nested types with "
    "a fault (near-boundary value, junk object, wrong arity, non-sequence) at a random position. "
    "Non-trivial: the value is outside the domain, or on its boundary; distinct by type and value."
)


def one(types, vals, rec, key=None):
    with narrow(("args", types, vals)):
        check(types, vals, rec)
    if key is not None:
        rec.nontrivial(*key)


def check(types, vals, rec):
    for packed in (False, True):
        fn = sut.encode_packed if packed else sut.encode
        vs = realize(vals)
        out = sut.call(fn, types, vs)
        # one-shot iterators are consumed by the call: judge fresh ones
        verdict = expect.judge_encode(types, realize(vals), out, packed=packed, rec=rec)
        rec.label(("packed-" if packed else "") + verdict)


def sweep_enum(tier, seed):
    for s in sweeps.el_types(1 if tier == "thorough" else 3):
        yield ("near", s)
    for s in sweeps.REPR_EL + ["uint8[]", "uint8[2]", "(uint8)", "(uint8,bool)", "string[]", "bytes[2]", "(string,bytes)[]", "(uint8[],int8)", "uint8[][1]"]:
        yield ("junk", s)
    for j, tpl in enumerate(sweeps.TEMPLATES):
        for s in ("uint8", "string", "bytes4", "fixed8x1", "address", "bool"):
            yield ("nested", tpl.replace("T", s), j)
    for case in itertools.chain(sweeps.far_faults(tier, seed), sweeps.farther_faults(tier, seed)):
        yield ("far",) + case[1:]
    # the argument list as a whole: every small pair of counts
    for n in range(5):
        for m in range(7):
            yield ("far", ["uint8", "string", "bool[]", "(bytes4,int8)"][:n], [1, "s", [True], (b"four", -1), None, b""][:m])


def holes(t):
    """Paths to elements in a value of t with dynamic lengths 2."""
    if t.kind == "el":
        yield ()
    elif t.kind == "tup":
        for i, c in enumerate(t.items):
            for p in holes(c):
                yield (i,) + p
    else:
        for i in range(t.size if t.size is not None else 2):
            for p in holes(t.item):
                yield (i,) + p


def put(v, path, x):
    if not path:
        return x
    v = list(v)
    v[path[0]] = put(v[path[0]], path[1:], x)
    return v


def at(t, path):
    for i in path:
        t = t.items[i] if t.kind == "tup" else t.item
    return t


def run_sweep(case, rec):
    kind, s = case[0], case[1]
    if kind == "args":
        return check(case[1], case[2], rec)
    if kind == "far":
        return one(case[1], case[2], rec, (tuple(case[1]), repr(case[2])))
    t = P(s)
    if kind == "near":
        for i, v in enumerate(gen.near_list(t) + sweeps.el_vals(s)):
            rec.more(2)
            one([s], [v], rec, (s, i))
            if i % 5 == 0:
                one(["(bool,%s)[]" % s], [[(True, v)]], rec, (s, i, "n"))
    elif kind == "junk":
        for i, v in enumerate(gen.JUNK):
            rec.more(2)
            one([s], [v], rec, (s, "j", i))
            one(["bytes", s], [b"x", v], rec, (s, "j2", i))
            one([s + "[]"], [[v]], rec, (s, "j3", i))
    else:
        good = sweeps.fill(t, sweeps.Picker(case[2]), sweeps.Lens([2]))
        paths = list(holes(t))
        step = max(1, len(paths) // 12)
        for k, path in enumerate(paths[::step]):
            leaf = at(t, path)
            bad = gen.near_list(leaf) + gen.JUNK
            for i in range(k % 3, len(bad), 7):
                rec.more(2)
                one([s], [put(good, path, bad[i])], rec, (s, path, i))
        # wrong arities of every container inside
        for path in {p[:k] for p in paths for k in range(len(p))}:
            sub = good
            for i in path:
                sub = sub[i]
            for new in (list(sub)[:-1], list(sub) + list(sub)[-1:], [], tuple(sub), None, "ab", b"ab"):
                rec.more(2)
                one([s], [put(good, path, new)], rec, (s, path, repr(type(new)), len(new) if new is not None else -1))


@composite
def arg(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3))
    i = draw(gen.I(0, len(types) - 1))
    vals = [gen.draw_any(draw, P(t)) if j == i else gen.draw_value(draw, P(t), True, False, [6]) for j, t in enumerate(types)]
    return types, vals


def run_random(case, rec):
    types, vals = case
    one(types, vals, rec)
    if expect.enc_faults(types, realize(vals)):
        rec.nontrivial()


@composite
def el_arg(draw):
    t = draw(gen.S(ALL))
    return [t], [gen.near(draw, P(t)) if draw(gen.I(0, 2)) else gen.draw_el(draw, P(t))]


ALL = sweeps.el_types(7)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=sweep_enum),
        Part("nested", run_random, cases=arg(), n=(12000, 400000)),
        Part("elementary", run_random, cases=el_arg(), n=(8000, 300000), size=120),
    ]
