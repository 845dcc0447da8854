from .. import gen, regmodel, sut
from ..core import Part
from ..src import composite

RULE = (
    "Cases are histories of 4..26 operations on one registry (empty or a copy of the default one): "
    "register/unregister encoders, decoders or both by type string, equal predicate, base predicate, "
    "function or label, with refused operations, interleaved with lookups and real encodings and "
    "decodings in both modes; after the history 27 types are resolved on both sides, and "
    "then the registry is emptied through its labels and lookups. Model: a list of "
    "registrations per side. Non-trivial: a type was resolved, the registrations changed, and a type "
    "was resolved again; distinct by history."
)


@composite
def history(draw):
    ops = []
    # half of the histories are about a few lookups only
    pool = draw(gen.S(regmodel.POOLS)) if draw(gen.I(0, 1)) else regmodel.LOOKUPS
    for i in range(draw(gen.I(4, 26))):
        ops.append(regmodel.draw_op(draw, i + 1, pool))
    return draw(gen.I(0, 2)), ops


def run_history(case, rec):
    start, ops = case
    if start == 0:
        reg, m = sut.registry.ABIRegistry(), regmodel.Model(False)
        pre = [("reg", ("fn", "has_arrlist"), "has_arrlist", ("builtin", "has_arrlist")),
               ("reg", ("fn", "is_base_tuple"), "is_base_tuple", ("builtin", "is_base_tuple"))]
    else:
        reg, m, pre = sut.registry.registry.copy(), regmodel.Model(True), []
    x = regmodel.Sut(reg)
    for op in pre:
        regmodel.apply(m, x, op, "")
    if start == 2:
        # fill the caches before anything changes
        regmodel.sweep_queries(m, x, "before any change: ")
    phase = 1 if start == 2 else 0
    changed = False
    for i, op in enumerate(ops):
        label = regmodel.apply(m, x, tuple(op), "operation %d: " % i)
        rec.label(label)
        if label.startswith("query"):
            if changed and phase:
                rec.nontrivial()
            phase = 1
        elif not label.endswith(("refused", "skipped", "badlookup")):
            changed = True
            # what is affected takes effect at once, for whatever was in use before
            if i % 3 == 0:
                regmodel.sweep_queries(m, x, "after operation %d: " % i, regmodel.TYPES[i % 5::5])
    regmodel.sweep_queries(m, x, "at the end: ")
    regmodel.drain(m, x, "emptying the registry: ", len(ops) + start)
    rec.more(len(ops))


def parts(tier):
    return [Part("histories", run_history, cases=history(), n=(6000, 150000), size=300)]
