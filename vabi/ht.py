"""Head/tail encoding over types whose leaves are user-defined: ``leaf`` maps a leaf type
to (is_dynamic, encode function)."""
from .ref import word


def dyn(t, leaf):
    if t.kind == "el":
        return leaf(t)[0]
    if t.kind == "arr":
        return t.size is None or dyn(t.item, leaf)
    return any(dyn(c, leaf) for c in t.items)


def enc(t, v, leaf):
    if t.kind == "el":
        return leaf(t)[1](v)
    if t.kind == "arr":
        body = args([t.item] * len(v), v, leaf)
        return body if t.size is not None else word(len(v)) + body
    return args(t.items, v, leaf)


def args(ts, vs, leaf):
    parts = [(dyn(t, leaf), enc(t, v, leaf)) for t, v in zip(ts, vs)]
    off = sum(32 if d else len(b) for d, b in parts)
    heads, tails = [], []
    for d, b in parts:
        if d:
            heads.append(word(off))
            tails.append(b)
            off += len(b)
        else:
            heads.append(b)
    return b"".join(heads + tails)


def mapval(t, v, f):
    """Tuple tree of f(leaf type, value)."""
    if t.kind == "el":
        return f(t, v)
    if t.kind == "arr":
        return tuple(mapval(t.item, x, f) for x in v)
    return tuple(mapval(c, x, f) for c, x in zip(t.items, v))


def leaf_types(t):
    if t.kind == "el":
        yield t
    elif t.kind == "arr":
        yield from leaf_types(t.item)
    else:
        for c in t.items:
            yield from leaf_types(c)
