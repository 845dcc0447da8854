"""Runs a batch of calls in this process's interpreter mode and writes their outcomes
(used by check C28)."""
import json
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def outcome(fn, *a, **k):
    try:
        v = fn(*a, **k)
    except Exception as e:
        return "error " + type(e).__name__
    return show(v)


def show(v):
    """Text of a result, with the types of its parts."""
    if isinstance(v, (tuple, list)):
        return "%s[%s]" % (type(v).__name__, ", ".join(map(show, v)))
    return "%s %r" % (type(v).__name__, v.hex() if isinstance(v, (bytes, bytearray)) else v if not isinstance(v, str) else v.encode("utf-8", "surrogatepass"))


def run(calls):
    import eth_abi
    from eth_abi import grammar, packed
    from vabi.data import realize

    def back(types, vals):
        data = eth_abi.encode(types, vals)
        return data, eth_abi.decode(types, data), eth_abi.decode(types, bytearray(data), strict=False)

    def describe(s):
        t = grammar.parse(s)
        return t.to_type_str(), t.is_dynamic, t.is_array, grammar.normalize(s), outcome(t.validate), eth_abi.is_encodable_type(s)

    fns = {
        "encode": eth_abi.encode, "pack": packed.encode_packed, "back": back, "type": describe,
        "decode": lambda t, d, strict: eth_abi.decode(t, d, strict=strict),
        "able": lambda t, v: (eth_abi.is_encodable(t, v), packed.is_encodable_packed(t, v)),
    }
    return [outcome(fns[c[0]], *realize(list(c[1:]))) for c in calls]


def main(mode, path):
    if mode == "decimal-first":
        import decimal

        c = decimal.DefaultContext
        c.prec, c.rounding, c.Emax, c.Emin = 3, decimal.ROUND_UP, 5, -5
        c.traps[decimal.Inexact] = c.traps[decimal.Rounded] = c.traps[decimal.Subnormal] = True
        decimal.setcontext(decimal.Context(prec=2))
    from vabi import core

    if mode == "imports":
        core.setup_import()  # the package, then modules from the leaves up
        import eth_abi.tools  # noqa: F401
        import eth_abi.packed  # noqa: F401
    from vabi.data import from_json

    with open(path) as f:
        calls = [from_json(c) for c in json.load(f)]
    if mode != "imports":
        core.setup_import()
    if mode == "warnings":
        import warnings

        import eth_abi.packed  # noqa: F401

        warnings.simplefilter("error")
    elif mode == "gc":
        import gc

        gc.set_threshold(3)
    elif mode == "tracing":
        seen = []

        def tracer(frame, event, arg):
            if len(seen) < 10:
                seen.append(event)
            return tracer

        sys.settrace(tracer)
    if mode == "thread":
        import threading

        res = []
        t = threading.Thread(target=lambda: res.append(run(calls)))
        t.start()
        t.join()
        out = res[0]
    elif mode == "reversed":
        out = run(calls[::-1])[::-1]
    elif mode == "fork":
        # some calls in the parent, the rest in a forked child
        import os

        k = len(calls) // 2
        first = run(calls[:k])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                with os.fdopen(w, "w") as f:
                    json.dump(run(calls[k:]), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            out = first + json.load(f)
        os.waitpid(pid, 0)
    else:
        out = run(calls)
    sys.settrace(None)
    with open(path + ".out", "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main(*sys.argv[1:3])
