import gc
import random
import resource
import sys
import time
import tracemalloc
from decimal import Decimal

from .. import expect, gen, ref, sut, sweeps
from ..abit import P, depth, dynamic, static_words
from ..core import Part, Skip, narrow
from ..data import Special, realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are a type with a value or payload; the work of the call is measured as the number of "
    "Python call and line events (sys.settrace) with a hard cap, the bytes handed out by a counting "
    "stream class and, for payloads that announce more than they contain, the peak of traced "
    "allocations; for new types of thousands of parts and large values, the growth of processor time. Oracle: a fixed multiple of (values and words actually coded) x (nesting depth), "
    "with the counts taken from the reference. Non-trivial: nesting depth of at least 3, at least 50 "
    "words, or an announced length or offset beyond the data; distinct by type and value or payload."
)

# events per value or word and nesting level; the measured maxima are about 85 (encoding)
# and 130 (decoding) on small types and much lower on large ones
ENC_FACTOR, DEC_FACTOR, BASE = 600, 900, 6000
COLD_FACTOR, COLD_BASE = 1500, 60000


class TooMuch(BaseException):
    pass


def events(cap, fn, *a, **k):
    """(number of events or None when over the cap, outcome)"""
    n = [0]

    def trace(frame, event, arg):
        n[0] += 1
        if n[0] > cap:
            raise TooMuch
        return trace

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        out = sut.call(fn, *a, **k)
    except TooMuch:
        return None, None
    finally:
        sys.settrace(old)
    return n[0], out


def nodes(t, v):
    """Values and words of v."""
    if t.kind == "el":
        if isinstance(v, (bytes, bytearray, str)):
            return 2 + len(v) // 8
        return 1
    if t.kind == "tup":
        return 1 + sum(nodes(c, x) for c, x in zip(t.items, v))
    return 1 + sum(nodes(t.item, x) for x in v)


def tnodes(t):
    if t.kind == "el":
        return 1
    if t.kind == "arr":
        return 1 + tnodes(t.item)
    return 1 + sum(map(tnodes, t.items))


class Counting(sut.decoding.ContextFramesBytesIO):
    total = 0

    def read(self, *a):
        b = super().read(*a)
        Counting.total += len(b)
        return b


class CountingCodec(sut.codec.ABICodec):
    stream_class = Counting


def codec(fresh):
    reg = sut.registry.registry
    return CountingCodec(reg.copy() if fresh else reg)


def bound(name, what, n, cap):
    if n is None:
        fail("%s takes more than %d steps for %s", name, cap, what)


def check_value(types, vals, rec, fresh=False):
    ts = [P(t) for t in types]
    D = 2 + max([depth(t) for t in ts], default=0)
    n = 1 + sum(nodes(t, v) for t, v in zip(ts, vals))
    size = sum(map(len, types))
    c = codec(fresh)
    if D >= 5 or n >= 50:
        rec.nontrivial(tuple(types), repr(vals)[:2000])
    what = "%s (%d values and words, depth %d)" % (sut.cut(repr(types), 150), n, D - 2)
    cap = ENC_FACTOR * n * D + BASE
    cold = cap + COLD_FACTOR * size * D + COLD_BASE
    k, out = events(cold, c.encode, types, vals)
    bound("the first encode", what, k, cold)
    if not out.ok:
        fail("encode(%s) %s", types, out)
    data = out.value
    k, out = events(cap, c.encode, types, vals)
    bound("encode", what, k, cap)
    for t, v in zip(types, vals):
        k, o = events(cap, c.is_encodable, t, v)
        bound("is_encodable", what, k, cap)
    for fn, name in ((sut.encode_packed, "encode_packed"),):
        k, o = events(cold, fn, types, vals)
        bound("the first " + name, what, k, cold)
        k, o = events(cap, fn, types, vals)
        bound(name, what, k, cap)
    for strict in (True, False):
        check_payload(types, data, strict, rec, c, True)
    # short by a word: rejected without repeating work either
    if len(data) >= 64:
        check_payload(types, data[:-32], True, rec, c, False)
    return data


def reachable(ts, data, budget=20000):
    """Upper bound for the values a decoder can visit in a payload that is rejected,
    whatever order it visits them in: errors end only the branch they occur in."""
    total = len(data)
    n = [0]

    def word(pos):
        return int.from_bytes(data[pos:pos + 32], "big") if pos + 32 <= total else None

    def visit(t, pos):
        n[0] += 1
        if n[0] > budget:
            raise Skip()
        if pos + 32 > total or t.kind == "el":
            if t.kind == "el" and dynamic(t):
                n[0] += min(word(pos) or 0, total) // 32
            return
        if t.kind == "tup":
            return args(t.items, pos)
        if t.size is None:
            k, pos = word(pos), pos + 32
        else:
            k = t.size
        k = min(k, (total - pos) // 32 + 1)
        args([t.item] * k, pos)

    def args(ts, frame):
        pos = frame
        for t in ts:
            if pos > total:
                return
            if dynamic(t):
                w = word(pos)
                if w is not None and frame + w < total:
                    visit(t, frame + w)
                else:
                    n[0] += 1
                pos += 32
            else:
                visit(t, pos)
                pos += 32 * static_words(t)

    args(ts, 0)
    return n[0]


def check_payload(types, data, strict, rec, c, warm=False):
    ts = [P(t) for t in types]
    D = 2 + max([depth(t) for t in ts], default=0)
    steps = nbytes = 0
    try:
        d = ref.decode(ts, data, strict, 60000)
        steps, nbytes = d.steps, d.bytes_read
        kind = "accepted"
    except ref.Budget:
        raise Skip()
    except ref.Reject:
        kind = "rejected"
        steps = reachable(ts, data)
    n = 2 * steps + nbytes // 32 + len(data) // 16 + sum(map(tnodes, ts)) + 2
    size = sum(map(len, types))
    what = "%s and %d bytes (%s by the reference)" % (sut.cut(repr(types), 150), len(data), kind)
    cap = DEC_FACTOR * n * D + BASE
    cold = cap + COLD_FACTOR * size * D + COLD_BASE
    k, out = events(cold, c.decode, types, data, strict=strict)
    bound("the first decode", what, k, cold)
    Counting.total = 0
    k, out = events(cap, c.decode, types, data, strict=strict)
    bound("decode", what, k, cap)
    limit = 8 * D * (nbytes + 32 * steps + len(data) + 64)
    if Counting.total > limit:
        fail("decode reads %d bytes from the stream for %s (limit %d)", str(Counting.total), what, str(limit))
    rec.label(kind)
    return out


# ------------------------------------------------------------------ sweeps


def shape(kind, e, v, d):
    ts = e
    for i in range(d):
        if kind == 0:
            ts, v = "(%s)" % ts, (v,)
        elif kind == 1:
            ts, v = "%s[]" % ts, [v]
        elif kind == 2:
            ts, v = "%s[1]" % ts, [v]
        elif kind == 3:
            ts, v = "(uint8,%s)" % ts, (i, v)
        elif kind == 4:
            ts, v = "(%s,bytes)" % ts, (v, b"")
        elif kind == 5:
            ts, v = "(%s,bool[2])[]" % ts, [(v, [True, False])]
        elif kind == 6:
            ts, v = "(%s)[1]" % ts, [(v,)]
        elif kind == 7:
            ts, v = "(bytes,%s)[1]" % ts, [(b"x", v)]
        elif kind == 8:
            ts, v = ("(%s,uint8)" % ts, (v, 1)) if i % 2 else ("%s[1]" % ts, [v])
        elif kind == 9:
            ts, v = ("(string,%s)" % ts, ("", v)) if i == d - 1 else ("(%s,(bool))" % ts, (v, (True,)))
        else:
            ts, v = ("%s[]" % ts, [v]) if i % 3 == 0 else ("((%s),int8)" % ts, ((v,), -1))
    return ts, v


ANNOUNCE = [2**16, 2**20, 2**24, 2**27, 2**31 - 1, 2**31, 2**32, 2**40, 2**62, 2**63 - 33, 2**63 - 32, 2**63 - 1, 2**63, 2**64 - 32, 2**64, 2**128, 2**255, 2**256 - 32, 2**256 - 1]
ANN_TYPES = [
    "bytes", "string", "uint8[]", "bool[]", "bytes[]", "string[][]", "(uint8,bytes)", "(bytes,uint8)[]", "uint8[][]", "(uint8)[]", "((uint8,bool))[]",
    "(uint8[],bytes)", "uint8[][2]", "bytes[2][]", "(bool,(string,uint8[]))", "uint256[3][]", "fixed8x1[]", "address[]", "bytes3[]", "int16[]", "(string,string)[2]",
]
HUGE_TYPES = [
    "uint8[1048576]", "uint8[1000000000]", "bytes[1000000000]", "string[99999999999999999999]", "(uint8)[1000000]", "(bytes,uint8)[4294967296]",
    "uint8[1000000][1000000]", "bytes[1000000][]", "(bool,uint8[10000000],bytes)", "(bool,bytes[10000000],bytes)", "uint8[100000][]", "uint8[1][1000000000]",
    "uint8[9223372036854775808]", "bytes[18446744073709551616]", "(uint8[9223372036854775807],bytes)",
    "(uint8[1000000000])[]", "((bytes[1000000000],bool),string)",
]


def enum(tier, seed):
    quick = tier == "quick"
    for d in [1, 2, 3, 5, 8, 12, 16, 20, 26] + ([] if quick else [32, 40, 50, 64, 80]):
        for kind in range(11):
            for e in ("uint8", "bytes", "string", "bool"):
                if d <= 8 or e != "bool" or not quick:
                    yield ("deep", kind, e, d)
    for n in [50, 400, 2000] + ([] if quick else [5000, 12000]):
        for s in WIDE:
            yield ("wide", s, n)
        for s in ("uint8", "bytes", "(bool,string)", "uint8[2]", "bytes[]", "(uint8,(bool,int8))"):
            if n <= 2000:
                yield ("tuple", s, n // 5)
                yield ("args", s, n // 5)
    for n in (10, 25, 40) if quick else (10, 25, 40, 80):
        for s in ("uint8", "bytes", "(uint8,bytes)"):
            yield ("square", s, n)
    for n in (1000, 30000, 300000) if quick else (1000, 30000, 300000, 5000000):
        yield ("blob", "bytes", n)
        yield ("blob", "string", n)
    for s in ANN_TYPES:
        yield ("announce", s)
    for s in HUGE_TYPES:
        yield ("huge", s)


WIDE = ["uint8", "bytes", "string", "bool", "address", "bytes3", "fixed", "(uint8,bytes)", "(uint8,bool)", "uint8[2]", "bytes[1]", "uint8[]", "((uint8),(bool))", "(bytes,(string,uint8))", "int8[1][2]"]


def run_enum(case, rec):
    kind = case[0]
    if kind == "value":
        return void(check_value, case[1], realize(case[2]), rec, True)
    if kind == "payload":
        return announced(case[1], case[2], case[3], rec)
    if kind == "deep":
        e = case[2]
        ts, v = shape(case[1], e, {"uint8": 1, "bytes": b"ab", "string": "x", "bool": True}[e], case[3])
        return check_value([ts], [v], rec, True)
    if kind in ("wide", "tuple", "args", "square"):
        s, n = case[1], case[2]
        p = sweeps.Picker(1)
        items = [sweeps.fill(P(s), p, sweeps.Lens([1, 0, 2])) for _ in range(n)]
        if kind == "wide":
            check_value([s + "[]"], [items], rec)
            check_value(["%s[%d]" % (s, n)], [items], rec)
        elif kind == "tuple":
            check_value(["(%s)" % ",".join([s] * n)], [tuple(items)], rec)
        elif kind == "square":
            check_value([s + "[][]"], [[items] * n], rec)
            check_value(["(%s[],uint8)[]" % s], [[(items, 1)] * n], rec)
        else:
            check_value([s] * n, items, rec)
        return
    if kind == "blob":
        s, n = case[1], case[2]
        v = b"\xa5" * n if s == "bytes" else "z" * n
        check_value([s], [v], rec)
        check_value(["(uint8,(%s))[]" % s], [[(1, (v,))]], rec)
        return
    s = case[1]
    if kind == "huge":
        for data in (b"", bytes(31), bytes(32), bytes(64), bytes(1024), ref.word(32) * 8, b"\xff" * 96):
            for strict in (True, False):
                with narrow(("payload", [s], data, strict)):
                    announced([s], data, strict, rec)
        for v in ([], [1], (), [b""], [[]], 5, [(1,)], [("a", 1)], (True, [1], b"")):
            for fn in (sut.encode, sut.encode_packed):
                k, out = events(200000, fn, [s], [v])
                bound(fn.__name__, "%s of a value with few items" % s, k, 200000)
                if out.ok and len(out.value) > 4096:
                    fail("%s([%s], [%s]) returned %d bytes", fn.__name__, s, v, str(len(out.value)))
            k, out = events(200000, sut.is_encodable, s, v)
            bound("is_encodable", "%s of a value with few items" % s, k, 200000)
        return
    # announce: overwrite each length, count and offset word of small valid payloads
    for seq in ([1], [2, 1]):
        v = sweeps.fill(P(s), sweeps.Picker(2), sweeps.Lens(seq))
        data, regions = ref.layout([P(s)], [v])
        for r in regions:
            if r.role in ("ptr", "len", "count"):
                for a in ANNOUNCE:
                    for delta in (0, len(data)):
                        if a + delta >= 2**256:
                            continue
                        bad = data[:r.start] + ref.word(a + delta) + data[r.end:]
                        strict = (a + r.start) % 3 != 0
                        rec.more(1)
                        with narrow(("payload", [s], bad, strict)):
                            announced([s], bad, strict, rec)


# (name, what to build for n): processor time for n and 8n items.  Work done inside C
# functions (slicing, joining, summing) does not show up in the event counts.
SCALE, RATIO, FLOOR, TRIES = 8, 22.0, 0.4, 4


def scaled(kind, n):
    """(types, values) whose size is proportional to n."""
    if kind == "bytes[]":
        return ["bytes[]"], [[b"ab"] * n]
    if kind == "string[N]":
        return ["string[%d]" % n], [["x"] * n]
    if kind == "pairs":
        return ["(uint8,string)[]"], [[(7, "q")] * n]
    if kind == "uint8[]":
        return ["uint8[]"], [[5] * n]
    if kind == "bool[N]":
        return ["bool[%d]" % n], [[True] * n]
    if kind == "ints[2][]":
        return ["int24[2][]"], [[[-1, 1]] * n]
    if kind == "uint8[][]":
        return ["uint8[][]"], [[[1]] * n]
    if kind == "nested":
        return ["((bytes[],bool),uint8)"], [(([b""] * n, True), 1)]
    if kind == "bytes[1][]":
        return ["bytes[1][]"], [[[b"ab"]] * (n // 2)]
    if kind == "bytes[][]":
        return ["bytes[][]"], [[[b"ab"]] * (n // 2)]
    if kind == "(bytes)[N]":
        return ["(bytes)[%d]" % (n // 2)], [[(b"ab",)] * (n // 2)]
    if kind == "((string,bool),bytes[])[]":
        return ["((string,bool),bytes[])[]"], [[(("a", True), [b"", b"x"])] * (n // 5)]
    if kind == "blobs-nested":
        return ["(bytes,uint8)[1][]"], [[[(b"\xa5" * 3000, 1)]] * (n // 8)]
    if kind == "args":
        k = n // 5
        return ["bytes", "uint8"] * k, [b"z", 1] * k
    if kind == "args-tuples":
        k = n // 8
        return ["(uint8,bytes)"] * k, [(1, b"z")] * k
    if kind == "components":
        k = n // 5
        return ["(%s)" % ",".join(["bytes", "uint8"] * k)], [(b"z", 1) * k]
    if kind == "static-components":
        k = n // 4
        return ["(%s)" % ",".join(["bool", "uint8"] * k)], [(True, 1) * k]
    if kind == "blob":
        return ["bytes", "string"], [b"\xa5" * (300 * n), "\u20ac" * (100 * n)]
    if kind == "blobs":
        return ["bytes[]"], [[b"\xa5" * 500] * (n // 4)]
    if kind == "big-args":
        k = n // 12
        return ["bytes"] * k, [b"\xa5" * 8192] * k
    if kind == "big-components":
        k = n // 12
        return ["(%s)" % ",".join(["string", "bool"] * k)], [("z" * 8192, True) * k]
    if kind == "big-items":
        k = n // 12
        return ["(bytes)[%d]" % k, "bytes[][]"], [[(b"\xa5" * 4096,)] * k, [[b"\xa5" * 4096]] * k]
    if kind == "addresses":
        return ["address[]", "fixed128x18[]"], [["0x" + "ab" * 20] * (n // 8), [Decimal("1.5")] * (n // 8)]
    raise KeyError(kind)


SCALED = ["bytes[]", "string[N]", "pairs", "uint8[]", "bool[N]", "ints[2][]", "uint8[][]", "bytes[1][]", "bytes[][]", "(bytes)[N]", "((string,bool),bytes[])[]", "blobs-nested", "nested", "args", "args-tuples", "components", "static-components", "blob", "blobs", "addresses", "big-args", "big-components", "big-items"]


def seconds(fn, *a, **k):
    gc.collect()
    t = time.thread_time()
    out = sut.call(fn, *a, **k)
    t = time.thread_time() - t
    if not out.ok:
        fail("%s of a large value %s", fn.__name__, out)
    return t, out.value


def run_scale(case, rec):
    """Processor time must not grow much faster than the size.  Reported only when a
    factor of 8 in size costs more than a factor of 22 in time, every time it is tried."""
    kind = case
    n = 3000
    rec.nontrivial(kind)
    enabled = gc.isenabled()
    gc.disable()
    try:
        ops = {}
        for m in (n, SCALE * n):
            types, vals = scaled(kind, m)
            data = seconds(sut.encode, types, vals)[1]
            seconds(sut.decode, types, data)
            ops[m] = [
                ("encode", sut.encode, (types, vals)), ("decode", sut.decode, (types, data)),
                ("decode non-strict", sut.decode, (types, data, False)), ("encode_packed", sut.encode_packed, (types, vals)),
                ("is_encodable", all_encodable, (types, vals)),
            ]
        for (name, fn, small), (_, _, large) in zip(ops[n], ops[SCALE * n]):
            worst = None
            for _ in range(TRIES):
                b = seconds(fn, *large)[0]
                if b < FLOOR:
                    break
                a = min(seconds(fn, *small)[0] for _ in range(3))
                if b <= RATIO * a:
                    break
                worst = (a, b)
            else:
                fail("%s takes %s s for %s items of kind %s and %s s for %s items", name, "%.3f" % worst[0], str(n), kind, "%.3f" % worst[1], str(SCALE * n))
            rec.more(1)
            rec.label("scale")
    finally:
        if enabled:
            gc.enable()


# types of many parts: the work of reading, validating and building coders for a type not
# seen before grows in proportion to its text
COLD = ["ints", "pairs", "bytes", "sized", "nested", "args"]


def type_text(kind, n, salt):
    if kind in ("ints", "args"):
        return "(%s)" % ",".join("uint%d" % (8 + 8 * ((i + salt) % 32)) for i in range(n))
    if kind == "pairs":
        return "(%s)" % ",".join("(bytes,int%d)[]" % (8 + 8 * ((i + salt) % 32)) for i in range(n // 3))
    if kind == "bytes":
        return "(%s)" % ",".join("bytes%d" % (1 + (i + salt) % 32) for i in range(n))
    if kind == "sized":
        return "(%s)" % ",".join("bool[%d]" % (1 + (i * 7 + salt) % 300) for i in range(n))
    part = "(%s)[2]" % ",".join("(string,(uint8,fixed%dx%d))" % (8 + 8 * ((i + salt) % 32), 1 + (i + salt) % 80) for i in range(40))
    return "(%s)" % ",".join([part] * (n // 100))


def cold_ops(kind, n, salt):
    """{name: seconds} for a type of about n parts that is new to the parser and the registry."""
    s = type_text(kind, n, salt)
    out = {}

    def timed(name, fn, *a):
        out[name], value = seconds(fn, *a)
        return value

    t = timed("parse", sut.grammar.parse, s)
    timed("validate", t.validate)
    timed("to_type_str", t.to_type_str)
    timed("is_dynamic", lambda: t.is_dynamic)
    timed("normalize", sut.grammar.normalize, s)
    reg = sut.registry.registry.copy()
    types = [str(x) for x in P(s).items] if kind == "args" else [s]
    timed("has_encoder", lambda: [reg.has_encoder(x) for x in types])
    reg = sut.registry.registry.copy()
    timed("the first get_encoder", lambda: [reg.get_encoder(x) for x in types])
    timed("the first get_decoder", lambda: [reg.get_decoder(x) for x in types])
    c = sut.codec.ABICodec(sut.registry.registry.copy())
    timed("is_encodable_type", lambda: [c.is_encodable_type(x) for x in types])
    c = sut.codec.ABICodec(sut.registry.registry.copy())
    timed("the first decode of nothing", lambda: sut.call(c.decode, types, b""))
    timed("the first encode of nothing", lambda: sut.call(c.encode, types, [()] * len(types)))
    timed("the first is_encodable of nothing", lambda: c.is_encodable(types[0], ()))
    return out


def run_cold(case, rec):
    kind, n = case, 700
    rec.nontrivial("cold", kind)
    enabled = gc.isenabled()
    gc.disable()
    try:
        suspects, worst = None, {}
        for k in range(TRIES):
            large = cold_ops(kind, SCALE * n, 8 * k + 1)
            small = {}
            for j in range(3):
                for name, x in cold_ops(kind, n, 8 * k + 2 + j).items():
                    small[name] = min(x, small.get(name, x))
            bad = {x for x in large if large[x] > FLOOR and large[x] > RATIO * small[x]}
            suspects = bad if suspects is None else suspects & bad
            if not suspects:
                break
            for x in suspects:
                worst[x] = (small[x], large[x])
            if k and any(large[x] > 6 * RATIO * small[x] for x in suspects):
                break
        if suspects:
            x = sorted(suspects)[0]
            fail("%s takes %s s for a new type of %s parts (%s) and %s s for one of %s", x, "%.3f" % worst[x][0], str(n), kind, "%.3f" % worst[x][1], str(SCALE * n))
        rec.more(len(large) - 1)
        rec.label("cold")
    finally:
        if enabled:
            gc.enable()


def all_encodable(types, vals):
    return [sut.is_encodable(t, v) for t, v in zip(types, vals)]


def void(fn, *a):
    fn(*a)


def announced(types, data, strict, rec):
    """A payload that announces more than it contains: no work or memory for it."""
    c = codec(False)
    ts = [P(t) for t in types]
    rec.nontrivial(tuple(types), data, strict)
    sut.call(c.decode, types, b"")  # builds the coders
    cap = DEC_FACTOR * (len(data) // 16 + sum(map(tnodes, ts)) + 4) * (2 + max(map(depth, ts))) + BASE
    k, out = events(cap, c.decode, types, data, strict=strict)
    what = "%s and the %d bytes %s" % (types, len(data), sut.cut(data.hex(), 300))
    bound("decode", what, k, cap)
    if out.ok:
        rec.label("announce-accepted")
    elif not isinstance(out.exc, sut.DecodingError):
        fail("decode %s for %s", out, what)
    t0 = time.thread_time()
    tracemalloc.start()
    try:
        out = None
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        sut.call(c.decode, types, data, strict=strict)
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    used = time.thread_time() - t0
    limit = 500_000 + 200 * len(data)
    if peak > limit:
        fail("decode allocates %d bytes for %s (limit %d)", str(peak), what, str(limit))
    if used > 20:
        fail("decode takes %.0f s of processor time for %s", str(used), what)
    rec.label("announced")


# ------------------------------------------------------------------ random


def run_random(case, rec):
    types, vals = case
    check_value(types, realize(vals), rec)


def run_payload(case, rec):
    types, data, kind = case
    if len(data) > 600 or max(depth(P(t)) for t in types) >= 3:
        rec.nontrivial(tuple(types), data)
    c = codec(False)
    for strict in (True, False):
        check_payload(types, data, strict, rec, c)


def prepare(tier, seed):
    # an allocation proportional to an announced length must not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def parts(tier):
    return [
        Part("scale", run_scale, enum=lambda tier, seed: iter(SCALED)),
        Part("cold", run_cold, enum=lambda tier, seed: iter(COLD)),
        Part("sweep", run_enum, enum=enum),
        Part("values", run_random, cases=gen.typed_args(depth=4, big=False), n=(1500, 60000)),
        Part("payloads", run_payload, cases=gen.payload(depth=4), n=(4000, 200000)),
    ]
