from .. import expect, gen, ref, sut, sweeps
from ..core import Part, Skip, narrow
from ..data import realize
from ..abit import P, dynamic
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are single corruptions of valid encodings, enumerated from the byte-role map of the "
    "reference layout: every bit of every padding and sign-extension byte, every bool value 2..255, "
    "every datapad byte, offsets into every word of the head and to/past the end, every single bit of "
    "offsets, lengths and counts, lengths past the data, array counts, value and data bytes, and every truncation. Non-trivial: all corruptions "
    "that change the payload; distinct by types and corrupted payload."
)

CLASSES = {
    "padding": (sut.NonEmptyPaddingBytes,),
    "pointer": (sut.InvalidPointer,),
    "short": (sut.InsufficientDataBytes,),
    "short-or-pointer": (sut.InsufficientDataBytes, sut.InvalidPointer),
}


def check(types, data, expected, rec, how):
    if expected == "oracle" and not expect.is_budget_ok(types, data, True, 3000):
        rec.skipped += 1
        return
    out = sut.call(sut.decode, types, data)
    rec.label("%s:%s" % (how, expected))
    if expected in ("oracle", "value"):
        expect.judge_decode(types, data, True, out)
        if expected == "value" and not out.ok:
            fail("decode(%s, %s) %s, expected the changed value", types, data.hex(), out)
        return
    want = CLASSES[expected]
    if out.ok or not isinstance(out.exc, want):
        fail(
            "%s of a valid payload: decode(%s, %s) %s, expected %s",
            how, types, data.hex(), out, "/".join(c.__name__ for c in want),
        )


def corruptions(types, data, regions, dense):
    """(how, payload, expected).  dense: 0 sparse .. 2 every bit."""
    total = len(data)
    for i, r in enumerate(regions):
        if r.role in ("pad", "sign", "datapad"):
            idx = range(r.start, r.end)
            if dense == 0 and len(idx) > 4:
                idx = sorted({r.start, r.start + 1, (r.start + r.end) // 2, r.end - 2, r.end - 1})
            bits = [1 << b for b in range(8)] if dense == 2 else [1 << ((r.start + i + dense) % 8), 0x80, 0xFF]
            for at in idx:
                for x in bits:
                    d = bytearray(data)
                    d[at] ^= x
                    yield r.role, bytes(d), "padding"
        elif r.role == "bool":
            vals = range(256) if dense == 2 else (0, 1, 2, 3, 0x10, 0x7F, 0x80, 0xFE, 0xFF)
            for x in vals:
                if x != data[r.start]:
                    d = bytearray(data)
                    d[r.start] = x
                    yield "bool", bytes(d), ("value" if x < 2 else "padding")
        elif r.role == "value":
            base = r.info["base"]
            idx = range(r.start, r.end)
            if dense == 0 and len(idx) > 3:
                idx = (r.start, (r.start + r.end) // 2, r.end - 1)
            signed_narrow = base in ("int", "fixed") and r.end - r.start < 32
            for at in idx:
                for x in [1 << b for b in range(8)] if dense == 2 else (1 << (i % 8), 0x80):
                    d = bytearray(data)
                    d[at] ^= x
                    if signed_narrow and at == r.start and x == 0x80:
                        yield "sign-bit", bytes(d), "padding"
                    else:
                        yield "value", bytes(d), "value"
        elif r.role == "data":
            idx = sorted({r.start, r.end - 1, (r.start + r.end) // 2})
            for at in idx:
                d = bytearray(data)
                d[at] ^= 1
                yield "data", bytes(d), ("value" if r.info["base"] == "bytes" else "oracle")
                d[at] ^= 0x81
                yield "data", bytes(d), ("value" if r.info["base"] == "bytes" else "oracle")
        elif r.role == "ptr":
            frame, head_end = r.info["frame"], r.info["head_end"]
            heads = set(range(0, head_end - frame, 32)) | {1, 31, head_end - frame - 1, head_end - frame - 31}
            if dense == 0 and len(heads) > 8:
                heads = sorted(heads)
                heads = heads[:3] + heads[-4:]
            for off in heads:
                yield "ptr-head", put(data, r.start, off), "pointer"
            for off in (total - frame, total - frame + 1, total - frame + 32, 2**32, 2**63, 2**64, 2**255, 2**256 - 1, 2**256 - 32, 2**256 - 64, 2**256 - frame):
                if 0 <= off < 2**256 and frame + off >= total:
                    yield "ptr-end", put(data, r.start, off), "pointer"
            cur = int.from_bytes(data[r.start:r.start + 32], "big")
            # one bit of the offset changed
            for b in range(256) if dense == 2 else sorted({(i * 7 + k * 29) % 256 for k in range(4)} | {5, 8, 16, 31, 32, 62, 63, 64, 65, 128, 160, 255}):
                off = cur ^ (1 << b)
                if frame + off >= total:
                    yield "ptr-end", put(data, r.start, off), "pointer"
                else:
                    yield "ptr-move", put(data, r.start, off), "oracle"
            for off in (cur + 32, cur - 32, cur + 1, cur - 1, head_end - frame, total - frame - 1, total - frame - 32, total - frame - 31):
                if 0 <= off != cur:
                    yield "ptr-move", put(data, r.start, off), "oracle"
        elif r.role == "len":
            n = r.info["n"]
            avail = total - r.end
            for b in range(256) if dense == 2 else sorted({(i * 11 + k * 29) % 256 for k in range(4)} | {31, 32, 62, 63, 64, 65, 128, 160, 255}):
                m = n ^ (1 << b)
                if m + ref.pad(m) > avail:
                    yield "len-past", put(data, r.start, m), "short"
                else:
                    yield "len", put(data, r.start, m), "oracle"
            for m in (avail + 1, avail + 2, avail + 31, avail + 32, avail + 33, 2**31, 2**32, 2**63 - 33, 2**63 - 32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**255, 2**256 - 32, 2**256 - 31, 2**256 - 1):
                yield "len-huge", put(data, r.start, m), "short"
            for m in {0, 1, n - 1, n + 1, n - 32, n + 32, avail, avail - 1, avail - 31}:
                if 0 <= m != n:
                    if m + ref.pad(m) > avail:
                        yield "len-past", put(data, r.start, m), "short"
                    else:
                        yield "len", put(data, r.start, m), "oracle"
        elif r.role == "count":
            n = r.info["n"]
            for b in range(256) if dense == 2 else sorted({(i * 11 + k * 29) % 256 for k in range(4)} | {31, 32, 62, 63, 64, 65, 128, 160, 255}):
                yield "count", put(data, r.start, n ^ (1 << b)), "oracle"
            for m in (0, n - 1, n + 1, n + 2, n + 100, 2**16, 2**32, 2**63, 2**64, 2**255, 2**256 - 1):
                if 0 <= m != n:
                    yield "count", put(data, r.start, m), "oracle"
    targets = [r.info["frame"] + int.from_bytes(data[r.start:r.end], "big") for r in regions if r.role == "ptr"]
    last = max(targets, default=-1)
    if dense or total <= 96:
        cuts = range(total)
    else:
        cuts = sorted({0, 1, 31, 32, 33, total - 1, total - 2, total - 31, total - 32, total - 33, total // 2, total - 64} | set(range(16, total, 32 * (1 + total // 1200))))
    for n in cuts:
        if 0 <= n < total:
            yield "cut", data[:n], ("short-or-pointer" if last >= n else "short")


def put(data, at, k):
    return data[:at] + ref.word(k) + data[at + 32:]


def enumerate_all(types, vals, dense, rec, limit=None, offset=0):
    ts = [P(t) for t in types]
    data, regions = ref.layout(ts, vals)
    cs = list(corruptions(types, data, regions, dense))
    if limit and len(cs) > limit:
        step = len(cs) // limit + 1
        cs = cs[offset % step::step]
    rec.more(len(cs) - 1)
    for how, d, expected in cs:
        with narrow(("one", types, d, expected, how)):
            check(types, d, expected, rec, how)
        rec.nontrivial(tuple(types), d)


def sweep_enum(tier, seed):
    for i, s in enumerate(sweeps.el_types(61 if tier == "quick" else 7)):
        yield ("el", s, i)
    for i, case in enumerate(sweeps.containers(tier, seed)):
        if tier == "thorough" or i % 3 == seed % 3:
            yield ("args", case[1], case[2], i)
    for i, case in enumerate(sweeps.multis(tier, seed)):
        yield ("args", case[1], case[2], i)
    for i, (types, vals) in enumerate(long_args(tier)):
        yield ("long", types, vals, i)
    for i, case in enumerate(sweeps.deep(tier, seed, 6)):
        yield ("args", case[1], case[2], i)


def run_sweep(case, rec):
    kind = case[0]
    if kind == "one":
        return check(case[1], case[2], case[3], rec, case[4])
    if kind == "el":
        s = case[1]
        vals = sweeps.el_vals(s)
        for j in range(2):
            v = realize(vals[(case[2] + 5 * j) % len(vals)])
            enumerate_all([s], [v], 2, rec)
        enumerate_all(["bool", s + "[]", s], [True, [v], v], 0, rec, 300)
        return
    if kind == "long":
        types = case[1]
        data, regions = ref.layout([P(t) for t in types], realize(case[2]))
        for j, (how, d, expected) in enumerate(long_corruptions(data, regions)):
            if expected == "value" and j % 4:
                continue
            with narrow(("one", types, d, expected, how)):
                check(types, d, expected, rec, how)
            rec.more(1)
            rec.nontrivial(tuple(types), d)
        return
    enumerate_all(case[1], realize(case[2]), 0, rec, 260 if PART_TIER[0] == "quick" else 2000, case[3])


LONG = [9, 17, 33, 40, 65, 100, 129, 257, 300]
LONG_T = LONG + [513, 1025]
AT = {0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 511, 512, 513}

FAR_AT = {0, 600, 1000, 1024, 1025, 2048, 4096, 8192}


def long_args(tier):
    """Long arrays, long argument lists and long byte strings: (types, values)."""
    for n in LONG if tier == "quick" else LONG_T:
        yield ["bytes[]"], [[bytes([i % 255 + 1]) * (i % 5) for i in range(n)]]
        yield ["string[%d]" % n, "bool"], [["w" * (i % 3) for i in range(n)], True]
        yield ["(uint8,string)[]"], [[(i % 256, "q" * (i % 2)) for i in range(n)]]
        yield ["uint8", "int24[]"], [1, [-i * i for i in range(n)]]
        yield ["bool[%d]" % n], [[i % 3 == 0 for i in range(n)]]
        yield ["uint8[][]"], [[[i % 256] * (i % 2) for i in range(n)]]
        yield ["bytes[][1]"], [[[b"ab"] * n]]
        yield ["(bool,(bytes3)[])[2]"], [[(True, [(b"xyz",)] * (n // 2)), (False, [(b"q",)] * n)]]
        if n <= 129:
            yield ["bytes"] * n, [bytes([i]) * (i % 40) for i in range(n)]
            yield ["(%s)" % ",".join(["address", "bytes"] * (n // 2))], [("0x" + "12" * 20, b"z") * (n // 2)]
            yield ["(%s,bytes)" % ",".join(["int8"] * n)], [(-1,) * n + (b"z",)]
            yield ["(%s,string)[2]" % ",".join(["bool"] * n), "uint8"], [[(True,) * n + ("z",)] * 2, 1]
    for k, n in enumerate((1100, 4200) if tier == "quick" else (1100, 2100, 4200, 9000)):
        yield ["bytes[]"], [[b"a"] * n]
        yield ["(bool,uint8[])[%d]" % n], [[(True, [])] * n]
        yield ["int8[]", "string"], [[-1] * n, "z"]
        if k == 0:
            yield ["bool"] * n + ["string"], [True] * n + ["z"]
            yield ["(%s)" % ",".join(["bytes", "uint8"] * (n // 2))], [(b"", 7) * (n // 2)]
    for n in (255, 256, 257, 1000, 4095, 4097, 65535, 65537):
        yield ["bytes", "bool"], [(bytes(range(1, 256)) * 300)[:n], True]
        yield ["(string)"], [("z" * n,)]


def spread(regions):
    """A few regions of every role: the first ones, the last, and around round numbers."""
    by = {}
    for r in regions:
        by.setdefault(r.role, []).append(r)
    out = []
    for role, rs in sorted(by.items()):
        at = AT if len(rs) <= 600 else FAR_AT
        out += [r for i, r in enumerate(rs) if i in at or i >= len(rs) - 1]
    return out


def long_corruptions(data, regions):
    """One or two corruptions for each region of the spread."""
    total = len(data)
    for r in spread(regions):
        if r.role in ("pad", "sign", "datapad"):
            for at in {r.start, r.end - 1}:
                yield r.role, put_byte(data, at, data[at] ^ (1 << at // 32 % 8)), "padding"
        elif r.role == "bool":
            yield "bool", put_byte(data, r.start, 2), "padding"
        elif r.role == "ptr":
            frame, head_end = r.info["frame"], r.info["head_end"]
            for off in {0, r.start - frame, head_end - frame - 32, head_end - frame - 1}:
                yield "ptr-head", put(data, r.start, off), "pointer"
            yield "ptr-end", put(data, r.start, total - frame), "pointer"
            yield "ptr-end", put(data, r.start, 2**256 - 32), "pointer"
            cur = int.from_bytes(data[r.start:r.start + 32], "big")
            for b in (32, 64, 128, r.start * 5 // 32 % 224 + 32):
                yield "ptr-end", put(data, r.start, cur + (1 << b)), "pointer"
        elif r.role == "len":
            yield "len-huge", put(data, r.start, total - r.end + 1), "short"
            for b in (32, 64, 128, r.start * 5 // 32 % 224 + 32):
                yield "len-huge", put(data, r.start, r.info["n"] + (1 << b)), "short"
        elif r.role == "count" and r.info["n"]:
            for b in (32, 64, 128, r.start * 5 // 32 % 224 + 32):
                yield "count", put(data, r.start, r.info["n"] + (1 << b)), "oracle"
        elif r.role == "value" and r.info["base"] in ("uint", "address"):
            yield "value", put_byte(data, r.end - 1, data[r.end - 1] ^ 1), "value"
    for n in (total - 1, total - 32, total - 33):
        yield "cut", data[:n], "short-or-pointer"


def put_byte(data, at, x):
    return data[:at] + bytes([x]) + data[at + 1:]


PART_TIER = ["quick"]


@composite
def rnd(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=3, words=12))
    budget = [14]
    vals = [gen.draw_value(draw, P(t), False, False, budget) for t in types]
    return types, vals, draw(gen.I(0, 1000)), draw(gen.I(0, 1))


def run_random(case, rec):
    types, vals, offset, dense = case
    if len(case) == 4:
        enumerate_all(types, realize(vals), dense, rec, 60, offset)


def parts(tier):
    PART_TIER[0] = tier
    return [
        Part("sweep", run_sweep, enum=sweep_enum),
        Part("random", run_random, cases=rnd(), n=(2400, 60000)),
    ]
