from .. import expect, gen, ref, sut, sweeps
from ..core import Part, Skip, narrow
from ..data import realize
from ..abit import P
from ..src import composite
from ..sut import fail
from . import c06

RULE = (
    "Cases are payloads with byte strings at any nesting whose padding is altered (single bytes, all "
    "bytes, several strings at once) or cut off at the end of the data: strict must refuse, "
    "non-strict must return the original values; every other corruption of the C06 enumeration must "
    "still be refused by non-strict decoding; and random payloads, where whatever strict accepts "
    "non-strict must accept equally. Non-trivial: strict and non-strict outcomes may differ, or a "
    "non-padding malformation is present; distinct by types and payload."
)


def lax(types, data, k=0):
    return sut.call(sut.decode, types, data, False) if k % 2 else sut.call(sut.decode, types, data, strict=False)


def padded(types, vals, data, regions, rec, keep=None, offset=0):
    """Alterations of byte-string padding only."""
    want = tuple(ref.canon(P(t), v) for t, v in zip(types, vals))
    pads = [r for r in regions if r.role == "datapad"]
    out = []
    for r in pads:
        for at in {r.start, r.end - 1, (r.start + r.end) // 2}:
            d = bytearray(data)
            d[at] = 1 << (at % 8)
            out.append(bytes(d))
        d = bytearray(data)
        d[r.start:r.end] = b"\xff" * (r.end - r.start)
        out.append(bytes(d))
    if len(pads) > 1:
        d = bytearray(data)
        for r in pads:
            d[r.start:r.end] = b"\xa5" * (r.end - r.start)
        out.append(bytes(d))
    if pads and pads[-1].end == len(data):
        r = pads[-1]
        for n in {r.start, r.start + 1, (r.start + r.end) // 2, r.end - 1}:
            if n < r.end:
                out.append(data[:n])
                d = bytearray(data[:n])
                d[r.start:n] = b"\x01" * (n - r.start)
                out.append(bytes(d))
    if keep and len(out) > keep:
        step = len(out) // keep + 1
        out = out[offset % step::step]
    for k, d in enumerate(out):
        if d == data:
            continue
        rec.more(1)
        with narrow(("pad", types, vals, d)):
            judge_padded(types, want, d, rec, k)
        rec.nontrivial(tuple(types), d)


def judge_padded(types, want, d, rec, k):
    a = sut.call(sut.decode, types, d)
    if a.ok or not isinstance(a.exc, sut.DecodingError):
        fail("strict decode(%s, %s) %s although padding is damaged", types, d.hex(), a)
    b = lax(types, d, k)
    if not b.ok or not ref.same(b.value, want):
        fail("decode(%s, %s, strict=False) %s, expected %s", types, d.hex(), b, want)
    c = sut.call(sut.decode, types, d, True)
    if c.ok or not isinstance(c.exc, sut.DecodingError):
        fail("strict decode(%s, %s) after a non-strict one %s although padding is damaged", types, d.hex(), c)
    rec.label("padding")


LAX_EXPECT = {"pad", "sign", "bool", "ptr-head", "ptr-end", "sign-bit"}


def other(types, data, regions, rec, limit, offset):
    cs = list(c06.corruptions(types, data, regions, 0))
    step = len(cs) // limit + 1
    for how, d, expected in cs[offset % step::step]:
        rec.more(1)
        with narrow(("other", types, d, how, expected)):
            judge_other(types, d, how, expected, rec)
        if how != "value":
            rec.nontrivial(tuple(types), d)


def judge_other(types, d, how, expected, rec, budget=3000):
    if not expect.is_budget_ok(types, d, False, budget):
        rec.skipped += 1
        return
    out = lax(types, d)
    if how in LAX_EXPECT and expected in ("padding", "pointer"):
        if out.ok or not isinstance(out.exc, c06.CLASSES[expected]):
            fail("decode(%s, %s, strict=False) %s for a corruption of kind %s", types, d.hex(), out, how)
    expect.judge_decode(types, d, False, out)
    s = sut.call(sut.decode, types, d)
    if s.ok and not (out.ok and ref.same(out.value, s.value)):
        fail("strict decode(%s, %s) %s but non-strict %s", types, d.hex(), s, out)
    rec.label(how)


STR_EL = ["bytes", "string"]


def sweep_enum(tier, seed):
    for e in STR_EL:
        for j, tpl in enumerate(sweeps.TEMPLATES):
            ts = tpl.replace("T", e)
            for k, seq in enumerate(sweeps.LEN_SEQS):
                for shift in range(1, 10 if tier == "quick" else 22, 1 if "[" not in ts else 2):
                    yield ("args", [ts], [sweeps.fill(P(ts), Pk(shift + j), sweeps.Lens(seq))], shift)
    for i, case in enumerate(sweeps.multis(tier, seed, els=["bytes", "string", "uint8", "(bytes,uint8)", "string[]"])):
        yield ("args", case[1], case[2], i)
    for i, case in enumerate(sweeps.deep(tier, seed)):
        yield ("args", case[1], case[2], i)
    for i, (types, vals) in enumerate(c06.long_args(tier)):
        yield ("long", types, vals, i)
    for n in range(1, 130 if tier == "quick" else 1100):
        yield ("args", ["bytes"], [(bytes(range(256)) * 5)[:n]], n)
        yield ("args", ["uint8", "string[]"], [7, ["q" * n, "r" * (n // 2)]], n)


class Pk(sweeps.Picker):
    def __call__(self, t):
        if t.kind == "el" and t.canon == ("bytes", None):
            self.i += 1
            return bytes([1 + self.i % 255]) * (self.i * 7 % 67)
        if t.kind == "el" and t.canon[0] == "string":
            self.i += 1
            return "\u00e9x"[self.i % 2] * (self.i * 5 % 45)
        return super().__call__(t)


def run_sweep(case, rec):
    if case[0] == "pad":
        want = tuple(ref.canon(P(t), v) for t, v in zip(case[1], case[2]))
        return judge_padded(case[1], want, case[3], rec, 0)
    if case[0] == "other":
        return judge_other(case[1], case[2], case[3], case[4], rec, 30000)
    types, vals = case[1], realize(case[2])
    data, regions = ref.layout([P(t) for t in types], vals)
    if case[0] == "long":
        padded(types, vals, data, c06.spread(regions), rec, 12, case[3])
        cs = [c for c in c06.long_corruptions(data, regions) if c[0] != "datapad"]
        for how, d, expected in cs[case[3] % 4::4] + [c for c in cs if c[0] == "ptr-head"][-3:]:
            rec.more(1)
            with narrow(("other", types, d, how, expected)):
                judge_other(types, d, how, expected, rec, 30000)
            rec.nontrivial(tuple(types), d)
        return
    padded(types, vals, data, regions, rec)
    other(types, data, regions, rec, 12, case[3])


@composite
def rnd(draw):
    types = draw(gen.type_list(max_len=3, min_len=1, depth=4, words=12, only=["bytes", "string", "bytes", "string", "uint8", "bytes31", "int16"]))
    budget = [14]
    vals = [gen.draw_value(draw, P(t), False, False, budget) for t in types]
    return types, vals, draw(gen.I(0, 100))


def run_random(case, rec):
    types, vals, offset = case
    vals = realize(vals)
    data, regions = ref.layout([P(t) for t in types], vals)
    padded(types, vals, data, regions, rec, 12, offset)
    other(types, data, regions, rec, 10, offset)


def run_payload(case, rec):
    types, data, kind = case
    judge_other(types, data, kind, "oracle", rec)
    rec.nontrivial(tuple(types), data)


def parts(tier):
    return [
        Part("sweep", run_sweep, enum=sweep_enum),
        Part("random", run_random, cases=rnd(), n=(6000, 150000)),
        Part("payloads", run_payload, cases=gen.payload(depth=3, only=["bytes", "string", "uint8", "bool", "bytes3"]), n=(10000, 300000)),
    ]
