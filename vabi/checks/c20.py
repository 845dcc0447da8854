from .. import expect, gen, ref, sut, sweeps
from ..abit import P, dynamic, head_words, static_words
from ..core import Part, Skip, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Stream cases are sequences of 1..30 operations (push_frame, pop_frame, seek_in_frame, seek, read, "
    "tell) on a decoding stream, compared after every step with a model of frames. Decoder cases put a "
    "payload behind a prefix inside nested frames of one stream, call decoders for the types one after "
    "another (strict or not) and check values, positions and that popping afterwards retraces the "
    "pushes. Stacks of up to 2100 frames are enumerated. Stream-class cases decode through codecs whose stream class transforms or counts. "
    "Non-trivial: at least two frames or a dynamic type; distinct by case."
)

Stream = sut.decoding.ContextFramesBytesIO


# ---- operations on a bare stream


@composite
def stream_case(draw):
    size = draw(gen.S([0, 1, 31, 32, 33, 64, 100, 200]))
    ops = []
    for _ in range(draw(gen.I(1, 30))):
        k = draw(gen.I(0, 8))
        if k <= 1:
            ops.append(("push", draw(gen.S(OFFS)) if draw(gen.I(0, 1)) else draw(gen.I(0, 80))))
        elif k <= 3:
            ops.append(("pop",))
        elif k == 4:
            ops.append(("frame", draw(gen.I(0, 120))) + ((draw(gen.I(0, 2)),) if draw(gen.I(0, 3)) == 0 else ()))
        elif k == 5:
            ops.append(("seek", draw(gen.I(0, 250))))
        elif k == 6:
            ops.append(("end", draw(gen.I(0, 40))))
        else:
            ops.append(("read", draw(gen.S(READS))))
    return size, draw(gen.I(0, 1)), ops


OFFS = [0, 32, 64, 1, 31, 33, 1000, 2**20, 2**31, 2**40, 2**62]
READS = [32, 0, 1, 31, 33, 64, 500, -1]


def run_stream(case, rec):
    size, ba, ops = case
    data = bytes((i * 7 + 3) % 256 for i in range(size))
    s = Stream(bytearray(data) if ba else data)
    frames, base, pos = [], 0, 0
    deepest = 0
    shown = sut.cut(str(ops), 400)
    for i, op in enumerate(ops):
        where = "after %d operations of %s" % (i, shown)
        k = op[0]
        if k == "push":
            if base + op[1] >= 2**63:
                continue
            frames.append((op[1], pos))
            base += op[1]
            pos = base
            s.push_frame(op[1])
        elif k == "pop":
            out = sut.call(s.pop_frame)
            if not frames:
                if out.ok or not isinstance(out.exc, IndexError):
                    fail("pop_frame on an empty stack %s (%s)", out, where)
                rec.label("pop-empty")
            else:
                if not out.ok:
                    fail("pop_frame %s (%s)", out, where)
                off, pos = frames.pop()
                base -= off
        elif k == "frame":
            if base + op[1] + pos + size >= 2**63:
                continue
            # further arguments are those of seek()
            from_ = op[2] if len(op) > 2 else 0
            s.seek_in_frame(*op[1:])
            pos = base + op[1] + (0, pos, size)[from_]
        elif k == "seek":
            s.seek(op[1])
            pos = op[1]
        elif k == "end":
            s.seek(-min(op[1], size), 2)
            pos = size - min(op[1], size)
        else:
            got = s.read(op[1])
            want = data[pos:] if op[1] < 0 else data[pos:pos + op[1]]
            if got != want:
                fail("read(%s) gave %s, expected %s (%s)", op[1], bytes(got).hex(), want.hex(), where)
            pos += len(want)
        deepest = max(deepest, len(frames))
        if s.tell() != pos:
            fail("the position is %s after %s, expected %s (%s)", s.tell(), op, pos, where)
    if deepest >= 2:
        rec.nontrivial()
    # unwinding
    while frames:
        out = sut.call(s.pop_frame)
        off, pos = frames.pop()
        if not out.ok or s.tell() != pos:
            fail("unwinding: pop_frame %s leads to %s, expected %s (%s)", out, s.tell() if out.ok else None, pos, ops)
    out = sut.call(s.pop_frame)
    if out.ok or not isinstance(out.exc, IndexError):
        fail("pop_frame on an empty stack %s after unwinding %s", out, ops)
    rec.more(len(ops) - 1)


# ---- decoders on a shared stream


def run_decoders(case, rec):
    types, vals, cuts, strict, junk, twice = case
    vals = realize(vals)
    ts = [P(t) for t in types]
    payload = ref.enc_args(ts, vals)
    prefix = bytes((i * 11 + 5) % 256 for i in range(sum(cuts)))
    data = prefix + payload + junk
    reg = sut.registry.registry
    s = Stream(data)
    # walk into nested frames that end at the start of the payload
    back = []
    for c in cuts:
        s.seek_in_frame(c // 2)
        back.append(s.tell())
        s.push_frame(c)
    start = len(prefix)
    if s.tell() != start:
        fail("pushing frames %s leads to %s", cuts, s.tell())
    want = tuple(ref.canon(t, v) for t, v in zip(ts, vals))
    if len(cuts) >= 2 or any(map(dynamic, ts)):
        rec.nontrivial()
    decoders = []
    for t, ty in zip(types, ts):
        d = reg.get_decoder(t, strict=strict)
        decoders.append(sut.decoding.HeadTailDecoder(tail_decoder=d) if dynamic(ty) else d)
    for attempt in range(1 + twice):
        pos = start
        for t, ty, d, w in zip(types, ts, decoders, want):
            out = sut.call(d, s)
            if not out.ok:
                fail("decoding %s in the frame at %s %s (%s)", t, start, out, types)
            if not ref.same(out.value, w):
                fail("decoding %s in the frame at %s gives %s, expected %s", t, start, out.value, w)
            pos += 32 * head_words(ty)
            if s.tell() != pos:
                fail("after decoding %s the position is %s, expected %s (%s)", t, s.tell() - start, pos - start, types)
        s.seek_in_frame(0)
        if s.tell() != start:
            fail("decoding %s changed the frame: it starts at %s, expected %s", types, s.tell(), start)
    # the whole list through one tuple decoder on the same stream
    td = sut.decoding.TupleDecoder(decoders=[reg.get_decoder(t, strict=strict) for t in types])
    out = sut.call(td, s)
    if not out.ok or not ref.same(out.value, want):
        fail("a tuple decoder for %s in the frame at %s %s, expected %s", types, start, out, want)
    if s.tell() != start + 32 * sum(map(head_words, ts)):
        fail("after the tuple decoder for %s the position is %s", types, s.tell() - start)
    # popping retraces the pushes
    for b in reversed(back):
        out = sut.call(s.pop_frame)
        if not out.ok or s.tell() != b:
            fail("after decoding %s popping a frame %s leads to %s, expected %s", types, out, s.tell() if out.ok else None, b)
    out = sut.call(s.pop_frame)
    if out.ok or not isinstance(out.exc, IndexError):
        fail("decoding %s left frames on the stack", types)
    rec.label("static" if not any(map(dynamic, ts)) else "dynamic")


def run_bodies(case, rec):
    """Decoders of dynamic types called directly at the start of a frame."""
    ts, v, cuts, strict = case
    t = P(ts)
    v = realize(v)
    body = ref.enc(t, v)
    data = bytes(sum(cuts)) + body
    s = Stream(data)
    for c in cuts:
        s.push_frame(c)
    d = sut.registry.registry.get_decoder(ts, strict=strict)
    want = ref.canon(t, v)
    for _ in range(2):
        s.seek_in_frame(0)
        out = sut.call(d, s)
        if not out.ok or not ref.same(out.value, want):
            fail("the decoder for %s at the start of a frame %s, expected %s", ts, out, want)
        s.seek_in_frame(0)
        if s.tell() != sum(cuts):
            fail("decoding %s left the stream in another frame", ts)
    if dynamic(t):
        rec.nontrivial()
    for i in range(len(cuts)):
        s.pop_frame()
        if s.tell() != sum(cuts[:len(cuts) - 1 - i]):
            fail("after decoding %s popping leads to %s", ts, s.tell())
    out = sut.call(s.pop_frame)
    if out.ok or not isinstance(out.exc, IndexError):
        fail("decoding %s left frames on the stack", ts)


CUTS = [0, 32, 64, 7, 1, 96]


@composite
def dec_case(draw):
    types, vals = draw(gen.typed_args(max_len=3, depth=3, forms=False, big=False))
    cuts = [draw(gen.S(CUTS)) for _ in range(draw(gen.I(0, 3)))]
    return types, vals, cuts, draw(gen.I(0, 1)) == 0, draw(gen.S([b"", b"\xff", bytes(32), b"\x01" * 33])), draw(gen.I(0, 1))


@composite
def body_case(draw):
    t = draw(gen.type_str(depth=3))
    cuts = [draw(gen.S(CUTS)) for _ in range(draw(gen.I(0, 3)))]
    return t, gen.draw_value(draw, P(t), False, False, [15]), cuts, draw(gen.I(0, 1)) == 0


def enum(tier, seed):
    i = 0
    for e in ("uint8", "bytes", "string", "bool", "fixed"):
        for tpl in sweeps.TEMPLATES:
            ts = tpl.replace("T", e)
            for seq in ([0], [1], [2, 1]):
                i += 1
                v = sweeps.fill(P(ts), sweeps.Picker(i), sweeps.Lens(seq))
                yield ("dec", [ts], [v], [32, 7][: i % 3], i % 2 == 0, b"\xff" * (i % 3), 1)
                yield ("dec", ["uint8", ts, "bytes"], [1, v, b"z"], [64][: i % 2], i % 2 == 1, b"", 0)
                yield ("body", ts, v, [64, 3, 32][: i % 4], i % 2 == 0)


LONG = ["uint8", "bytes", "string", "uint16[2]", "uint8[]", "(uint8,bytes)", "(bool,int8)", "bytes3", "address"]


def long_enum(tier, seed):
    """Long arrays and tuples: the position and the frames after each."""
    i = 0
    for n in (8, 16, 17, 33, 64, 65, 100, 130, 257) + (() if tier == "quick" else (128, 200, 512, 1025)):
        for e in LONG:
            i += 1
            vals = [sweeps.fill(P(e), p, sweeps.Lens([1, 0])) for p in [sweeps.Picker(i)] for _ in range(n)]
            for ts in ["%s[]" % e, "%s[%d]" % (e, n)] + (["(%s)" % ",".join([e] * n)] if n <= 130 else []):
                v = vals
                yield ("dec", ["uint8", ts, "bool"], [1, v, True], [32, 7][: i % 3], i % 2 == 0, b"", i % 2)
                yield ("dec", ["(uint8,%s)" % ts, ts], [(1, v), v], [64][: i % 2], i % 2 == 1, b"", 0)
                yield ("body", ts, v, [64, 3, 32][: i % 4], i % 2 == 0)


def deep_enum(tier, seed):
    """Stacks of many frames."""
    for n in (40, 100, 129, 257, 300, 520, 1025, 2100) + (() if tier == "quick" else (4097, 8200, 70000)):
        for k, off in enumerate((0, 1, 3, 32)):
            ops = [("push", off)] * n + [("read", 7)] + [("pop",)] * (n - 5) + [("push", 2), ("frame", 1), ("read", 1)] + [("pop",)] * 3 + [("push", 1)] * 3
            yield ("ops", 200 if k else 5, k % 2, ops)
            yield ("ops", 200, k % 2, [x for i in range(n) for x in (("push", off), ("read", 1), ("push", 1), ("pop",), ("frame", i % 3))])
            if n <= 300:
                yield ("dec", ["uint8", "(string,uint8[])", "bytes[2]"], [1, ("s", [2, 3]), [b"a", b""]], [off] * n, k % 2 == 0, b"", 1)
                yield ("body", "(string,uint8[])[]", [("s", [2, 3]), ("t", [])], [off] * n, k % 2 == 1)


def run_enum(case, rec):
    if case[0] == "ops":
        return run_stream(case[1:], rec)
    if case[0] == "dec":
        return run_decoders(case[1:], rec)
    return run_bodies(case[1:], rec)


# ---- the codec's stream class


def make_codecs():
    from eth_abi.codec import ABICodec

    made = []

    class Reversing(Stream):
        """Sees the data back to front."""

        def __init__(self, data):
            made.append("rev")
            super().__init__(bytes(data)[::-1])

    class Shifting(Stream):
        """Skips a 5-byte header."""

        def __init__(self, data):
            made.append("shift")
            super().__init__(bytes(data)[5:])

    class Rev(ABICodec):
        stream_class = Reversing

    class Shift(ABICodec):
        stream_class = Shifting

    reg = sut.registry.registry.copy()
    seen = []

    def probe(stream):
        seen.append(type(stream))
        return int.from_bytes(stream.read(32), "big")

    reg.register("probe", lambda v: v.to_bytes(32, "big"), probe)
    return {"rev": (Rev(reg), Reversing, lambda b: b[::-1]), "shift": (Shift(reg), Shifting, lambda b: b"12345" + b)}, made, seen


CODECS = []


@composite
def class_case(draw):
    types, data, kind = draw(gen.payload(depth=3))
    return types, data, draw(gen.I(0, 1)), draw(gen.I(0, 1)) == 0


def run_class(case, rec):
    types, data, which, strict = case
    if not expect.is_budget_ok(types, data, strict):
        raise Skip()
    if not CODECS:
        CODECS.append(make_codecs())
    codecs, made, seen = CODECS[0]
    name = ["rev", "shift"][which]
    codec, cls, wrap = codecs[name]
    del made[:], seen[:]
    out = sut.call(codec.decode, types, wrap(data), strict=strict)
    rec.label(expect.judge_decode(types, data, strict, out, ctx="with a %s stream class: " % name))
    if made != [name]:
        fail("decode(%s) created the streams %s", types, made)
    if any(dynamic(P(t)) for t in types):
        rec.nontrivial()
    # decoders below containers get that stream, too
    out = sut.call(codec.decode, ["(uint8,probe[])", "probe"], wrap(ref.word(64) + ref.word(9) + ref.word(1) + ref.word(64) + ref.word(2) + ref.word(5) + ref.word(6)), strict=strict)
    if not out.ok or out.value != ((1, (5, 6)), 9):
        fail("decode through a %s stream class %s", name, out)
    if not seen or any(t is not cls for t in seen):
        fail("decoders got the streams %s instead of the codec's stream class", seen)


def parts(tier):
    return [
        Part("sweep", run_enum, enum=enum),
        Part("long", run_enum, enum=long_enum),
        Part("deep", run_enum, enum=deep_enum),
        Part("streams", run_stream, cases=stream_case(), n=(12000, 300000), size=200),
        Part("decoders", run_decoders, cases=dec_case(), n=(8000, 200000)),
        Part("bodies", run_bodies, cases=body_case(), n=(6000, 150000)),
        Part("stream-class", run_class, cases=class_case(), n=(4000, 100000)),
    ]
