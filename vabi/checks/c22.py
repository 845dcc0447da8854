import codecs

from .. import expect, gen, ref, sut, sweeps
from ..abit import P, leaves
from ..core import Part, Skip, narrow
from ..data import realize
from ..src import composite
from ..sut import fail

RULE = (
    "Cases are byte strings (all code points in blocks, every one- and two-byte string, malformed "
    "UTF-8 of every kind, mixtures, long texts with something special near a power of two, texts of up to 140000 characters over eight fillers with line ends, marks, blanks and composed characters anywhere) stored in string values at any nesting, decoded in both modes by "
    "the default codec and by registries whose string decoder has each standard error handler or a "
    "custom one. Oracle: bytes.decode('utf-8', handler) at every string of the reference layout. "
    "Non-trivial: some string is not ASCII; distinct by types, handler and payload."
)

HANDLERS = ["strict", "ignore", "replace", "backslashreplace", "surrogateescape", "surrogatepass", "vabi-star"]


def star(e):
    return ("*%d*" % (e.end - e.start), e.end)


codecs.register_error("vabi-star", star)

CODECS = {}


def codec_for(handler, how):
    """how 0: the default codec; 1: 'string' re-registered; 2: a new type name."""
    key = (handler, how)
    if key not in CODECS:
        from eth_abi.codec import ABICodec

        if how == 0:
            CODECS[key] = sut
        else:
            reg = sut.registry.registry.copy()
            dec = sut.decoding.StringDecoder(handle_string_errors=handler)
            if how == 1:
                reg.unregister_decoder("string")
                reg.register_decoder(sut.registry.BaseEquals("string", with_sub=False), dec, label="string")
            else:
                reg.register("mystring", sut.encoding.TextStringEncoder, dec)
            CODECS[key] = ABICodec(reg)
    return CODECS[key]


def expected(v, handler):
    if isinstance(v, ref.BadText):
        return v.data.decode("utf-8", handler)
    if isinstance(v, tuple):
        return tuple([expected(x, handler) for x in v])
    return v


def check(types, data, handler, how, strict, rec):
    if how == 0:
        handler = "strict"
    try:
        d = ref.decode([P(t) for t in types], data, strict, 5000, raw_text=True)
    except ref.Budget:
        raise Skip()
    except ref.Reject:
        d = None
    names = [t.replace("string", "mystring") if how == 2 else t for t in types]
    codec = codec_for(handler, how)
    out = sut.call(codec.decode, names, data, strict=strict)
    what = "decode(%s, %s, strict=%s) with handler %s" % (names, sut.cut(bytes(data).hex(), 600), strict, handler)
    rec.label("%s-%s" % (handler, "default" if how == 0 else "string" if how == 1 else "new-name"))
    if d is None:
        if out.ok or not isinstance(out.exc, (sut.DecodingError, UnicodeDecodeError)):
            fail("%s %s for malformed data", what, out)
        return
    want = sut.call(expected, d.value, handler)
    if any(b > 127 for b in data):
        rec.nontrivial(tuple(types), handler, data, how)
    if want.ok:
        if not out.ok:
            fail("%s %s, expected %s", what, out, want)
        if not ref.same(out.value, want.value):
            fail("%s = %s, expected %s", what, ascii(out.value), ascii(want.value))
    elif out.ok or not isinstance(out.exc, UnicodeDecodeError):
        fail("%s %s, expected UnicodeDecodeError", what, out)
    else:
        rec.label("refused")


def wire(types, vals):
    """Encoding with raw bytes in the place of strings."""
    return ref.enc_args([P(t.replace("string", "bytes")) for t in types], vals)


BAD = [
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc2\x41", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xe1\x80", b"\xed\xa0\x80",
    b"\xed\xbf\xbf", b"\xed\xa0\x80\xed\xb0\x80", b"\xef\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80", b"\xf4\x90\x80\x80",
    b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfc", b"\xfe", b"\xff", b"\xff\xfe", b"\xfe\xff", b"a\xffb", b"\xe2\x82", b"\xe2\x28\xa1", b"\xf0\x28\x8c\xbc",
    b"\x80" * 33, b"\xff" * 32, b"\xc3\x28" * 20, b"abc\xe2\x82", b"\xa0\xa1", b"\xf0\x9f\x98",
]
GOOD = [b"", b"a", b"\x00", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode(), b"\xef\xbb\xbf", b"\xef\xbb\xbfabc", b"\x00" * 32, b"x" * 31, b"x" * 32, b"x" * 33, "\ufffe\uffff".encode(), "\u0000\u007f\u0080\u07ff\u0800\ud7ff\ue000\U0010ffff".encode(), b"\r\n", b"\n", "e\u0301".encode(), "\u2028".encode(), b" a ", b"a\x00\x00"]
TPL = [["string"], ["string[]"], ["string[2]"], ["(string)"], ["(uint8,string)"], ["(string,bytes)[]"], ["string", "string"], ["((string)[1],bool)"], ["string[][]"], ["bool", "(string[],string)"]]


def build(t, atoms):
    """Value of t with the next byte string of atoms at every string."""
    return sweeps.fill(t, lambda e: atoms() if str(e) == "string" else b"\xff" if str(e) == "bytes" else True if str(e) == "bool" else 3, sweeps.Lens([2, 1]))


def payloads(tpl, pool):
    """Encodings of tpl with the byte strings of pool as texts, starting at each of them."""
    for j in range(len(pool)):
        n = [j - 1]

        def atoms():
            n[0] += 1
            return pool[n[0] % len(pool)]

        yield wire(tpl, [build(P(t), atoms) for t in tpl])


def enum(tier, seed):
    for i in range(0, 0x110000, 0x400):
        yield ("block", i)
    for i in range(256):
        yield ("two", i)
    for i, tpl in enumerate(TPL):
        for how, handler in [(0, "strict")] + [(h, x) for h in (1, 2) for x in HANDLERS]:
            yield ("tpl", i, how, handler)
    for b in (64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536) + ((100000, 131072, 262144, 1048576) if tier == "thorough" else (131072,)):
        for lane in range(4):
            yield ("long", b, lane)
    for b in (33, 100, 250, 300, 1001, 1100, 4097, 5000, 66000, 140000) + ((300000, 1100000) if tier == "thorough" else ()):
        for f in range(len(sweeps.FILLERS)):
            yield ("odd", b, f)


def long_texts(n, lane):
    """Byte strings of about n bytes with something special near that place."""
    short = n <= 4096
    for i, special in enumerate(BAD + GOOD[3:8]):
        if i % 4 != lane:
            continue
        for j in range(0, len(special) + 1) if short else sorted({1, len(special) - 1, len(special)}):
            if j > 6:
                continue
            filler = (b"a" if i % 2 or not short else "\u20ac".encode())
            head = (filler * (n // len(filler) + 1))[: n - j]
            if filler != b"a":
                head = head[: len(head) // 3 * 3].rjust(n - j, b"b")
            yield i, head + special
            if short or i % 3 == 0:
                yield i, head + special + b"tail"
            if short and i % 3 == 1:
                yield i, head + special + filler * (n // 2)


def run_enum(case, rec):
    kind = case[0]
    if kind == "one":
        return check(*case[1:], rec)

    def one(*a):
        rec.more(1)
        with narrow(("one",) + a):
            check(*a, rec)

    if kind == "odd":
        for text in sweeps.odd_texts(case[1], case[2]):
            with narrow(("text", text)):
                block(text, rec)
        return
    if kind == "text":
        return block(case[1], rec)
    if kind == "block":
        cps = [c for c in range(case[1], case[1] + 0x400) if not 0xD800 <= c <= 0xDFFF]
        if cps:
            with narrow(("text", "".join(map(chr, cps)))):
                block("".join(map(chr, cps)), rec)
            # each alone, for the ends of the block
            for c in cps[:3] + cps[-3:]:
                with narrow(("text", chr(c))):
                    block(chr(c), rec)
        else:
            for c in range(case[1], case[1] + 0x400, 37):
                one(["string"], wire(["string"], [chr(c).encode("utf-8", "surrogatepass")]), HANDLERS[c % 7], 1 + c % 2, True)
        return
    if kind == "two":
        a = case[1]
        one(["string"], wire(["string"], [bytes([a])]), "strict", 0, True)
        for b in range(0, 256, 3 if a < 0x80 else 1):
            data = wire(["string"], [bytes([a, b])])
            one(["string"], data, "strict", 0, b % 2 == 0)
            h = HANDLERS[(a + b) % 7]
            one(["string"], data, h, 1 + (b // 7) % 2, b % 2 == 1)
        return
    if kind == "long":
        for k, (i, text) in enumerate(long_texts(case[1], case[2])):
            data = wire(["string"], [text])
            one(["string"], data, "strict", 0, k % 2 == 0)
            one(["string"], data, HANDLERS[k % 7], 1 + k // 7 % 2, k % 2 == 1)
            if k % 5 == 0:
                one(["(uint8,string[])"], wire(["(uint8,string[])"], [(1, [text, b"ok", text[-5:]])]), HANDLERS[(k // 5) % 7], k % 3, k % 2 == 1)
        return
    _, i, how, handler = case
    tpl = TPL[i]
    pools = [GOOD, BAD, [x + y for x, y in zip(GOOD, BAD)], GOOD[:3] + BAD[:1] + GOOD[3:5]]
    for pool in pools:
        for data in payloads(tpl, pool):
            for strict in (True, False):
                one(tpl, data, handler, how, strict)


def block(text, rec):
    """Valid text round-trips unchanged."""
    for types, vals in ((["string"], [text]), (["(uint8,string[])"], [(1, [text[:7], text])])):
        rec.more(1)
        out = sut.call(sut.encode, types, vals)
        expect.judge_encode(types, vals, out)
        for strict in (True, False):
            back = sut.call(sut.decode, types, out.value, strict=strict)
            expect.judge_decode(types, out.value, strict, back)
        p = sut.call(sut.encode_packed, types, vals)
        expect.judge_encode(types, vals, p, packed=True)
    rec.nontrivial(text)


@composite
def rand(draw):
    types = draw(gen.type_list(max_len=2, min_len=1, depth=3, only=POOL))

    def atom():
        k = draw(gen.I(0, 5))
        if k == 0:
            return draw(gen.BIN70)
        if k == 1:
            return draw(gen.TEXT).encode()
        if k == 2:
            return b"".join(draw(gen.S(GOOD)) for _ in range(draw(gen.I(0, 3)))) + draw(gen.S(BAD)) + draw(gen.S(GOOD))
        if k == 3:
            return b"".join(draw(gen.S(BAD if draw(gen.I(0, 2)) == 0 else GOOD)) for _ in range(draw(gen.I(0, 5))))
        b = draw(gen.TEXT).encode()
        return b[: draw(gen.I(0, len(b)))]

    def go(t):
        if t.kind == "el":
            return atom() if str(t) in ("string", "bytes") else 5
        if t.kind == "tup":
            return tuple(go(c) for c in t.items)
        return [go(t.item) for _ in range(t.size if t.size is not None else draw(gen.I(0, 3)))]

    vals = [go(P(t)) for t in types]
    data = wire(types, vals)
    k = draw(gen.I(0, 5))
    if k == 0:
        data = gen.mutate(draw, data)[:3000]
    elif k == 1:
        data = data[:-1]
    how = draw(gen.I(0, 2))
    return types, data, "strict" if how == 0 else draw(gen.S(HANDLERS)), how, draw(gen.I(0, 1)) == 0


POOL = ["string"] * 6 + ["bytes", "uint8"]


def run_rand(case, rec):
    check(*case, rec)


def parts(tier):
    return [
        Part("sweep", run_enum, enum=enum),
        Part("random", run_rand, cases=rand(), n=(12000, 300000)),
    ]
