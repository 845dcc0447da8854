import itertools

from .. import expect, gen, ref, sut, sweeps
from ..core import Part, Skip, narrow
from ..data import realize
from ..abit import P
from ..src import composite
from . import c06, c22

RULE = (
    "Cases are a type list and a byte string, decoded in both modes and from both data "
    "representations: every payload of up to 4 words over a small alphabet of words (bounded-"
    "exhaustive, with every kind of cut) for 20 type lists, every truncation of sample encodings, "
    "up to 100 dynamic components, items or arguments with their tails in 14 orders (reversed, "
    "rotated, shared, overlapping, with gaps), sized arrays of up to 2**256 items over short data, sampled corruptions of long arrays and of byte strings of up to 2 MiB, malformed text, "
    "and random payloads (valid, structurally mutated, scattered with reordered/shared tails and "
    "junk gaps, word soup, random bytes). Non-trivial: at least one full word of data and not "
    "a canonical encoding; distinct by types and data."
)


def check(types, data, rec, kind="", both=True, budget=3000):
    if not (expect.is_budget_ok(types, data, True, budget) and expect.is_budget_ok(types, data, False, budget)):
        raise Skip()
    for strict in (True, False):
        out = sut.call(sut.decode, types, data, strict)
        verdict = expect.judge_decode(types, data, strict, out)
        rec.label(("%s:" % kind if kind else "") + ("strict-" if strict else "lax-") + verdict)
        if both:
            out2 = sut.call(sut.decode, tuple(types), bytearray(data), strict)
            expect.judge_decode(types, data, strict, out2, ctx="bytearray: ")


def run_payload(case, rec):
    types, data, kind = case
    check(types, data, rec, kind)
    if len(data) >= 32 and kind != "valid":
        rec.nontrivial(tuple(types), data)


EX_TYPES = [
    (["bytes"], 4), (["string"], 4), (["uint8[]"], 4), (["bytes[]"], 4), (["(bytes)"], 4),
    (["(uint8,bytes)"], 4), (["bytes[1]"], 4), (["bytes[2]"], 4), (["uint8", "bytes"], 4),
    (["bytes", "uint8"], 4), (["bool[2]", "bytes"], 4), (["uint8[][]"], 4), (["(uint8[],bool)"], 4),
    (["((uint8,bool),bytes)"], 4), (["(bool,uint8)"], 2), (["int8", "bytes31"], 2), (["address"], 1),
    (["uint8[2][]"], 4), (["bytes", "string"], 4), (["(bytes)[]"], 4), (["uint8[1]", "uint8[]"], 4),
]
ALPHA = [0, 1, 2, 31, 32, 33, 64, 96, 128, 2**256 - 1]
ALPHA_T = ALPHA + [3, 63, 65, 160, 2**255, 2**63, 0x80 << 248]


def words_enum(tier, seed):
    alpha = ALPHA if tier == "quick" else ALPHA_T
    for types, n in EX_TYPES:
        for k in range(n + 1):
            fix = min(k, 2)
            for first in itertools.product(alpha, repeat=fix):
                yield ("words", types, list(first), k)
    for i, case in enumerate(sweeps.containers(tier, seed, els=["uint8", "bytes", "string", "int16", "bool", "fixed128x18"])):
        if i % 5 == 0 or tier == "thorough":
            yield ("cuts",) + case[1:]
    for i in range(len(c22.TPL)):
        yield ("text", i)
    for n in DIMS:
        for tpl in range(len(DIM_FORMS)):
            yield ("dims", n, tpl)
    for n in WIDE:
        for form in range(len(WIDE_FORMS)):
            for order in range(len(ORDERS)):
                yield ("tails", n, form, order)
    for i, (types, vals) in enumerate(c06.long_args(tier)):
        yield ("long", types, vals, i)
    for n in LARGE:
        for d in (-1, 0, 1, 3):
            for form in range(len(LARGE_FORMS)):
                yield ("large", n + d, form)


# array dimensions beyond any data, around the limits of machine integers
DIMS = [2**15, 2**16, 2**24, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**58, 2**59, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**65 + 7, 2**128, 2**255, 2**256, 10**80]
DIM_FORMS = ["E[N]", "(E[N],uint8)", "(bool,E[N])", "E[N][]", "E[N][2]", "E[2][N]", "E[][N]", "(E[N])[]", "((E)[N])", "E[N][N]", "(bytes,E[N])[2]"]
DIM_ITEMS = ["uint8", "bytes", "string", "(uint8,bool)", "(string,uint8)", "fixed8x1", "bytes3"]


def dims(n, tpl):
    """(types, payload) with arrays of n items, of which the payload has a few."""
    w = ref.word
    for j, e in enumerate(DIM_ITEMS):
        s = DIM_FORMS[tpl].replace("N", str(n)).replace("E", e)
        yield [s], b""
        for k, data in enumerate((bytes(32), bytes(256), w(32) + bytes(128), w(32) * 6, w(32) + w(1) + bytes(96), w(32) + w(64) + w(1) * 5, w(32) + w(2) + w(64) + w(96) + bytes(128), w(1) * 40, w(32) + w(n % 2**256) + bytes(64))):
            if (j + k + tpl) % 2:
                yield [s], data
            else:
                yield ["uint8", s, "bytes"], w(1) + data


WIDE = [2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 64, 100]
# (argument types, head words before the pointers of interest, one item type) for n items
WIDE_FORMS = [
    (lambda n, e: ["(%s)" % ",".join([e] * n)], 1),
    (lambda n, e: ["%s[%d]" % (e, n)], 1),
    (lambda n, e: ["%s[]" % e], 2),
    (lambda n, e: [e] * n, 0),
    (lambda n, e: ["(%s)" % ",".join([e if i % 2 == 0 else "uint8" for i in range(2 * n)])], -1),
]
ITEMS = [("bytes", [ref.enc(P("bytes"), bytes([65 + i]) * (i % 40)) for i in range(50)]), ("uint8[]", [ref.enc(P("uint8[]"), list(range(i % 5))) for i in range(10)]),
         ("(bool,string)", [ref.enc(P("(bool,string)"), (True, "s" * (i % 35))) for i in range(40)])]
ORDERS = ["forward", "reversed", "rotated", "halves", "strided", "swap-ends", "swap-mid", "one-shared", "two-shared", "gaps", "reversed-gaps", "last-first", "overlap", "into-heads"]


def place(n, order):
    """For each of n items: the rank at which its tail is stored (equal: shared)."""
    ids = list(range(n))
    if order.startswith("reversed"):
        return ids[::-1]
    if order == "rotated":
        return ids[n // 2:] + ids[: n // 2]
    if order == "halves":
        return [i // 2 if i % 2 == 0 else (n + 1) // 2 + i // 2 for i in ids]
    if order == "strided":
        return sorted(ids, key=lambda i: (i * 7 % 11, i))
    if order == "swap-ends":
        ids[0], ids[-1] = ids[-1], ids[0]
    if order == "swap-mid":
        ids[n // 2], ids[n // 2 - 1] = ids[n // 2 - 1], ids[n // 2]
    if order == "one-shared":
        return [0] * n
    if order == "two-shared":
        return [i % 2 for i in ids]
    if order == "last-first":
        return ids[1:] + [0]
    return ids


def tails(n, form, order):
    """n dynamic items whose tails lie in another order than their pointers, are shared, or
    have junk between them."""
    make, extra = WIDE_FORMS[form]
    order = ORDERS[order]
    for e, pool in ITEMS:
        ranks = place(n, order)
        gap = b"\x07" * 32 if "gaps" in order else b""
        step = 2 * n if extra == -1 else n
        out, at = [], {}
        pos = 32 * step
        for r in sorted(set(ranks)):
            out.append(gap)
            pos += len(gap)
            at[r] = pos
            out.append(pool[r % len(pool)])
            pos += len(pool[r % len(pool)])
        ptrs = [at[r] for r in ranks]
        if order == "overlap" and n > 1:
            ptrs[-1] = ptrs[0] + 32
        if order == "into-heads":
            ptrs[-1] = 0
            ptrs[n // 2] = 32
        heads = b"".join(map(ref.word, ptrs)) if extra != -1 else b"".join(ref.word(p) + ref.word(3) for p in ptrs)
        pre = {0: b"", 1: ref.word(32), 2: ref.word(32) + ref.word(n), -1: ref.word(32)}[extra]
        yield make(n, e), pre + heads + b"".join(out)


LARGE = [4096, 8192, 16384, 65536, 2**20, 2**21]
LARGE_FORMS = [
    (["bytes"], lambda b: [b]), (["string"], lambda b: [b]), (["(bool,string)[]"], lambda b: [[(True, b), (False, b"\xc3\xa9")]]),
    (["uint8", "bytes[2]"], lambda b: [1, [b"ab", b]]), (["bytes", "string"], lambda b: [b"q", b]),
]


def large(n, form):
    """Payloads with one byte string of n bytes, and what can be wrong with it."""
    types, make = LARGE_FORMS[form]
    body = (b"\xe2\x82\xac" * (n // 3 + 1))[: n // 3 * 3].rjust(n, b"z")
    one = ref.enc_args([P(t.replace("string", "bytes")) for t in types], make(body))
    yield one
    for k in (1, 31, 32, 33):
        yield one[:-k]
    at = one.index(ref.word(n)) + 32
    for m in (n + 1, n - 1, n + 64, len(one)):
        yield one[:at - 32] + ref.word(m) + one[at:]
    for i in (0, n // 2, n - 1):
        yield one[:at + i] + b"\xff" + one[at + i + 1:]
    if n % 32:
        yield one[:at + n] + b"\x01" + one[at + n + 1:]
    # cut inside the last character
    yield one[:at - 32] + ref.word(n - 1) + one[at:at + n - 1] + bytes(1) + one[at + n:]


def run_words(case, rec):
    kind, types = case[0], case[1]
    if kind == "text":
        tpl = c22.TPL[types]
        for pool in (c22.BAD, [x + y for x, y in zip(c22.GOOD, c22.BAD)], c22.GOOD[:3] + c22.BAD[:1] + c22.GOOD[3:5]):
            for data in c22.payloads(tpl, pool):
                rec.more(1)
                with narrow(("one", tpl, data)):
                    check(tpl, data, rec, "text")
                rec.nontrivial(tuple(tpl), data)
        return
    if kind == "one":
        check(types, case[2], rec, budget=30000)
        return
    if kind == "dims":
        for ts, data in dims(case[1], case[2]):
            rec.more(1)
            try:
                with narrow(("one", ts, data)):
                    check(ts, data, rec, "dims", both=False)
                rec.nontrivial(tuple(ts), data)
            except Skip:
                rec.skipped += 1
        return
    if kind == "tails":
        for ts, data in tails(*case[1:]):
            rec.more(1)
            with narrow(("one", ts, data)):
                check(ts, data, rec, "tails-" + ORDERS[case[3]], both=False, budget=30000)
            rec.nontrivial(tuple(ts), data)
        return
    if kind == "large":
        for i, d in enumerate(large(case[1], case[2])):
            rec.more(1)
            check(LARGE_FORMS[case[2]][0], d, rec, "large", both=i == 0)
        rec.nontrivial("large", case[1], case[2])
        return
    if kind == "long":
        data, regions = ref.layout([P(t) for t in types], realize(case[2]))
        cs = list(c06.long_corruptions(data, regions))
        for how, d, _ in cs[case[3] % 3::3] + [c for c in cs if c[0] == "ptr-head"][-8:]:
            rec.more(1)
            with narrow(("one", types, d)):
                check(types, d, rec, "long", both=False, budget=30000)
            rec.nontrivial(tuple(types), d)
        return
    if kind == "cuts":
        data = ref.enc_args([P(t) for t in types], realize(case[2]))
        for n in range(len(data)) if len(data) < 700 else range(0, len(data), 17):
            with narrow(("one", types, data[:n])):
                check(types, data[:n], rec, "cut", both=False)
            rec.nontrivial(tuple(types), data[:n])
        rec.more(len(data))
        return
    first, k = case[2], case[3]
    head = b"".join(map(ref.word, first))
    cuts = (0, 1, 31, 32) if k <= 3 else (0, 1)
    for rest in itertools.product(ALPHA, repeat=k - len(first)):
        data = head + b"".join(map(ref.word, rest))
        for cut in cuts:
            if cut > len(data) or (cut == 32 and k > 1):
                continue
            d = data[:len(data) - cut]
            rec.more(1)
            try:
                with narrow(("one", types, d)):
                    check(types, d, rec, "words", both=False)
            except Skip:
                rec.skipped += 1
                continue
            rec.nontrivial(tuple(types), d)


def parts(tier):
    return [
        Part("small-exhaustive", run_words, enum=words_enum),
        Part("payloads", run_payload, cases=gen.payload(depth=3), n=(24000, 1000000)),
        Part("payloads-flat", run_payload, cases=gen.payload(depth=1, max_len=5), n=(10000, 300000)),
        Part("payloads-bytes", run_payload, cases=gen.payload(depth=3, only=["bytes", "string", "uint8", "bool"]), n=(12000, 400000)),
        Part("big", run_payload, cases=gen.payload(depth=2, big=True), n=(2000, 50000)),
    ]
