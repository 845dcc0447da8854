import sys
import threading

from .. import core, expect, gen, ref, sut, sweeps
from ..abit import P
from ..core import Part, narrow
from ..data import realize
from ..sched import Deadlock, Sched
from ..src import composite
from ..sut import fail
from .c08 import DEC_KINDS, SHARED, WRAP, _payload

RULE = (
    "Cases are 2 or 3 threads with 1..3 coding calls each on a shared codec (the default one or a "
    "fresh copy with cold caches) and a schedule that says after how many source lines of the code "
    "under test control moves to which thread. For a fixed list of call pairs every schedule with one "
    "preemption is enumerated; random cases draw 1..6 preemptions or line-by-line alternation; a last "
    "part runs threads freely with a tiny switch interval. Each result is judged by the reference as "
    "if the call were alone. Non-trivial: at least one switch happened between two calls that share a "
    "type; distinct by calls and schedule. Calls that fail (unknown or malformed types, bad values, "
    "bad data) in a thread that lives on are followed by calls in new threads, which must finish."
)


def do(op, codec):
    kind = op[0]
    if kind == "enc":
        return sut.call(codec.encode, op[1], realize(op[2]))
    if kind == "pack":
        return sut.call(sut.encode_packed, op[1], realize(op[2]))
    if kind == "dec":
        return sut.call(codec.decode, op[1], op[2], strict=op[3])
    if kind == "isenc":
        return sut.call(codec.is_encodable, op[1][0], realize(op[2][0]))
    if kind == "refuse":
        f = {"enc": codec.encode, "dec": codec.decode, "pack": sut.encode_packed}[op[2]]
        return sut.call(f, op[1], op[3])
    if kind == "notype":
        return sut.call(codec.is_encodable_type, op[1][0])
    return sut.call(codec.is_encodable_type, op[1][0])


def judge(op, out, rec, where):
    kind = op[0]
    if kind in ("enc", "pack"):
        expect.judge_encode(op[1], realize(op[2]), out, packed=kind == "pack", ctx=where)
    elif kind == "dec":
        expect.judge_decode(op[1], op[2], op[3], out, ctx=where)
    elif kind == "isenc":
        faults = expect.enc_faults(op[1][:1], [realize(op[2][0])])
        if not out.ok or type(out.value) is not bool:
            fail("%sis_encodable(%s, %s) %s", where, op[1][0], op[2][0], out)
        if not faults & {ref.AMBIG, ref.NEGRES} and out.value is not (not faults):
            fail("%sis_encodable(%s, %s) %s, faults: %s", where, op[1][0], op[2][0], out, sorted(faults))
    elif kind == "refuse":
        # an unknown or malformed type: no result, whatever else goes on
        if out.ok or not isinstance(out.exc, (sut.ParseError, sut.ABITypeError, sut.NoEntriesFound, ValueError, KeyError)):
            fail("%s%s(%s, %s) %s", where, op[2], op[1], op[3], out)
    elif kind == "notype":
        if out.ok and out.value is not False:
            fail("%sis_encodable_type(%s) %s", where, op[1][0], out)
    elif not out.ok or out.value is not True:
        fail("%sis_encodable_type(%s) %s", where, op[1][0], out)


def make_codec(fresh):
    if not fresh:
        return sut
    from eth_abi.codec import ABICodec

    return ABICodec(sut.registry.registry.copy())


# Code that holds a lock while it is preempted makes the other thread wait, which costs
# 40 ms each time.  After this many waits in a worker fewer preemptions are tried.
WAITS = [0]
MANY_WAITS = 400


def thinner():
    return 8 if WAITS[0] > MANY_WAITS else 1


def run_schedule(threads, fresh, quanta, rec):
    """Returns the scheduler."""
    codec = make_codec(fresh)
    outs = [[] for _ in threads]

    def body(i):
        def go():
            for op in threads[i]:
                outs[i].append(do(op, codec))

        return go

    s = Sched(core.REPO + "/", [body(i) for i in range(len(threads))], quanta)
    try:
        s.run()
    except Deadlock:
        fail("the threads do not finish: %s", threads)
    if s.stalls:
        WAITS[0] += s.stalls
        rec.label("stalls", s.stalls)
    for i, ops in enumerate(threads):
        for op, out in zip(ops, outs[i]):
            judge(op, out, rec, "with other threads (schedule %s): " % (quanta[:8],))
    return s


def run_random(case, rec):
    threads, fresh, quanta = case
    for ops in threads:
        for op in ops:
            if op[0] == "dec" and not expect.is_budget_ok(op[1], op[2], op[3], 1000):
                raise core.Skip()
    if thinner() > 1:
        quanta = quanta[:2]
    s = run_schedule(threads, fresh, quanta, rec)
    rec.label("switches-%s" % ("0" if not s.switches else "1-3" if s.switches < 4 else "4-15" if s.switches < 16 else "16+"))
    types = [{t for op in ops for t in op[1]} for ops in threads]
    if s.switches > len(threads) - 1 and types[0] & types[1]:
        rec.nontrivial()


OPS = [
    ("enc", ["(uint8,bytes)[]"], [[(1, b"ab"), (2, b"")]]),
    ("enc", ["(uint8,bytes)[]"], [[(255, b"x" * 40)]]),
    ("enc", ["(uint8,bytes)[]"], [[(256, b"")]]),
    ("dec", ["(uint8,bytes)[]"], ref.enc_args([P("(uint8,bytes)[]")], [[(7, b"qq"), (8, b"r" * 33)]]), True),
    ("dec", ["(uint8,bytes)[]"], ref.enc_args([P("(uint8,bytes)[]")], [[(9, b"zz")]])[:-1] + b"\x01", False),
    ("dec", ["(uint8,bytes)[]"], ref.enc_args([P("(uint8,bytes)[]")], [[(9, b"zz")]])[:-1] + b"\x01", True),
    ("dec", ["bytes"], ref.enc_args([P("bytes")], [b"mn"])[:-1] + b"\x01", False),
    ("dec", ["bytes"], ref.enc_args([P("bytes")], [b"mn"])[:-1] + b"\x01", True),
    ("dec", ["string", "fixed16x2"], ref.enc_args([P("string"), P("fixed16x2")], ["text", -5]), True),
    ("enc", ["string", "fixed16x2"], ["\u20ac", 3]),
    ("pack", ["(uint8,bytes)[]"], [[(3, b"pp")]]),
    ("isenc", ["(uint8,bytes)[]"], [[(3, b"pp")]]),
    ("isenc", ["(uint8,bytes)[]"], [[(3, "pp")]]),
    ("istype", ["(uint8,bytes)[]"]),
    ("enc", ["string[2][]"], [[["a", "b"], ["c" * 33, ""]]]),
    ("dec", ["string[2][]"], ref.enc_args([P("string[2][]")], [[["one", "two"]]]), True),
    ("dec", ["uint256[]", "address"], ref.enc_args([P("uint256[]"), P("address")], [[1, 2, 3], "0x" + "11" * 20]), True),
    ("refuse", ["nope"], "enc", [1]),
    ("refuse", ["(uint8,bytes)[]", "nope"], "dec", bytes(96)),
    ("refuse", ["uint7"], "dec", bytes(32)),
]
PAIRS = [
    (0, 1), (0, 2), (0, 3), (3, 3), (3, 4), (5, 4), (6, 7), (7, 6), (3, 5), (8, 9), (10, 0), (11, 0), (0, 11), (12, 11), (13, 3), (14, 14), (14, 15), (15, 3), (4, 3), (16, 3), (3, 0), (1, 0), (9, 8), (10, 10), (8, 8), (17, 0), (18, 3), (19, 3), (0, 17),
]


def enum(tier, seed):
    for i, (a, b) in enumerate(PAIRS):
        for fresh in (True, False):
            for lane in range(4):
                yield ("pair", a, b, fresh, lane)


def run_enum(case, rec):
    if case[0] == "one":
        return run_random(case[1:], rec)
    _, a, b, fresh, lane = case
    threads = [[OPS[a]], [OPS[b]]]
    # every place to preempt the first call once (cold: one step in 3, offset by the seed)
    step = 4 * (3 if fresh else 1)
    k = lane * (3 if fresh else 1)
    while True:
        with narrow(("one", threads, fresh, [(k, 0)])):
            s = run_schedule(threads, fresh, [(k, 0)], rec)
        rec.more(1)
        if s.quanta or s.left >= 0:
            break  # the first call ended before the preemption
        rec.nontrivial(a, b, fresh, k)
        k += step * thinner()
        if k > 6000:
            break


# ------------------------------------------------------------------ after a failure

FAILS = [
    ("refuse", ["nope"], "enc", [1]), ("refuse", ["nope"], "dec", bytes(32)), ("refuse", ["nope"], "pack", [1]),
    ("refuse", ["uint7"], "enc", [1]), ("refuse", ["uint7"], "dec", bytes(32)), ("refuse", ["uint7"], "pack", [1]),
    ("refuse", ["(uint8"], "enc", [1]), ("refuse", ["(uint8"], "dec", bytes(32)), ("refuse", ["(uint8"], "pack", [1]),
    ("refuse", ["(uint8,nope[2])[]"], "enc", [[]]), ("refuse", ["(uint8,nope[2])[]"], "dec", bytes(64)), ("refuse", ["(uint8,nope[2])[]"], "pack", [[]]),
    ("refuse", ["uint8", "bytes33"], "enc", [1, b""]), ("refuse", ["uint8", "bytes33"], "dec", bytes(64)), ("refuse", ["uint8", "bytes33"], "pack", [1, b""]),
    ("notype", ["nope"]), ("notype", ["uint7"]), ("notype", ["(uint8"]), ("notype", ["(uint8,nope[2])[]"]),
    ("enc", ["(uint8,bytes)[]"], [[(256, b"")]]), ("enc", ["string"], [b"x"]), ("enc", ["uint8", "bool"], [1, 2]),
    ("pack", ["(uint8,bytes)[]"], [[(3, "pp")]]), ("pack", ["string"], [b"x"]), ("isenc", ["(uint8,bytes)[]"], [[(3, "pp")]]),
    ("dec", ["(uint8,bytes)[]"], bytes(31) + b"\x20" + bytes(31) + b"\x01", True), ("dec", ["string"], bytes(31) + b"\x20" + bytes(31) + b"\x01" + b"\xff" + bytes(31), True),
    ("dec", ["bool"], bytes(31) + b"\x02", True), ("dec", ["uint8", "bytes"], bytes(5), False),
]
AFTER = [0, 3, 8, 9, 10, 11, 13, 14]


def after_enum(tier, seed):
    for i in range(len(FAILS)):
        for fresh in (True, False):
            yield ("after", i, fresh)


def run_after(case, rec):
    """A call that fails leaves nothing behind that stops the threads that come later: the
    thread whose call failed lives on while they run."""
    _, i, fresh = case
    codec = make_codec(fresh)
    bad = FAILS[i]
    judge(bad, do(bad, codec), rec, "")
    for j, a in enumerate(AFTER + [None]):
        ops = [OPS[a]] if a is not None else [bad]
        outs = []

        def later():
            for op in ops:
                outs.append(do(op, codec))

        t = threading.Thread(target=later, daemon=True)
        t.start()
        t.join(30)
        rec.more(1)
        if t.is_alive():
            fail("%s in another thread does not finish after %s failed in this one", ops[0][:2], bad)
        for op, out in zip(ops, outs):
            judge(op, out, rec, "after %s failed in another thread: " % (bad[:3],))
        rec.nontrivial("after", i, fresh, j)
    rec.label("after-failure")


# ------------------------------------------------------------------ crowds

CROWD_OPS = [0, 3, 4, 10, 12]


def crowd_types(n):
    """n type lists that have little in common."""
    out = []
    els = sweeps.el_types(1)
    for i in range(n):
        e = els[(i * 37) % len(els)]
        out.append([e] if i % 3 else ["%s[%d]" % (e, i % 7 + 1)] if i % 2 else ["(%s,uint8)" % e])
    return out


CROWD = {}


def crowd(n):
    if n not in CROWD:
        ops = []
        for i, ts in enumerate(crowd_types(n)):
            vals = [sweeps.fill(P(t), sweeps.Picker(i), sweeps.Lens([1])) for t in ts]
            ops.append(("enc", ts, vals))
            ops.append(("dec", ts, ref.enc_args([P(t) for t in ts], vals), i % 2 == 0))
        CROWD[n] = ops
    return CROWD[n]


def crowd_enum(tier, seed):
    for a in CROWD_OPS:
        for warm in (True, False):
            for lane in range(4):
                yield ("crowd", a, warm, lane, 260 if tier == "quick" else 1100)


def run_crowd(case, rec):
    """One call is preempted, at every place, by a thread that codes hundreds of other
    types: whatever is cached for the first call may be gone when it goes on."""
    if case[0] == "crowd-at":
        return crowd_at(*case[1:], rec)
    _, a, warm, lane, n = case
    wide = (9 if warm else 31) if n < 1000 else 2
    k = lane
    while k < 6000:
        with narrow(("crowd-at", a, warm, k, n)):
            s = crowd_at(a, warm, k, n, rec)
        rec.more(1)
        if s.quanta or s.left >= 0:
            break
        rec.nontrivial("crowd", a, warm, k)
        rec.label("crowd")
        k += (4 if k < 40 else 4 * wide) * thinner()


def crowd_at(a, warm, k, n, rec):
    codec = make_codec(True)
    op = OPS[a]
    if warm:
        do(op, codec)
    outs = [[], []]
    others = crowd(n)

    def first():
        outs[0].append(do(op, codec))

    def second():
        for o in others:
            outs[1].append(do(o, codec))

    s = Sched(core.REPO + "/", [first, second], [(k, 0)], whole=(1,))
    try:
        s.run(limit=120)
    except Deadlock:
        fail("the threads do not finish: %s and %d other calls", op, str(len(others)))
    if s.stalls:
        WAITS[0] += s.stalls
        rec.label("stalls", s.stalls)
    where = "preempted after %d lines by a thread that codes %d types: " % (k, n)
    judge(op, outs[0][0], rec, where)
    for i, (o, out) in enumerate(zip(others, outs[1])):
        if not out.ok or i % 29 == k % 29:
            judge(o, out, rec, "while another thread is inside %s: " % (op[:2],))
    again = do(op, codec)
    judge(op, again, rec, "after " + where)
    return s


@composite
def case(draw):
    els = [draw(gen.S(SHARED)) for _ in range(draw(gen.I(1, 2)))]
    pool = []
    for _ in range(draw(gen.I(1, 2))):
        ts = []
        for _ in range(draw(gen.I(1, 2))):
            w = draw(gen.S(WRAP)).replace("#", str(draw(gen.I(1, 4))))
            ts.append(w.replace("%s", els[draw(gen.I(0, len(els) - 1))]))
        pool.append(ts)
    threads = []
    for _ in range(draw(gen.S(NT))):
        ops = []
        for _ in range(draw(gen.I(1, 3))):
            ts = pool[draw(gen.I(0, len(pool) - 1))]
            k = draw(gen.I(0, 8))
            if k <= 1:
                ops.append(("enc", ts, [gen.draw_value(draw, P(t), False, False, [6]) for t in ts]))
            elif k == 2:
                ops.append(("enc", ts, [gen.draw_any(draw, P(t), 4) for t in ts]))
            elif k == 3:
                ops.append(("pack", ts, [gen.draw_any(draw, P(t), 1) for t in ts]))
            elif k == 4:
                ops.append(("isenc", ts, [gen.draw_any(draw, P(t), 1) for t in ts]))
            else:
                data, kind = _payload(draw, ts, kinds=DEC_KINDS)
                ops.append(("dec", ts, data, draw(gen.I(0, 1)) == 0))
        threads.append(ops)
    mode = draw(gen.I(0, 3))
    if mode == 0:  # fine-grained alternation
        q = draw(gen.I(1, 9))
        quanta = [(draw(gen.I(0, q)), draw(gen.I(0, 1))) for _ in range(120)]
    else:
        quanta = [(draw(gen.I(0, [30, 200, 900][mode - 1])), draw(gen.I(0, 1))) for _ in range(draw(gen.I(1, 6)))]
    return threads, draw(gen.I(0, 1)) == 1, quanta


NT = [2, 2, 2, 3]


@composite
def storm_case(draw):
    threads, fresh, _ = draw(case())
    return threads, fresh


def run_storm(case, rec):
    """Free-running threads, switching as often as the interpreter allows."""
    threads, fresh = case
    for ops in threads:
        for op in ops:
            if op[0] == "dec" and not expect.is_budget_ok(op[1], op[2], op[3], 1000):
                raise core.Skip()
    codec = make_codec(fresh)
    n = len(threads)
    outs = [[] for _ in range(2 * n)]
    gate = threading.Barrier(2 * n)

    def body(i):
        gate.wait()
        for op in threads[i % n]:
            outs[i].append(do(op, codec))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(2 * n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    for i in range(2 * n):
        if len(outs[i]) != len(threads[i % n]):
            fail("a thread did not finish: %s", threads[i % n])
        for op, out in zip(threads[i % n], outs[i]):
            judge(op, out, rec, "with other threads (free-running): ")
    rec.nontrivial()
    rec.label("storm")


def parts(tier):
    return [
        Part("one-preemption", run_enum, enum=enum),
        Part("after-failure", run_after, enum=after_enum),
        Part("crowd", run_crowd, enum=crowd_enum),
        Part("random", run_random, cases=case(), n=(3000, 60000), size=700),
        Part("storm", run_storm, cases=storm_case(), n=(800, 20000), size=700),
    ]
