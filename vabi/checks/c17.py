import random
import warnings
from decimal import Decimal

import hypothesis
import hypothesis.errors
from hypothesis import HealthCheck, Phase, given, settings, target

from .. import expect, gen, ref, sut, sweeps
from ..abit import ALIAS_NAMES, ALL_BYTES, ALL_FIXED, ALL_INT, P, depth
from ..core import Part, Violation, derive
from ..src import Src
from ..sut import fail

RULE = (
    "Cases are a type string and a seed: Hypothesis draws values from the strategy that "
    "get_abi_strategy returns, and each drawn value is judged by the reference (domain, exact "
    "lengths, encoding, round trip). For representative types the draws are also searched for the "
    "extremes the type allows (minimum, maximum, empty, long, negative, fractional, both booleans, "
    "every byte position), with more draws and targeted search before a failure is reported. "
    "Non-trivial: the type is not a bare default-width one; distinct by type string."
)

get = None


def strategy_of(s):
    from eth_abi.tools import get_abi_strategy

    out = sut.call(get_abi_strategy, s)
    if not out.ok:
        fail("get_abi_strategy(%s) %s", s, out)
    return out.value


class Enough(Exception):
    pass


def draws(strategy, n, seed, fn, aim=None):
    """Feeds n drawn values to fn; aim(value) is a score to maximise."""

    @hypothesis.seed(seed)
    @settings(
        max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.target) if aim else (Phase.generate,),
        report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )
    @given(strategy)
    def go(v):
        fn(v)
        if aim:
            target(float(aim(v)))

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            go()
    except Enough:
        pass
    except hypothesis.errors.HypothesisException as e:
        fail("drawing from the strategy raised %s: %s", type(e).__name__, str(e))


def judge(s, v):
    faults = ref.domain(P(s), v)
    if faults:
        fail("the strategy for %s generated %s, which is not a value of the type (%s)", s, v, sorted(faults))
    out = sut.call(sut.encode, [s], [v])
    expect.judge_encode([s], [v], out, ctx="generated value: ")
    o = sut.call(sut.is_encodable, s, v)
    if not o.ok or o.value is not True:
        fail("is_encodable(%s, %s) %s for a generated value", s, v, o)
    back = sut.call(sut.decode, [s], out.value)
    if not back.ok or not ref.same(back.value, (ref.canon(P(s), v),)):
        fail("the value %s generated for %s decodes to %s", v, s, back)


def run_valid(case, rec):
    _, s, seed, n = case
    if depth(P(s)) or s not in ("uint256", "int256", "bool", "address", "bytes", "string"):
        rec.nontrivial(s)
    count = [0]

    def fn(v):
        count[0] += 1
        judge(s, v)

    draws(strategy_of(s), n, seed, fn)
    rec.more(count[0] - 1)
    rec.label("drawn", count[0])


def goals(s):
    return goals_of(P(s))


EASY = ("empty", "one item", "two or more items", "unequal items", "items that differ", "odd", "even", "True", "False", "non-empty", "ascii", "not ascii")


def goals_of(t, inner=False):
    """{name: (predicate, score)} of values that must be reachable; inside containers only
    those that a few hundred draws reach."""
    g = _goals(t)
    if inner:
        narrow = t.kind == "el" and t.canon[0] in ("int", "uint") and t.canon[1] == 8
        g = {k: v for k, v in g.items() if k in EASY or k.startswith(("item", "component", "an item")) or (narrow and k in ("maximum", "minimum"))}
    return g


def _goals(t):
    if t.kind == "arr":
        g = {}
        if t.size is None:
            g["empty"] = (lambda v: len(v) == 0, None)
            g["one item"] = (lambda v: len(v) == 1, None)
            g["two or more items"] = (lambda v: len(v) >= 2, len)
        if t.size is None or t.size > 1:
            g["items that differ"] = (lambda v: any(x != v[0] for x in v), None)
        if t.item.kind == "el" and t.item.canon[0] in ("int", "uint", "bool"):
            g["unequal items"] = (lambda v: len(set(v)) > 1, lambda v: len(set(v)))
        if t.size is None:
            for name, (p, f) in goals_of(t.item, inner=True).items():
                g["an item that is " + name] = (lambda v, p=p: any(map(p, v)), None)
        else:
            for i in {0, t.size - 1}:
                for name, (p, f) in goals_of(t.item, inner=True).items():
                    g["item %d %s" % (i, name)] = (lambda v, p=p, i=i: p(v[i]), f and (lambda v, f=f, i=i: f(v[i])))
        return g
    if t.kind == "tup":
        g = {}
        # equal types do not mean equal values
        by_type = {}
        for i, c in enumerate(t.items):
            by_type.setdefault(str(c), []).append(i)
        for name, at in by_type.items():
            if len(at) > 1:
                g["unequal components of type " + name] = (lambda v, at=at: any(v[i] != v[at[0]] for i in at), None)
                g["components %d and %d unequal" % (at[0], at[-1])] = (lambda v, at=at: v[at[0]] != v[at[-1]], None)
        for i, c in enumerate(t.items):
            for name, (p, f) in goals_of(c, inner=True).items():
                g["component %d %s" % (i, name)] = (lambda v, p=p, i=i: p(v[i]), f and (lambda v, f=f, i=i: f(v[i])))
        return g
    base, sub = t.canon
    if base in ("int", "uint"):
        lo, hi = ref.int_bounds(base == "int", sub)
        return {"maximum": (lambda v: v == hi, near(hi)), "minimum": (lambda v: v == lo, near(lo)), "odd": (lambda v: v % 2, None), "even": (lambda v: v % 2 == 0, None)}
    if base in ("fixed", "ufixed"):
        lo, hi = ref.int_bounds(base == "fixed", sub[0])
        n = sub[1]
        g = {"maximum": (lambda v: ref.scaled(v, n) == hi, lambda v: near(hi)(int(ref.scaled(v, n)))),
             "minimum": (lambda v: ref.scaled(v, n) == lo, lambda v: near(lo)(int(ref.scaled(v, n)))),
             "not a multiple of 10": (lambda v: ref.scaled(v, n) % 10, None)}
        if lo < 0:
            g["negative with fraction"] = (lambda v: v < 0 and v != int(v), None)
        return g
    if base == "bool":
        return {"True": (lambda v: v is True, None), "False": (lambda v: v is False, None)}
    if base == "bytes" and sub is not None:
        g = {}
        for i in range(sub):
            g["byte %d not zero" % i] = (lambda v, i=i: len(v) > i and v[i] != 0, None)
            g["byte %d over 127" % i] = (lambda v, i=i: len(v) > i and v[i] > 127, None)
        return g
    if base == "bytes":
        return {"empty": (lambda v: len(v) == 0, None), "non-empty": (lambda v: len(v) > 0, len), "longer than a word": (lambda v: len(v) > 32, len), "high byte": (lambda v: any(b > 127 for b in v), None), "length not a multiple of 32": (lambda v: len(v) % 32, None)}
    if base == "string":
        return {"empty": (lambda v: v == "", None), "non-empty": (lambda v: v != "", len), "several characters": (lambda v: len(v) > 3, len), "ascii": (lambda v: v and v.isascii(), None), "not ascii": (lambda v: not v.isascii(), None), "four-byte character": (lambda v: any(ord(c) > 0xFFFF for c in v), lambda v: max(map(ord, v), default=0))}
    if base == "address":
        return {"leading byte not zero": (lambda v: ref.addr_bytes(v)[0] != 0, None), "last byte not zero": (lambda v: ref.addr_bytes(v)[19] != 0, None)}
    return {}


def near(x):
    return lambda v: -float(abs(v - x).bit_length()) if abs(v - x) > 2**40 else -abs(v - x) / 2**40


def run_reach(case, rec):
    _, s, seed, n = case
    rec.nontrivial(s)
    strat = strategy_of(s)
    missing = dict(goals(s))
    count = [0]

    def fn(v):
        count[0] += 1
        for name in [k for k, (p, _) in missing.items() if p(v)]:
            del missing[name]
        if not missing:
            raise Enough

    for i, size in enumerate((400, 2000, 8000)):
        if missing:
            draws(strat, size, seed + i, fn)
    for name, (p, score) in list(missing.items()):
        if score is not None:
            draws(strat, 20000, seed + 7, fn, aim=score)
    rec.more(count[0])
    rec.label("reach-draws", count[0])
    if missing:
        fail("the strategy for %s never generated: %s (in %d draws)", s, ", ".join(sorted(missing)), str(count[0]))
    rec.label("goals", len(goals(s)))


def run(case, rec):
    (run_valid if case[0] == "valid" else run_reach)(case, rec)


def enum(tier, seed):
    quick = tier == "quick"
    sd = lambda *a: derive(seed, "c17", *a) % 2**40
    reach = (
        ALL_INT[::3] + ["int8", "int256", "uint8", "uint256"] + ["bytes1", "bytes2", "bytes20", "bytes31", "bytes32"] + ALIAS_NAMES
        + ["bool", "address", "bytes", "string"] + gen.FIXED_EL + ALL_FIXED[seed % 211::211]
        + ["uint8[]", "string[]", "bytes[][]", "bool[3]", "(uint8,bool)[]", "uint256[2][]", "int[]", "byte[]", "address[]"]
        + ["(uint8,bool,int8)", "(string,bytes)", "(uint8[],string[2])", "bool[2]", "uint8[3]", "int8[2][2]", "((bool,string),uint8[])", "(uint8,bytes)[2]", "bytes[2]", "string[][1]", "(bool)[][]", "(int,(uint8,(string)))", "uint8[][2]", "uint8[][][]"]
        + ["(%s,%s,%s)" % (e, e, e) for e in ("string", "address", "bool", "bytes", "uint8", "byte", "fixed", "int8[]", "(bool,bool)")] + ["(bool,string,bool,string)", "(string[2],string[2])"]
    )
    if not quick:
        reach += ALL_INT + ALL_BYTES + ALL_FIXED[::17]
    for s in reach:
        yield ("reach", s, sd("r", s), 0)
    for s in ALL_INT + ALL_BYTES + ["bool", "address", "bytes", "string"] + ALIAS_NAMES:
        yield ("valid", s, sd("v", s), 12 if quick else 200)
    for s in ALL_FIXED[seed % 4::4] if quick else ALL_FIXED:
        yield ("valid", s, sd("v", s), 8 if quick else 40)
    for e in ("uint8", "string", "bytes3", "fixed", "function", "bool", "address", "byte"):
        for tpl in sweeps.TEMPLATES:
            s = tpl.replace("T", e)
            yield ("valid", s, sd("v", s), 6 if quick else 40)
    for s in ["uint8[%d]" % k for k in (1, 5, 10, 11, 17, 32, 33, 64, 100)] + ["string[20]", "(bytes1,bool[9])[7]", "bool[256]", "bool[257]", "bool[1025]", "bool[1500]", "uint8[513]", "bytes1[300]", "bool[20][20]", "bool[600][2]", "(bool)[401]"]:
        yield ("valid", s, sd("v", s), 5)
    rng = random.Random(derive(seed, "c17"))
    spec = gen.type_str(depth=3)
    for i in range(1000 if quick else 6000):
        s = spec.get(Src(rng.randbytes(200)))
        yield ("valid", s, sd("x", i), 8 if quick else 20)


def parts(tier):
    return [Part("strategies", run, enum=enum)]
