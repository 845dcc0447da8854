import json
import os
import random
import subprocess
import sys
import tempfile

from .. import gen
from ..abit import P
from ..core import Part, ROOT, Violation, derive, narrow
from ..src import Src, composite
from ..sut import fail

RULE = (
    "Cases are an interpreter mode (hash seed, -O, -OO, -X dev, warnings as errors, -bb, locale, integer "
    "digit limit, default decimal context set before the import, garbage collection at every "
    "allocation, tracing, another thread, a fork, other import and call orders) and a batch of "
    "generated calls; a fresh process runs the batch in that mode and its outcomes (values or error "
    "classes) must be those of a process in the default mode. Non-trivial: every call of a batch whose "
    "outcome is not an empty result; distinct by mode and call."
)

# name -> (flags, environment)
MODES = {
    "hash-1": ([], {"PYTHONHASHSEED": "1"}),
    "hash-2": ([], {"PYTHONHASHSEED": "2"}),
    "hash-77": ([], {"PYTHONHASHSEED": "77"}),
    "hash-4096": ([], {"PYTHONHASHSEED": "4096"}),
    "O": (["-O"], {}),
    "OO": (["-OO"], {"PYTHONHASHSEED": "3"}),
    "dev": (["-X", "dev"], {}),
    "bytes-warnings": (["-bb"], {}),
    "locale": (["-X", "utf8=0"], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0"}),
    "digits": (["-X", "int_max_str_digits=640"], {}),
    "warnings": ([], {}),
    "decimal-first": ([], {}),
    "gc": ([], {}),
    "tracing": ([], {}),
    "thread": ([], {}),
    "imports": ([], {}),
    "reversed": ([], {}),
    "fork": ([], {}),
}


@composite
def call(draw):
    k = draw(gen.I(0, 10))
    if k == 10:
        # numbers with more digits than some modes convert to text
        t = draw(gen.S(["uint8", "int256", "fixed8x1", "ufixed256x80", "uint8[]", "(bool,int16)", "bool", "bytes4", "address", "string"]))
        n = draw(gen.S([600, 650, 1000, 4200, 4400, 9000]))
        v = draw(gen.S([1, -1])) * 10**n + draw(gen.I(0, 9))
        v = [v] if t.endswith("[]") else (True, v) if t[0] == "(" else v
        return ("able", t, v) if draw(gen.I(0, 1)) else (draw(gen.S(["encode", "pack"])), [t], [v])
    if k <= 2:
        types, vals = draw(gen.typed_args(max_len=3, depth=3, big=False))
        return (["encode", "pack", "back"][k], types, vals)
    if k <= 4:
        types = draw(gen.type_list(max_len=2, min_len=1, depth=2))
        return (["encode", "pack"][k - 3], types, [gen.draw_any(draw, P(t), 1) for t in types])
    if k <= 6:
        types, data, _ = draw(gen.payload(depth=3))
        return ("decode", types, data, draw(gen.I(0, 1)) == 0)
    if k == 7:
        return ("type", gen.draw_typeish(draw))
    if k == 8:
        t = draw(gen.type_str(depth=2))
        return ("able", t, gen.draw_any(draw, P(t), 1))
    return ("able", gen.draw_typeish(draw), gen.draw_any(draw, P(draw(gen.type_str(depth=1))), 1))


def batch(seed, n):
    rng = random.Random(derive(seed, "c28"))
    spec = call()
    from .. import expect

    out = []
    while len(out) < n:
        c = spec.get(Src(rng.randbytes(400)))
        if c[0] == "decode" and not expect.is_budget_ok(c[1], c[2], c[3]):
            continue
        out.append(c)
    return out


def child(mode, calls):
    """Outcomes of the calls in a fresh process in the given mode."""
    from ..data import dumps

    flags, env = MODES.get(mode, ([], {}))
    e = dict(os.environ, **{"PYTHONHASHSEED": "0", **env})
    tmp = tempfile.mkdtemp(prefix="vabi_c28_")
    try:
        path = os.path.join(tmp, "calls.json")
        with open(path, "w") as f:
            f.write("[%s]" % ",\n".join(dumps(c) for c in calls))
        r = subprocess.run(
            [sys.executable] + flags + ["-m", "vabi.child", mode, path], cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
        )
        try:
            with open(path + ".out") as f:
                return json.load(f)
        except (OSError, ValueError):
            return "the process ended with %s: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[-600:])
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def text(c):
    try:
        return str(c)
    except ValueError:
        from ..data import dumps

        return dumps(c)


def compare(mode, calls, rec):
    want = child("default", calls)
    if isinstance(want, str):
        raise RuntimeError(want)
    got = child(mode, calls)
    if isinstance(got, str):
        fail("in mode %s the library does not load or run: %s", mode, got)
    for c, a, b in zip(calls, want, got):
        if a != b:
            e = Violation("in mode %s the call %s gives %s, in the default mode %s" % (mode, text(c)[:600], b[:300], a[:300]))
            e.subcase = ("calls", mode, [c])
            raise e
        if a != "''" and rec is not None:
            rec.nontrivial(mode, text(c))


def run(case, rec):
    kind, mode, x = case[:3]
    if kind == "calls":
        return compare(mode, [tuple(c) for c in x], rec)
    calls = batch(x, case[3])
    compare(mode, calls, rec)
    rec.more(len(calls) - 1)
    rec.label(mode, len(calls))


def enum(tier, seed):
    rounds, n = (1, 1200) if tier == "quick" else (12, 3000)
    for i in range(rounds):
        for mode in MODES:
            yield ("batch", mode, derive(seed, i, mode) % 2**32, n)


def parts(tier):
    return [Part("modes", run, enum=enum)]
