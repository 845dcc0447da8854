"""Runner: parts of a check, workers, recording, shrinking, evidence, replay."""
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks always run against /repo; the override is only for trying planted bugs in copies
REPO = os.environ.get("VABI_DEV_REPO", "/repo")
NWORKERS = 8

LEVELS = {"C06": "fault_enumeration"}


class Violation(Exception):
    """The property is broken by the case being run."""


class narrow:
    """with narrow(subcase): a violation inside is reported with the smaller subcase
    (a case the same part can run) instead of the batch it belongs to."""

    def __init__(self, case):
        self.case = case

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if ev is not None and not hasattr(ev, "subcase"):
            try:
                ev.subcase = self.case
            except Exception:
                pass
        return False


class Skip(Exception):
    """The case is outside the domain (counted, neither pass nor fail)."""


class Part:
    """One generated-input search.

    cases: a vabi.src Spec (or a Hypothesis strategy) for random parts, or None
    size:  bytes of randomness per case for Specs
    enum:  a zero-argument callable giving an iterable of cases (sweep) or None
    run:   callable(case, rec) raising Violation
    n:     (quick, thorough) number of random cases over all workers, or for sweeps a
           pair of strides/limits ignored
    """

    def __init__(self, name, run, cases=None, enum=None, n=(0, 0), size=400):
        self.name, self.run, self.cases, self.enum, self.n = name, run, cases, enum, n
        self.size = size


class Recorder:
    listed = frozenset()  # keys of the known findings of the property

    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self._nt = False
        self._ntcases = {}
        self._case = None
        self._part = None

    def begin(self, part, case):
        self._part, self._case, self._nt = part, case, False
        self.evaluations += 1

    def nontrivial(self, *key):
        """Marks the current case non-trivial; key distinguishes cases."""
        if key:
            h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8)
        else:
            from .data import dumps

            h = hashlib.blake2b(dumps(self._case).encode(), digest_size=8)
        h.update(self._part.encode())
        d = h.hexdigest()
        if d not in self.keys:
            self.keys.add(d)
            self._nt = True

    def more(self, n):
        """The current case stands for 1 + n executions."""
        self.evaluations += n

    def hit(self, key, message):
        """The case shows a known finding; a violation unless the finding is listed."""
        if key not in self.listed:
            raise Violation(message)
        self.known[key] = self.known.get(key, 0) + 1

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def end(self):
        if self._nt:
            n = self._ntcases[self._part] = self._ntcases.get(self._part, 0) + 1
            # keep a spread of samples: 1st, 4th, 16th, ...
            if n & (n - 1) == 0 and n != 2 and len(self.samples) < 40:
                from .data import short

                self.samples.append({"part": self._part, "case": short(self._case)})


class _StopShrink(KeyboardInterrupt):
    pass


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def setup_import():
    """Puts /repo first on the path and checks that the code really comes from there."""
    import importlib.machinery as m

    class Fresh(m.SourceFileLoader):
        # always compiles the source: never trusts bytecode left in /repo
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    def hook(path):
        if path != REPO and not path.startswith(REPO + "/"):
            raise ImportError
        return m.FileFinder(path, (Fresh, [".py"]))

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    import eth_abi

    f = os.path.abspath(eth_abi.__file__)
    if not f.startswith(REPO + "/"):
        raise RuntimeError("eth_abi imported from %s, not from %s" % (f, REPO))
    return eth_abi


def load(prop):
    Recorder.listed = frozenset(k for k, _ in known_findings(prop))
    return importlib.import_module("vabi.checks.%s" % prop.lower())


class Failed(str):
    def __new__(cls, msg, exc):
        self = str.__new__(cls, msg)
        self.subcase = getattr(exc, "subcase", None)
        return self


def run_case(part, case, rec):
    """Runs one case; returns None or a message (a Failed str, with .subcase)."""
    rec.begin(part.name, case)
    try:
        part.run(case, rec)
    except Violation as e:
        return Failed(str(e), e)
    except Skip:
        rec.skipped += 1
    except Exception as e:
        # an exception out of the code under test that the check does not expect (checks
        # catch the ones they judge) is a violation; one of the harness itself is not
        if isinstance(e, (MemoryError, KeyboardInterrupt)) or type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if tb and any(f.filename.startswith(REPO + "/") for f in tb):
            return Failed("unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:300], "".join(traceback.format_list(tb[-4:]))), e)
        raise
    rec.end()
    return None


def run_random(part, count, seed, rec, deadline, shrink_s):
    """Hypothesis-driven part.  Returns None or a failure dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as hs
    from .data import dumps
    from .src import Spec, Src, shrink

    structured = isinstance(part.cases, Spec)
    strategy = hs.binary(min_size=part.size, max_size=part.size) if structured else part.cases
    st = {"best": None, "first": None, "cut": 0}

    def note(case, raw, msg):
        enc = dumps(case)
        if st["best"] is None or len(enc) <= len(st["best"][1]):
            st["best"] = (raw, enc, msg)

    @hypothesis.seed(seed)
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate,) if structured else (Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(strategy)
    def test(raw):
        now = time.monotonic()
        if st["first"] is not None:
            if structured or now - st["first"] > shrink_s:
                raise _StopShrink()
        elif now > deadline:
            st["cut"] += 1
            return
        case = part.cases.get(Src(raw)) if structured else raw
        msg = run_case(part, case, rec)
        if msg is not None:
            if st["first"] is None:
                st["first"] = now
            note(case, raw, msg)
            raise Violation(msg)

    try:
        test()
    except _StopShrink:
        pass
    except Violation:
        pass
    except Exception:
        if st["best"] is None:
            raise
    if st["cut"]:
        rec.label("cut-by-deadline:" + part.name, st["cut"])
    if st["best"] is None:
        return None
    if structured:
        scratch = Recorder()

        def fails(raw):
            case = part.cases.get(Src(raw))
            msg = run_case(part, case, scratch)
            if msg is not None:
                note(case, raw, msg)
            return msg is not None

        shrink(st["best"][0], fails, time.monotonic() + shrink_s, time.monotonic)
    _, enc, msg = st["best"]
    return {"part": part.name, "case": json.loads(enc), "message": msg}


def run_enum(part, index, nworkers, tier, seed, rec, deadline):
    from .data import dumps

    cut = False
    for i, case in enumerate(part.enum(tier, seed)):
        if i % nworkers != index:
            continue
        if time.monotonic() > deadline:
            cut = True
            break
        msg = run_case(part, case, rec)
        if msg is not None:
            if msg.subcase is not None:
                alone = run_case(part, msg.subcase, Recorder())
                if alone is not None:
                    case, msg = msg.subcase, alone
            return {"part": part.name, "case": json.loads(dumps(case)), "message": msg}
    if cut:
        rec.label("cut-by-deadline:" + part.name)
    return None


def worker(prop, tier, seed, index, nworkers, out):
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_SOFT_S", "300" if tier == "quick" else "3000"))
    deadline = t0 + budget
    result = {"index": index, "failure": None, "error": None}
    rec = Recorder()
    try:
        setup_import()
        mod = load(prop)
        if hasattr(mod, "prepare"):
            mod.prepare(tier, seed)
        parts = mod.parts(tier)
        times = {}
        for part in parts:
            p0 = time.monotonic()
            if part.enum is not None:
                f = run_enum(part, index, nworkers, tier, seed, rec, deadline)
            else:
                total = part.n[0 if tier == "quick" else 1]
                share = total // nworkers + (1 if index < total % nworkers else 0)
                if share == 0:
                    continue
                s = derive(seed, prop, part.name, index)
                random.seed(s)
                f = run_random(
                    part, share, s, rec, deadline, 20 if tier == "quick" else 120
                )
            times[part.name] = round(time.monotonic() - p0, 2)
            if f is not None:
                f["worker"] = index
                f["nworkers"] = nworkers
                result["failure"] = f
                break
        result["times"] = times
    except BaseException:
        result["error"] = traceback.format_exc()
    result.update(
        evaluations=rec.evaluations,
        skipped=rec.skipped,
        keys=sorted(rec.keys),
        labels=rec.labels,
        samples=rec.samples,
        known=rec.known,
        wall=time.monotonic() - t0,
    )
    with open(out, "w") as f:
        json.dump(result, f)


def known_findings(prop):
    """[(key, text)] listed as known (not fixed) for the property."""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            rest = line.split(" ", 2)[2]
            key, text = rest.split(" ", 1)
            res.append((key.strip("[]"), text))
    return res


def spawn(args, env, **kw):
    return subprocess.Popen([sys.executable, "-m", "vabi.main"] + args, cwd=ROOT, env=env, **kw)


def main_check(prop, tier, seed):
    t0 = time.monotonic()
    mod_level = LEVELS.get(prop, "exploration")
    evdir = os.path.join(ROOT, "evidence")
    rpdir = os.path.join(evdir, "replays")
    os.makedirs(rpdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vabi_")
    env = dict(os.environ)
    hard = 780 if tier == "quick" else 4 * 3600
    try:
        procs = []
        for i in range(NWORKERS):
            out = os.path.join(tmp, "w%d.json" % i)
            log = open(os.path.join(tmp, "w%d.log" % i), "wb")
            e = dict(env)
            e["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hyp%d" % i)
            procs.append(
                (spawn(["--worker", prop, tier, str(seed), str(i), str(NWORKERS), out], e,
                       stdout=log, stderr=log), out, log)
            )
        results, errors = [], []
        # wait; once one worker has a failure the others get a short grace period
        pending = set(range(NWORKERS))
        grace = None
        while pending:
            for i in list(pending):
                p, out, log = procs[i]
                if p.poll() is not None:
                    pending.discard(i)
                    log.close()
                    try:
                        r = json.load(open(out))
                    except Exception:
                        tail = open(log.name, errors="replace").read()[-1500:]
                        errors.append("worker %d ended with %s: %s" % (i, p.returncode, tail))
                        continue
                    results.append(r)
                    if r["failure"] is not None and grace is None:
                        grace = time.monotonic() + 8
                    if r["error"]:
                        errors.append("worker %d: %s" % (i, r["error"]))
            now = time.monotonic()
            if (grace is not None and now > grace) or now - t0 > hard:
                for i in list(pending):
                    procs[i][0].kill()
                    procs[i][0].wait()
                    if grace is None:
                        errors.append("worker %d: killed after %ds" % (i, hard))
                    pending.discard(i)
            if pending:
                time.sleep(0.05)
        return report(prop, tier, seed, mod_level, results, errors, t0, evdir, rpdir, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, tier, seed, level, results, errors, t0, evdir, rpdir, env):
    failures = [r["failure"] for r in results if r["failure"] is not None]
    keys = set()
    labels, samples, known = {}, [], {}
    evals = skipped = 0
    for r in results:
        keys.update(r["keys"])
        evals += r["evaluations"]
        skipped += r["skipped"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    results.sort(key=lambda r: r["index"])
    seen_parts = {}
    for r in results:
        for s in r["samples"]:
            if seen_parts.setdefault(s["part"], 0) < 4 and len(samples) < 40:
                seen_parts[s["part"]] += 1
                samples.append(s)
    code, lines = 0, []
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        f = failures[0]
        digest = hashlib.sha256(json.dumps(f["case"]).encode()).hexdigest()[:12]
        path = os.path.join(rpdir, "%s-%s.json" % (prop, digest))
        f = dict(f, property=prop, seed=seed, tier=tier)
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        rr = subprocess.run(
            [sys.executable, "-m", "vabi.main", prop, "--replay", path],
            cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
        )
        f["reproduced_alone"] = rr.returncode == 1
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        code = 1
        lines.append("%s part %s: %s" % (prop, f["part"], f["message"][:2000]))
        lines.append("case: %s" % json.dumps(f["case"])[:1500])
        if not f["reproduced_alone"]:
            lines.append("(depends on what ran before in the process: replay re-runs the whole search of worker %d)" % f["worker"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors:
        code = 2
        for e in errors[:3]:
            lines.append("HARNESS ERROR: " + (e if len(e) < 1500 else e[:300] + "\n...\n" + e[-1200:]))
    mod = sys.modules.get("vabi.checks.%s" % prop.lower())
    rule = ""
    try:
        import ast

        src = open(os.path.join(ROOT, "vabi", "checks", prop.lower() + ".py")).read()
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
                rule = ast.literal_eval(node.value)
    except Exception:
        pass
    if code != 2 or results:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(keys),
                "rule": rule,
                "samples": samples,
                "outside_domain": skipped,
                "classes": dict(sorted(labels.items())),
                "known_finding_hits": known,
                "part_seconds": {k: max(r.get("times", {}).get(k, 0) for r in results)
                                 for k in sorted({k for r in results for k in r.get("times", {})})},
                "workers": len(results),
            },
            "assumptions": ["the reference semantics in vabi/ref.py and vabi/abit.py, written from the Solidity ABI specification and the eth-abi documentation"],
            "wall_s": round(time.monotonic() - t0, 2),
            "violations": len(failures),
        }
        with open(os.path.join(evdir, prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for key, text in known_findings(prop):
        if code == 0 or known.get(key):
            print("KNOWN-FINDING: property=%s [%s] %s (hit %d times in this run)" % (prop, key, text, known.get(key, 0)))
    for line in lines:
        print(line)
    if code == 0:
        print("%s %s: held on %d cases (%d distinct non-trivial) in %.1fs" % (prop, tier, evals, len(keys), time.monotonic() - t0))
    sys.stdout.flush()
    return code


def main_replay(prop, path):
    f = json.load(open(path))
    from .data import from_json

    setup_import()
    mod = load(prop)
    tier, seed = f.get("tier", "quick"), f.get("seed", 1)
    if hasattr(mod, "prepare"):
        mod.prepare(tier, seed)
    parts = {p.name: p for p in mod.parts(tier)}
    part = parts[f["part"]]
    rec = Recorder()
    msg = run_case(part, from_json(f["case"]), rec)
    if msg is None and f.get("reproduced_alone") is False:
        # a history-dependent failure: repeat the worker's whole search
        tmp = tempfile.mkdtemp(prefix="vabi_")
        try:
            out = os.path.join(tmp, "w.json")
            e = dict(os.environ, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"))
            spawn(["--worker", prop, tier, str(seed), str(f["worker"]), str(f["nworkers"]), out], e).wait()
            r = json.load(open(out))
            if r["failure"]:
                msg = r["failure"]["message"]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if msg is None:
        print("%s: the case in %s does not violate the property" % (prop, path))
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
