"""Structured generation from a byte string.

Hypothesis draws one fixed-size byte string per case (its seeding, replay and
deduplication apply to it); a Src decodes it into structured choices, the way fuzzers'
data providers do.  Zero bytes and an exhausted source select the first (simplest)
alternative, so that shrinking the byte string shrinks the case.
"""


class Src:
    __slots__ = ("b", "p", "n")

    def __init__(self, b):
        self.b = b
        self.p = 0
        self.n = len(b)

    def i(self, lo, hi):
        """Integer in [lo, hi]."""
        r = hi - lo + 1
        if r <= 256:
            if r == 1 or self.p >= self.n:
                return lo
            v = self.b[self.p]
            self.p += 1
            return lo + v % r
        k = ((r - 1).bit_length() + 7) // 8
        v = int.from_bytes(self.b[self.p:self.p + k], "big")
        self.p += k
        if r & (r - 1):
            # one more byte makes the modulo nearly uniform
            if self.p < self.n:
                v = v << 8 | self.b[self.p]
            self.p += 1
        return lo + v % r

    def take(self, k):
        v = bytes(self.b[self.p:self.p + k])
        self.p += k
        return v + bytes(k - len(v))

    def draw(self, spec):
        return spec.get(self)


class Spec:
    def get(self, src):
        raise NotImplementedError

    def map(self, f):
        return Mapped(self, f)


class Mapped(Spec):
    def __init__(self, s, f):
        self.s, self.f = s, f

    def get(self, src):
        return self.f(self.s.get(src))


class Ints(Spec):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def get(self, src):
        return src.i(self.a, self.b)


class Sampled(Spec):
    __slots__ = ("seq", "m")

    def __init__(self, seq):
        self.seq, self.m = seq, len(seq) - 1

    def get(self, src):
        return self.seq[src.i(0, self.m)]


class Bin(Spec):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def get(self, src):
        return src.take(src.i(self.a, self.b))


class Lists(Spec):
    def __init__(self, item, a, b):
        self.item, self.a, self.b = item, a, b

    def get(self, src):
        return [self.item.get(src) for _ in range(src.i(self.a, self.b))]


class OneOf(Spec):
    def __init__(self, *specs):
        self.specs = specs

    def get(self, src):
        return self.specs[src.i(0, len(self.specs) - 1)].get(src)


class Just(Spec):
    def __init__(self, v):
        self.v = v

    def get(self, src):
        return self.v


class Composite(Spec):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def get(self, src):
        return self.f(src.draw, *self.a, **self.k)


def composite(f):
    def make(*a, **k):
        return Composite(f, a, k)

    make.__name__ = f.__name__
    return make


def shrink(data, fails, deadline, now):
    """Greedy byte-level minimisation: cut chunks, zero chunks, lower bytes.
    ``fails(bytes)`` tells whether the case still violates the property."""
    best = bytes(data).rstrip(b"\0")
    if not fails(best):
        best = bytes(data)
    changed = True
    while changed and now() < deadline:
        changed = False
        for size in (128, 64, 32, 16, 8, 4, 3, 2, 1):
            i = 0
            while i < len(best):
                if now() > deadline:
                    return best
                for cand in (best[:i] + best[i + size:], best[:i] + bytes(min(size, len(best) - i)) + best[i + size:]):
                    cand = cand.rstrip(b"\0")
                    if cand != best and (len(cand), cand) < (len(best), best) and fails(cand):
                        best, changed = cand, True
                        break
                else:
                    i += size
        for i in range(len(best)):
            if now() > deadline:
                return best
            if i >= len(best):
                break
            v = best[i]
            for w in (0, 1, 2, v // 2, v - 1):
                if 0 <= w < v:
                    cand = (best[:i] + bytes([w]) + best[i + 1:]).rstrip(b"\0")
                    if fails(cand):
                        best, changed = cand, True
                        break
    return best
