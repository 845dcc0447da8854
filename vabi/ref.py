"""Reference semantics of the Solidity contract ABI, written from the specification.

* ``domain(t, v)``   is v in the Python-side domain of t? -> set of fault tags
* ``canon(t, v)``    canonical Python form of an in-domain value
* ``enc(t, v)``      body encoding of v;  ``enc_args`` head/tail encoding of a list
* ``layout(types, vals)``  encoding plus a map of every byte's role
* ``packed(t, v)``   packed encoding
* ``decode(types, data, strict)``  reference decoder with a step budget
"""
from collections.abc import Sequence
import decimal
from decimal import Decimal
from fractions import Fraction

from .abit import Arr, El, Tup, dynamic, head_words

HEX = frozenset("0123456789abcdefABCDEF")

# fault tags
TYPE = "type"  # EncodingTypeError
BOUNDS = "bounds"  # ValueOutOfBounds
ILLEGAL = "illegal"  # IllegalValue (its subclass ValueOutOfBounds included)
AMBIG = "ambiguous"  # the documentation leaves it open whether it is accepted
NEGRES = "negative-residue"  # known finding: see known_findings.txt


def listlike(v):
    return isinstance(v, Sequence) and not isinstance(v, (str, bytes, bytearray))


def addr_bytes(v):
    """20 bytes of an accepted address spelling, else None."""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v) if len(v) == 20 else None
    if isinstance(v, str):
        h = v[2:] if v[:2] in ("0x", "0X") else v
        if len(h) == 40 and all(c in HEX for c in h):
            return bytes.fromhex(h)
    return None


def scaled(v, n):
    """v * 10**n as an exact Fraction (v int or finite Decimal), or None if the
    exponent is too large to expand."""
    if isinstance(v, Decimal):
        sign, digits, exp = v.as_tuple()
        if not any(digits):
            return Fraction(0)
        k = 0
        for d in digits:
            k = k * 10 + d
        e = exp + n
        if e > 400 or e < -20000:
            return None
        k = -k if sign else k
        return Fraction(k * 10**e) if e >= 0 else Fraction(k, 10**-e)
    return Fraction(int(v) * 10**n)


def fixed_faults(base, m, n, v):
    if isinstance(v, bool):
        return {AMBIG}
    if isinstance(v, Decimal):
        if not v.is_finite():
            return {ILLEGAL}
    elif not isinstance(v, int):
        return {TYPE}
    s = scaled(v, n)
    faults = set()
    if s is None:
        # the exponent is too extreme to expand; such values come with few digits, so
        # they are either astronomically large or smaller than any representable step
        sign, digits, exp = v.as_tuple()
        assert len(digits) < 10000
        if exp > 0:
            return {BOUNDS}
        if sign:
            return {BOUNDS, ILLEGAL} if base == "ufixed" else {NEGRES}
        return {ILLEGAL}
    lo, hi = int_bounds(base == "fixed", m)
    if s < lo or s > hi:
        faults.add(BOUNDS)
    if s.denominator != 1:
        faults.add(ILLEGAL if s > 0 or base == "ufixed" else NEGRES)
    return faults


def int_bounds(signed, m):
    if signed:
        return -(1 << (m - 1)), (1 << (m - 1)) - 1
    return 0, (1 << m) - 1


def domain(t, v):
    """Set of faults of v as a value of t (empty: in the domain)."""
    if t.kind == "arr":
        if not listlike(v):
            return {TYPE}
        faults = set()
        if t.size is not None and len(v) != t.size:
            faults.add(BOUNDS)
        for x in v:
            faults |= domain(t.item, x)
        return faults
    if t.kind == "tup":
        if not listlike(v):
            return {TYPE}
        faults = set()
        if len(v) != len(t.items):
            faults.add(BOUNDS)
        for c, x in zip(t.items, v):
            faults |= domain(c, x)
        return faults
    base, sub = t.canon
    if base in ("int", "uint"):
        if isinstance(v, bool) or not isinstance(v, int):
            return {TYPE}
        lo, hi = int_bounds(base == "int", sub)
        return set() if lo <= v <= hi else {BOUNDS}
    if base == "bool":
        return set() if isinstance(v, bool) else {TYPE}
    if base == "address":
        return set() if addr_bytes(v) is not None else {TYPE}
    if base == "bytes":
        if not isinstance(v, (bytes, bytearray)):
            return {TYPE}
        if sub is not None and len(v) > sub:
            return {BOUNDS}
        return set()
    if base == "string":
        if not isinstance(v, str):
            return {TYPE}
        return {ILLEGAL} if any(0xD800 <= ord(c) <= 0xDFFF for c in v) else set()
    if base in ("fixed", "ufixed"):
        return fixed_faults(base, sub[0], sub[1], v)
    raise AssertionError(t)




_W999 = decimal.Context(prec=999, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])


def unscale(k, n):
    """Exact Decimal k * 10**-n."""
    return Decimal((1 if k < 0 else 0, tuple(map(int, str(abs(k)))), -n))


def canon(t, v):
    """The Python value that decoding yields for in-domain v."""
    if t.kind == "arr":
        return tuple(canon(t.item, x) for x in v)
    if t.kind == "tup":
        return tuple(canon(c, x) for c, x in zip(t.items, v))
    base, sub = t.canon
    if base in ("int", "uint"):
        return int(v)
    if base == "bool":
        return bool(v)
    if base == "address":
        return "0x" + addr_bytes(v).hex()
    if base == "bytes":
        b = bytes(v)
        return b if sub is None else b + bytes(sub - len(b))
    if base == "string":
        return str.__str__(v)
    s = scaled(v, sub[1])
    assert s.denominator == 1
    return unscale(s.numerator, sub[1])


def word(k):
    return (k % (1 << 256)).to_bytes(32, "big")


def pad(n):
    return -n % 32


def el_word(base, sub, v):
    if base in ("int", "uint"):
        return word(int(v))
    if base == "bool":
        return word(1 if v else 0)
    if base == "address":
        return bytes(12) + addr_bytes(v)
    if base == "bytes":
        b = bytes(v)
        return b + bytes(32 - len(b))
    return fixed_bytes(v, sub[1], 32)


def fixed_bytes(v, n, width):
    """width-byte two's complement of v*10**n.  A negative value with excess precision
    gives what eth-abi is known to give for it (see known_findings.txt)."""
    s = scaled(v, n)
    if s is not None and s.denominator == 1:
        return (s.numerator % (1 << 8 * width)).to_bytes(width, "big")
    # int(v * 10**n) computed with 999 digits
    k = int(_W999.multiply(v, Decimal((0, (1,), n))))
    if k == 0:
        return b"\xff" * (width - 1) + b"\x00"
    return (k % (1 << 8 * width)).to_bytes(width, "big")


def raw(base, v):
    return v.encode("utf-8") if base == "string" else bytes(v)


def enc(t, v):
    """Body encoding (what sits at the place an offset leads to, or in the head)."""
    if t.kind == "el":
        base, sub = t.canon
        if dynamic(t):
            b = raw(base, v)
            return word(len(b)) + b + bytes(pad(len(b)))
        return el_word(base, sub, v)
    if t.kind == "arr":
        body = enc_args([t.item] * len(v), v)
        return body if t.size is not None else word(len(v)) + body
    return enc_args(t.items, v)


def enc_args(types, vals):
    head_len = 32 * sum(head_words(t) for t in types)
    heads, tails, off = [], [], head_len
    for t, v in zip(types, vals):
        e = enc(t, v)
        if dynamic(t):
            heads.append(word(off))
            tails.append(e)
            off += len(e)
        else:
            heads.append(e)
    return b"".join(heads + tails)


class Region:
    """A run of bytes of an encoding with one role.

    role: 'value' value bits (any change gives another valid value of the type),
          'pad' (must be zero), 'sign' (must repeat the sign), 'bool' (the bool byte),
          'ptr' (offset word), 'len' (byte-string length), 'count' (array length),
          'data' (bytes/string data), 'datapad' (padding of bytes/string).
    """

    __slots__ = ("start", "end", "role", "info")

    def __init__(self, start, end, role, info=None):
        self.start, self.end, self.role, self.info = start, end, role, info


def layout(types, vals):
    """(encoding, [Region...]) of the argument list."""
    out = []
    regions = []

    def args(types, vals, base_off):
        """Lays out a head/tail block whose frame starts at base_off."""
        head_len = 32 * sum(head_words(t) for t in types)
        h = base_off
        tail = base_off + head_len
        blocks = []
        for t, v in zip(types, vals):
            if dynamic(t):
                blocks.append((h, word(tail - base_off)))
                regions.append(
                    Region(
                        h,
                        h + 32,
                        "ptr",
                        {"frame": base_off, "head_end": base_off + head_len},
                    )
                )
                h += 32
                b, n = body(t, v, tail)
                blocks.extend(b)
                tail += n
            else:
                b, n = body(t, v, h)
                blocks.extend(b)
                h += n
        return blocks, tail - base_off

    def body(t, v, at):
        if t.kind == "tup":
            return args(t.items, v, at)
        if t.kind == "arr":
            if t.size is not None:
                return args([t.item] * len(v), v, at)
            regions.append(Region(at, at + 32, "count", {"n": len(v)}))
            b, n = args([t.item] * len(v), v, at + 32)
            return [(at, word(len(v)))] + b, n + 32
        base, sub = t.canon
        if dynamic(t):
            data = raw(base, v)
            regions.append(Region(at, at + 32, "len", {"n": len(data)}))
            if data:
                regions.append(
                    Region(at + 32, at + 32 + len(data), "data", {"base": base})
                )
            p = pad(len(data))
            if p:
                regions.append(
                    Region(at + 32 + len(data), at + 32 + len(data) + p, "datapad")
                )
            e = word(len(data)) + data + bytes(p)
            return [(at, e)], len(e)
        w = el_word(base, sub, v)
        if base == "bytes":
            regions.append(Region(at, at + sub, "value", {"base": base}))
            if sub < 32:
                regions.append(Region(at + sub, at + 32, "pad"))
        elif base == "bool":
            regions.append(Region(at, at + 31, "pad"))
            regions.append(Region(at + 31, at + 32, "bool"))
        else:
            width = 20 if base == "address" else (sub[0] if isinstance(sub, tuple) else sub) // 8
            signed = base in ("int", "fixed")
            if width < 32:
                regions.append(Region(at, at + 32 - width, "sign" if signed else "pad"))
            regions.append(Region(at + 32 - width, at + 32, "value", {"base": base}))
        return [(at, w)], 32

    blocks, n = args(types, vals, 0)
    buf = bytearray(n)
    for at, b in blocks:
        buf[at:at + len(b)] = b
    regions.sort(key=lambda r: r.start)
    return bytes(buf), regions


def packed(t, v):
    if t.kind == "arr":
        return b"".join(packed(t.item, x) for x in v)
    if t.kind == "tup":
        return b"".join(packed(c, x) for c, x in zip(t.items, v))
    base, sub = t.canon
    if base in ("int", "uint"):
        return (int(v) % (1 << sub)).to_bytes(sub // 8, "big")
    if base == "bool":
        return b"\x01" if v else b"\x00"
    if base == "address":
        return addr_bytes(v)
    if base == "bytes":
        b = bytes(v)
        return b if sub is None else b + bytes(sub - len(b))
    if base == "string":
        return v.encode("utf-8")
    return fixed_bytes(v, sub[1], sub[0] // 8)


# --------------------------------------------------------------------------- decoder


class Reject(Exception):
    """The payload is malformed; kind in {'short', 'pointer', 'padding'}."""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class Budget(Exception):
    """Reference decoding exceeded its step budget (aliasing bombs); skip the case."""


class BadText:
    """Placeholder for string data that is not UTF-8."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return "BadText(%r)" % (self.data,)

    def __eq__(self, other):
        return isinstance(other, BadText) and self.data == other.data

    __hash__ = None


class Decoded:
    __slots__ = ("value", "bad_text", "steps", "bytes_read")


def decode(types, data, strict=True, budget=20000, raw_text=False):
    """Reference decoding.  Returns Decoded or raises Reject/Budget.

    ``bad_text`` is True if some string was not UTF-8 (value holds BadText there).
    With raw_text, strings come back as BadText(bytes) always.
    """
    data = bytes(data)
    total = len(data)
    state = {"steps": 0, "bad": False, "bytes": 0}

    def step(n=1):
        state["steps"] += n
        if state["steps"] > budget:
            raise Budget()

    def rd_word(at):
        step()
        if at + 32 > total:
            raise Reject("short")
        return data[at:at + 32]

    def rd_uint(at):
        return int.from_bytes(rd_word(at), "big")

    def args(ts, frame):
        """ts: list of types laid out at frame; returns tuple of values."""
        head_end = frame + 32 * sum(head_words(t) for t in ts)
        # pointers are validated before anything is followed
        at = frame
        ptrs = []
        for t in ts:
            if dynamic(t):
                off = rd_uint(at)
                ptrs.append(frame + off)
                at += 32
            else:
                at += 32 * head_words(t)
        for p in ptrs:
            if p < head_end or p >= total:
                raise Reject("pointer")
        vals = []
        at = frame
        i = 0
        for t in ts:
            if dynamic(t):
                vals.append(body(t, ptrs[i]))
                i += 1
                at += 32
            else:
                vals.append(body(t, at))
                at += 32 * head_words(t)
        return tuple(vals)

    def items(t, n, frame):
        w = head_words(t)
        # an announced count larger than the data can hold fails by running off the end
        if frame + 32 * w * n > total:
            raise Reject("short")
        step(n)
        return args([t] * n, frame)

    def body(t, at):
        if t.kind == "tup":
            return args(t.items, at)
        if t.kind == "arr":
            if t.size is not None:
                return items(t.item, t.size, at)
            n = rd_uint(at)
            return items(t.item, n, at + 32)
        base, sub = t.canon
        if dynamic(t):
            n = rd_uint(at)
            if at + 32 + n > total:
                raise Reject("short")
            step(n // 32)
            if strict:
                if at + 32 + n + pad(n) > total:
                    raise Reject("short")
                if any(data[at + 32 + n:at + 32 + n + pad(n)]):
                    raise Reject("padding")
            b = data[at + 32:at + 32 + n]
            state["bytes"] += n
            if base == "bytes":
                return b
            if raw_text:
                return BadText(b)
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                state["bad"] = True
                return BadText(b)
        w = rd_word(at)
        if base == "bytes":
            if any(w[sub:]):
                raise Reject("padding")
            return w[:sub]
        if base == "bool":
            if any(w[:31]) or w[31] > 1:
                raise Reject("padding")
            return w[31] == 1
        if base == "address":
            if any(w[:12]):
                raise Reject("padding")
            return "0x" + w[12:].hex()
        m = sub[0] if isinstance(sub, tuple) else sub
        k = int.from_bytes(w, "big")
        if base in ("int", "fixed"):
            if k >= 1 << 255:
                k -= 1 << 256
            lo, hi = int_bounds(True, m)
        else:
            lo, hi = int_bounds(False, m)
        if not lo <= k <= hi:
            raise Reject("padding")
        return k if base in ("int", "uint") else unscale(k, sub[1])

    d = Decoded()
    d.value = args(list(types), 0)
    d.bad_text = state["bad"]
    d.steps = state["steps"]
    d.bytes_read = state["bytes"]
    return d


def same(a, b):
    """Exact equality including Python types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Decimal):
        if not (a.is_finite() and b.is_finite()):
            return False
        return Fraction(a) == Fraction(b)
    return a == b
