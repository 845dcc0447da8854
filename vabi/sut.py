"""The code under test, reached only through its public API, and outcome helpers."""
import re

import eth_abi
from eth_abi import codec, decoding, encoding, exceptions, grammar, packed, registry
from eth_abi.exceptions import (
    ABITypeError,
    DecodingError,
    EncodingError,
    EncodingTypeError,
    IllegalValue,
    InsufficientDataBytes,
    InvalidPointer,
    MultipleEntriesFound,
    NoEntriesFound,
    NonEmptyPaddingBytes,
    ParseError,
    ValueOutOfBounds,
)

from . import ref
from .core import Violation

encode = eth_abi.encode
decode = eth_abi.decode
encode_packed = packed.encode_packed
is_encodable = eth_abi.is_encodable
is_encodable_type = eth_abi.is_encodable_type
is_encodable_packed = packed.is_encodable_packed
is_encodable_type_packed = getattr(packed, "is_encodable_packed_type", None)


class Out:
    """Outcome of a call: ok with a value, or an exception."""

    __slots__ = ("ok", "value", "exc")

    def __repr__(self):
        if self.ok:
            return "returned %s" % cut(repr_(self.value))
        return "raised %s(%s)" % (type(self.exc).__name__, cut(str_(self.exc), 200))


def repr_(v):
    try:
        return repr(v)
    except Exception as e:
        return "<unrepresentable %s: %s>" % (type(v).__name__, type(e).__name__)


def str_(v):
    try:
        return str(v)
    except Exception:
        return "?"


def cut(s, n=400):
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def call(fn, *a, **k):
    o = Out()
    try:
        o.value = fn(*a, **k)
        o.ok, o.exc = True, None
    except Exception as e:
        o.ok, o.value, o.exc = False, None, e
        e.__traceback__ = None
    return o


def fail(fmt, *a):
    args = tuple(cut(x if isinstance(x, str) else repr_(x)) for x in a)
    try:
        msg = re.sub(r"%[-0-9.]*[dfx]", "%s", fmt) % args
    except Exception:  # a report must never be lost to its own formatting
        msg = " ".join((fmt,) + args)
    raise Violation(msg)


FAULT_CLASSES = {
    ref.TYPE: (EncodingTypeError,),
    ref.BOUNDS: (ValueOutOfBounds,),
    ref.ILLEGAL: (IllegalValue,),
    ref.NEGRES: (IllegalValue,),
    ref.AMBIG: (EncodingTypeError,),
}


def allowed_classes(faults):
    out = ()
    for f in faults:
        out += FAULT_CLASSES[f]
    return out
