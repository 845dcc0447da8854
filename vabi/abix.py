"""Helpers over abit: tolerant classification of arbitrary text."""
from .abit import Bad, parse, valid


def classify(s):
    """'valid', 'wellformed' (grammatical, not an ABI type) or 'malformed'."""
    try:
        t = parse(s)
    except Bad:
        return "malformed", None
    return ("valid" if valid(t) else "wellformed"), t
