"""Text with unknown parts: a private-use character stands for the text of an unknown number or for an unknown word.

Such a string is an ordinary Python string, so splitting, stripping, replacing and matching run as they are. This is exact
as long as nothing looks inside a part: its length, its characters, its place in an order. Those operations are rejected.
A number is written with one or more non-blank characters and read back as the same number; unknown words are non-empty,
without blanks and separators, and different from each other."""
from .values import SF, SInt, SStr, Unsupported, ctx

LO, HI = 0xE000, 0xF8FF
CLASS = f"{chr(LO)}-{chr(HI)}"


def is_tok(ch):
    return LO <= ord(ch) <= HI


def has(s):
    return isinstance(s, str) and not s.isascii() and any(map(is_tok, s))


def table():
    return ctx().ghost.get("tokens")


def enable():
    ctx().ghost["tokens"] = {}


def make(v):
    """the text of v (None: a new unknown word)"""
    t = table()
    if v is not None:
        for ch, x in t.items():
            if x is not None and type(x) is type(v) and x.t.eq(v.t):
                return ch
    ch = chr(LO + len(t))
    t[ch] = v
    return ch


def text(x, fs):
    """str(x) / format(x, fs) of an unknown number"""
    if fs:
        if isinstance(x, SF):
            return make(ctx().fresh_real("rounded"))
        raise Unsupported("format of an unknown number")
    if isinstance(x, SF) and not x.plain:
        raise Unsupported("text of a number that may not be finite")
    return make(x)


def number(s, kinds):
    """float(s) / int(s)"""
    s = s.strip()
    v = table().get(s)
    if len(s) != 1 or v is None or not isinstance(v, kinds):
        raise Unsupported("number in a text with unknown parts")
    return v


def equal(a, b):
    if a == b:
        return True
    if not a or not b:
        return False
    for x, y in ((a, b), (a[::-1], b[::-1])):
        p, q = next(((p, q) for p, q in zip(x, y) if p != q), ("", ""))
        if p and not is_tok(p) and not is_tok(q):
            return False
    if len(a) == len(b) == 1 and table().get(a, 0) is None and table().get(b, 0) is None:
        return False
    raise Unsupported("comparison of texts with unknown parts")


def cut(s, key):
    """s[key]: only characters before all unknown parts may be counted"""
    if isinstance(key, slice):
        if key.step not in (None, 1):
            raise Unsupported("text with unknown parts")
        for x in (key.start, key.stop):
            if x is None or x == 0:
                continue
            if x < 0:
                if any(map(is_tok, s[x:])) or -x > len(s):
                    raise Unsupported("position behind an unknown part of a text")
            elif any(map(is_tok, s[:x])):
                raise Unsupported("position behind an unknown part of a text")
        return s[key]
    if key >= 0 and not any(map(is_tok, s[: key + 1])) or key < 0 and not any(map(is_tok, s[key:])):
        return s[key]
    raise Unsupported("position behind an unknown part of a text")


def regex(p):
    """a pattern in which unknown numbers are digits"""
    q = p.replace("\\d+", f"[0-9{CLASS}]+")
    if "\\d" in q or "\\w" in q:
        raise Unsupported("pattern on a text with unknown parts")
    return q
