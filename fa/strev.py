"""Concrete evaluation of symbolic terms over strings: given values for the unknown strings and numbers of a path, says
what each condition of the path and each rope is.  Used to confirm a suspected violation with an input that reaches it."""
import unicodedata

from . import witness
from .terms import *

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
Unknown = witness.Unknown


CHARS = {"is_control": lambda c: unicodedata.category(c) == "Cc", "is_whitespace": lambda c: c in WS, "is_ascii": lambda c: ord(c) < 128,
         "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_alphabetic": lambda c: c.isalpha(),
         "is_ascii_alphabetic": lambda c: ord(c) < 128 and c.isalpha(), "is_ascii_digit": lambda c: c in "0123456789", "is_ascii_graphic": lambda c: 33 <= ord(c) <= 126,
         "is_ascii_punctuation": lambda c: 33 <= ord(c) <= 126 and not c.isalnum(), "is_ascii_alphanumeric": lambda c: ord(c) < 128 and c.isalnum()}


def columns(c):
    """Columns of a character whose width is beyond doubt; None for control characters."""
    if unicodedata.category(c) == "Cc":
        return None
    if 32 <= ord(c) < 127 or c in "\u00e9\u0153":
        return 1
    if c == "\u0301":
        return 0
    if 0x4e00 <= ord(c) < 0x9fff:
        return 2
    raise Unknown()


def text(b):
    try:
        return b.decode()
    except UnicodeDecodeError:
        raise Unknown()


def sev(t, env, E=None):
    """bytes of a rope or of the base of a segment."""
    if isinstance(t, bytes):
        return t
    if not isinstance(t, T):
        raise Unknown()
    if t in env:
        v = env[t]
        if isinstance(v, bytes):
            return v
        raise Unknown()
    o, a = t.op, t.a
    if o == "rope":
        return b"".join(sev(x, env, E) for x in a)
    if o == "lit":
        return a[0]
    if o == "sub":
        b = sev(a[0], env, E)
        lo, hi = iev(a[1], env, E), iev(a[2], env, E)
        if not 0 <= lo <= hi <= len(b):
            raise Unknown()
        return b[lo:hi]
    if o == "chr":
        return chr(iev(a[0], env, E)).encode()
    if o == "bytev":
        return bytes([iev(a[0], env, E)])
    if o == "rep":
        return sev(a[0], env, E) * iev(a[1], env, E)
    if o == "sr":
        return sev(a[0], env, E)
    if o == "app":
        f = a[0]
        if f in ("trim", "trim_start", "trim_end"):
            s = text(sev(a[2], env, E))
            return {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[f](WS).encode()
        if f in ("trim_matches", "trim_start_matches", "trim_end_matches"):
            s, q = sev(a[2], env, E), sev(a[3], env, E)
            if not q:
                raise Unknown()
            while f != "trim_start_matches" and s.endswith(q):
                s = s[:-len(q)]
            while f != "trim_end_matches" and s.startswith(q):
                s = s[len(q):]
            return s
        if f in ("trim_ascii", "trim_ascii_start", "trim_ascii_end"):
            s = sev(a[2], env, E)
            return {"trim_ascii": s.strip, "trim_ascii_start": s.lstrip, "trim_ascii_end": s.rstrip}[f](b" \t\n\r\x0c")
        if f in ("to_lowercase", "to_uppercase"):
            s = text(sev(a[2], env, E))
            return (s.lower() if f == "to_lowercase" else s.upper()).encode()
        if f in ("to_ascii_lowercase", "to_ascii_uppercase"):
            s = sev(a[2], env, E)
            return s.lower() if f == "to_ascii_lowercase" else s.upper()
    raise Unknown()


def iev(t, env, E=None):
    """Integer (or truth) value of a term."""
    if not isinstance(t, T):
        raise Unknown()
    if t in env and not isinstance(env[t], bytes):
        return env[t]
    o, a = t.op, t.a
    if o == "int":
        return a[0]
    if o == "lin":
        return a[0] + sum(k * iev(x, env, E) for x, k in a[1])
    if o == "le":
        return int(iev(a[0], env, E) <= 0)
    if o == "eq":
        return int(iev(a[0], env, E) == 0)
    if o == "not":
        return int(not iev(a[0], env, E))
    if o == "or":
        return int(any(iev(x, env, E) for x in a))
    if o == "and":
        return int(all(iev(x, env, E) for x in a))
    if o == "len":
        return len(sev(a[0], env, E))
    if o == "len8":
        return len(chr(iev(a[0], env, E)).encode())
    if o == "discr" and isinstance(a[0], T) and a[0].op == "app" and a[0].a[0] == "cmp":
        x, y = iev(a[0].a[2], env, E), iev(a[0].a[3], env, E)
        return witness.ordering(a[0], x, y, E)
    if o == "same":
        return int(sev(a[0], env, E) == sev(a[1], env, E))
    if o == "byte":
        b, i = sev(a[0], env, E), iev(a[1], env, E)
        if not 0 <= i < len(b):
            raise Unknown()
        return b[i]
    if o == "bnd":
        b, i = sev(a[0], env, E), iev(a[1], env, E)
        return int(i == len(b) or 0 <= i < len(b) and b[i] & 0xc0 != 0x80)
    if o == "ch":
        b, i = sev(a[0], env, E), iev(a[1], env, E)
        if not 0 <= i < len(b) or b[i] & 0xc0 == 0x80:
            raise Unknown()
        if b[i] < 0x80:
            return b[i]
        return ord(text(b[i:i + (2 if b[i] < 0xe0 else 3 if b[i] < 0xf0 else 4)]))
    if o == "app":
        f = a[0]
        if f in ("starts_with", "ends_with", "contains"):
            x, y = sev(a[2], env, E), sev(a[3], env, E)
            return int({"starts_with": x.startswith, "ends_with": x.endswith, "contains": lambda z: z in x}[f](y))
        if f == "eq_ignore_ascii_case":
            return int(sev(a[2], env, E).lower() == sev(a[3], env, E).lower())
        if f in ("width", "nowidth"):
            w = columns(chr(iev(a[2], env, E)))
            if f == "nowidth":
                return int(w is None)
            if w is None:
                raise Unknown()
            return w
        if f in CHARS:
            return int(CHARS[f](chr(iev(a[2], env, E))))
        if f == "nchars":
            return len(text(sev(a[2], env, E)))
        if f == "is_empty":
            return int(not sev(a[2], env, E))
        if f == "byteof":
            b, i = sev(a[2], env, E), iev(a[3], env, E)
            if not 0 <= i < len(b):
                raise Unknown()
            return b[i]
    if o == "app" and len(a) > 2 and a[0] in witness.ARITH:
        return witness.ev(mk("app", a[0], a[1], *[INT(iev(x, env, E)) if isinstance(x, T) else x for x in a[2:]]), {}, E)
    return witness.ev(t, {k: v for k, v in env.items() if not isinstance(v, bytes)}, E)


def mentions(t, keys):
    """Does any part of the term occur among the keys?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            if x in keys:
                return True
            seen.add(x)
            todo.extend(x.a)
    return False


def consistent(st, env, E=None):
    """Does the assignment satisfy the path's conditions?  None when one that depends on an assigned unknown cannot be
    evaluated."""
    keys = set(env)
    res = True
    for t, test in witness.conditions(st):
        if not mentions(t, keys):
            continue
        try:
            if not test(iev(t, env, E)):
                return False
        except Unknown:
            res = None
    if st.alts:
        r = witness.groups(st, lambda x: consistent(x, env, E))
        if r is not True:
            return r
    return res
