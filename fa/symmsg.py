"""A message in its general valid state: one unknown text per part, and the table of offsets that goes with them."""
from .prog import *

PARTS6 = ["indent", "timestamp", "prefix", "message", "suffix", "newline"]
PARTS5 = ["indent", "prefix", "message", "suffix", "newline"]
MAX = 1 << 57


class Layout:
    """How the message type stores its text and offsets: the text field, and the path to the offset array."""

    def __init__(self, E, ty):
        self.ty = ty
        self.text, self.toc, self.n = None, None, None
        t = E.tyinfo(ty)
        if t is None or t.get("k") != "adt" or t.get("adt") != "struct" or not t.get("vars"):
            return
        for i, (name, fty) in enumerate(t["vars"][0][2]):
            f = E.tyinfo(fty) or {}
            if f.get("path") == "std::string::String":
                self.text = i
            else:
                p, x = [i], fty
                while (E.tyinfo(x) or {}).get("k") == "adt" and len(E.tyinfo(x)["vars"][0][2]) == 1:
                    x = E.tyinfo(x)["vars"][0][2][0][1]
                    p.append(0)
                a = E.tyinfo(x) or {}
                if a.get("k") == "array":
                    k = len(E.field_types(x, 0) or ())
                    if k and E.int_range(a["e"]) is not None:
                        self.toc, self.n, self.arr, self.aty = p, k - 1, x, fty

    @property
    def ok(self):
        return self.text is not None and self.toc is not None and self.n in (5, 6)

    @property
    def parts(self):
        return PARTS6 if self.n == 6 else PARTS5

    def wrap(self, E, ty, path, inner):
        if not path:
            return inner
        fty = E.tyinfo(ty)["vars"][0][2][path[0]][1]
        return mk("agg", ty, 0, (self.wrap(E, fty, path[1:], inner),))

    def build(self, E, texts):
        """texts: one rope per part."""
        offs, n = [INT(0)], ZERO
        for t in texts:
            n = add(n, rope_len(t))
            offs.append(n)
        toc = self.wrap(E, self.aty, self.toc[1:], mk("agg", self.arr, 0, tuple(offs)))
        fs = [None, None]
        fs[self.text], fs[self.toc[0]] = cat(*texts), toc
        return mk("agg", self.ty, 0, tuple(fs))

    def state(self, E, texts, base=None):
        """A state (a fresh one, or on top of base) that knows the texts fit in memory."""
        st = base.clone() if base is not None else State()
        total = ZERO
        for t in texts:
            E.assume(st, LE(ZERO, rope_len(t)), True)
            total = add(total, rope_len(t))
        E.assume(st, LE(total, INT(MAX)), True)
        return st

    def split(self, E, st, v):
        """(text rope, offsets) of a message value, or None."""
        if v.op != "agg" or len(v.a[2]) != 2:
            return None
        t = v.a[2][self.text]
        if t.op == "sr":
            t = t.a[0]
        if t.op != "rope":
            t = E.as_rope(st, t)
        o = v.a[2][self.toc[0]]
        for _ in self.toc[1:]:
            if o.op != "agg":
                return None
            o = o.a[2][0]
        if o.op != "agg" or len(o.a[2]) != self.n + 1 or t is None or t.op != "rope":
            return None
        return t, o.a[2]
