"""Hash-consed abstract values: linear forms, string ropes, aggregates and references."""

_tab = {}
_n = 0


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    global _n
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n += 1
        t.id = _n
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, tuple) else "(" + ",".join(show(x, d) for x in t) + ")"
    if d > 7:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "lin":
        r = []
        for x, c in a[1]:
            r.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + s(x))
        if a[0]:
            r.append(str(a[0]))
        return "(" + " + ".join(r) + ")"
    if o == "lit":
        return repr(a[0].decode("utf-8", "backslashreplace"))
    if o == "rope":
        return "«" + "·".join(s(x) for x in a) + "»"
    if o == "sub":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "sr":
        return "&" + s(a[0])
    if o == "sym":
        return "%" + str(a[0])
    if o == "ev":
        return "!%s" % (a[0],)
    if o == "w":
        return "~%s" % (a[0],)
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), "" if a[1] < 0 else "<%d>" % a[1], a[2])
    if o == "deref":
        return "*" + s(a[0])
    if o == "le":
        return s(a[0]) + "<=0"
    if o == "eq":
        return s(a[0]) + "==0"
    if o == "agg":
        return "{t%s#%s %s}" % (a[0], a[1], ", ".join(s(x) for x in a[2]))
    if o == "ref":
        return "&%s%s" % (s(a[0]), "".join("." + s(p) for p in a[1]))
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[2:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ---- integers and linear forms -------------------------------------------------------------

def INT(n):
    return mk("int", int(n))


ZERO, ONE = INT(0), INT(1)
TRUE, FALSE = ONE, ZERO


def lin_parts(t):
    if t.op == "int":
        return (), t.a[0]
    if t.op == "lin":
        return t.a[1], t.a[0]
    return ((t, 1),), 0


def lin_make(d, c):
    items = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))
    if not items:
        return INT(c)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    return mk("lin", c, items)


def add(x, y, ky=1):
    ax, cx = lin_parts(x)
    ay, cy = lin_parts(y)
    d = dict(ax)
    for t, k in ay:
        d[t] = d.get(t, 0) + k * ky
    return lin_make(d, cx + ky * cy)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    ax, cx = lin_parts(x)
    return lin_make({t: c * k for t, c in ax}, cx * k)


def addc(x, n):
    return add(x, INT(n))


def is_int(t, n=None):
    return t.op == "int" and (n is None or t.a[0] == n)


# ---- literals (boolean terms) --------------------------------------------------------------

def LE0(l):
    if l.op == "int":
        return TRUE if l.a[0] <= 0 else FALSE
    items, c = lin_parts(l)
    from math import gcd
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        # sum(k x) + c <= 0  <=>  sum(k/g x) + ceil(c/g) <= 0 over the integers
        l = lin_make({x: k // g for x, k in items}, -((-c) // g))
    return mk("le", l)


def EQ0(l):
    if l.op == "int":
        return TRUE if l.a[0] == 0 else FALSE
    items, c = lin_parts(l)
    if items[0][1] < 0:
        l = scale(l, -1)
    return mk("eq", l)


def LE(a, b):
    return LE0(sub(a, b))


def LT(a, b):
    return LE0(addc(sub(a, b), 1))


def EQ(a, b):
    return EQ0(sub(a, b))


def NOT(b):
    if b.op == "int":
        return INT(1 - (b.a[0] & 1))
    if b.op == "not":
        return b.a[0]
    if b.op == "le":
        return LE0(addc(scale(b.a[0], -1), 1))
    return mk("not", b)


# ---- ropes ---------------------------------------------------------------------------------

def lit(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    return mk("lit", b)


def rope(*segs):
    out = []
    for s in segs:
        if s.op == "lit":
            if not s.a[0]:
                continue
            if out and out[-1].op == "lit":
                out[-1] = lit(out[-1].a[0] + s.a[0])
                continue
        elif s.op == "sub":
            if s.a[1] is s.a[2]:
                continue
            if s.a[0].op == "lit" and s.a[1].op == "int" and s.a[2].op == "int":
                l = lit(s.a[0].a[0][s.a[1].a[0]:s.a[2].a[0]])
                if out and out[-1].op == "lit":
                    out[-1] = lit(out[-1].a[0] + l.a[0])
                elif l.a[0]:
                    out.append(l)
                continue
            if out and out[-1].op == "sub" and out[-1].a[0] is s.a[0] and out[-1].a[2] is s.a[1]:
                out[-1] = mk("sub", s.a[0], out[-1].a[1], s.a[2])
                continue
        out.append(s)
    return mk("rope", *out)


EMPTY = rope()


def cat(*ropes):
    segs = []
    for r in ropes:
        segs.extend(r.a)
    return rope(*segs)


def rlit(b):
    return rope(lit(b))


def baselen(b):
    if b.op == "lit":
        return INT(len(b.a[0]))
    if b.op == "rope":
        return rope_len(b)
    return mk("len", b)


def whole(b):
    """The rope that is the entire string `b`."""
    if b.op == "rope":
        return b
    if b.op == "lit":
        return rope(b)
    return rope(mk("sub", b, ZERO, baselen(b)))


def seg_len(s):
    if s.op == "lit":
        return INT(len(s.a[0]))
    if s.op == "sub":
        return sub(s.a[2], s.a[1])
    if s.op == "chr":
        return len8(s.a[0])
    if s.op == "bytev":
        return ONE
    if s.op == "rep":
        return scale(s.a[1], len(s.a[0])) if isinstance(s.a[0], bytes) else mk("len", s)
    return mk("len", s)


def rope_len(r):
    n = ZERO
    for s in r.a:
        n = add(n, seg_len(s))
    return n


def len8(c):
    if c.op == "int":
        return INT(len(chr(c.a[0]).encode("utf-8", "surrogatepass")))
    return mk("len8", c)


def rope_lit(r):
    """The literal bytes of a fully known rope, else None."""
    if not r.a:
        return b""
    if len(r.a) == 1 and r.a[0].op == "lit":
        return r.a[0].a[0]
    return None


def atoms(t, acc=None):
    """Every sub-term of `t` (including itself)."""
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        for x in t:
            atoms(x, acc)
    elif isinstance(t, T) and t not in acc:
        acc.add(t)
        for x in t.a:
            if isinstance(x, (T, tuple)):
                atoms(x, acc)
    return acc
