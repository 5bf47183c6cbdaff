"""Painted frames: the tick of the progress display, run exactly (every path, no merging) for a stream that takes
everything it is given, with the update requests fixed to each combination of interest.  A frame is the text written to
standard error on one path; its parts that were not rebuilt on that path are the fields of the frame buffer as they
were found.  Helpers count line breaks and columns of such texts symbolically."""
import re
from . import strev
from .prog import *
from .rules.p20 import the_tick

NL = 10


def combos(mask, thorough):
    bits = [1 << i for i in range(8) if mask >> i & 1]
    if thorough:
        out = {0}
        for b in bits:
            out |= {x | b for x in out}
        return sorted(out, key=lambda x: -bin(x).count("1"))
    return sorted({0, mask} | set(bits) | {a | b for a in bits for b in bits}, key=lambda x: -bin(x).count("1"))


class Tick:
    def __init__(self, cfg):
        self.cfg = cfg
        self.w = World(cfg, only=())
        self.ok = False
        if self.w.role is None:
            return
        t = the_tick(cfg, self.w)
        if t is None:
            return
        self.body, self.masks = t[1], t[2]
        self.mask = 0
        for m in self.masks:
            self.mask |= m
        self.mask &= ~self.w.bit & 0xff
        self.ok = True

    def run(self, flags, unroll=0):
        """(results, engine) of one tick with these update requests pending."""
        p = Prog(self.cfg, mergeat=100000, maxstates=60000)
        p.ideal = True
        p.fixed = {self.w.flags: self.w.bit | flags}
        b = p.P.bodies.get(self.body["key"], self.body)
        self.p = p
        self.force = None
        r, E = p.run(b, trace_if=lambda l: True, unroll=unroll)
        return r, E


def painted(E, s):
    """[(event, rope)] of what the path wrote to standard error."""
    out = []
    for e in s.events():
        if e.kind in ("write", "writev", "write_some") and e.args[0] == "stderr":
            out.append((e, content(E, s, e.args[1])))
    return out


def content(E, s, x):
    """The rope written; None when it is not a text known piece by piece."""
    if not isinstance(x, T):
        return None
    if x.op == "rope":
        return x
    if x.op == "sr":
        return x.a[0]
    if x.op == "slices":
        out = EMPTY
        for y in x.a:
            y = E.resimp(s, y)
            r = y.a[0] if y.op == "sr" else None
            if r is None or r.op != "rope":
                try:
                    r = E.as_rope(s, y)
                except Exception:
                    r = None
            if r is None or r.op != "rope":
                return None
            out = cat(out, r)
        return out
    return None


def pieces(E, s, rp):
    """Segments of a rope, with what is known by now applied."""
    rp = E.resimp(s, rp)
    return list(rp.a) if rp.op == "rope" else None


def looprecs(evs):
    for e in evs:
        if e.kind == "loop":
            yield e.args[0]


def leaves(v, path=(), d=0):
    """(path, integer or rope leaf) of a value."""
    if v.op == "agg" and d < 8:
        for i, x in enumerate(v.a[2]):
            yield from leaves(x, path + (i,), d + 1)
    elif v.op == "it":
        for i, x in enumerate(v.a[2:]):
            if isinstance(x, T) and x.op in ("int", "lin", "w"):
                yield path + (i,), x
    elif v.op == "rope" or v.op in ("int", "lin", "w"):
        yield path, v
    elif v.op in ("sr",) and v.a[0].op == "rope":
        yield path, v.a[0]


def at(v, path):
    for i in path:
        if v.op == "it" and i + 2 < len(v.a) and isinstance(v.a[i + 2], T):
            v = v.a[i + 2]
            continue
        if v.op != "agg" or i >= len(v.a[2]):
            return None
        v = v.a[2][i]
    return v.a[0] if v.op == "sr" else v


class Count:
    """Line breaks in ropes, as linear terms.  `base(E, s, b)` gives the count of a base that is a field of the frame
    buffer (or another text) as it was found; None when unknown."""

    def __init__(self, base):
        self.base = base
        self.loops = {}
        self.notes = set()

    def rope(self, E, s, rp):
        segs = pieces(E, s, rp)
        if segs is None:
            return None
        n = ZERO
        for g in segs:
            x = self.seg(E, s, g)
            if x is None:
                return None
            n = add(n, x)
        return n

    def seg(self, E, s, g):
        if g.op == "lit":
            return INT(g.a[0].count(b"\n"))
        if g.op in ("chr", "bytev"):
            x = E.resimp(s, g.a[0])
            if x.op == "int":
                return INT(int(x.a[0] == NL))
            return ZERO if E.decide(s, EQ(x, INT(NL))) is False else None
        if g.op == "rep":
            x = self.rope(E, s, g.a[0]) if g.a[0].op == "rope" else self.seg(E, s, g.a[0])
            return ZERO if x is ZERO else None
        if g.op == "sub":
            b, lo, hi = g.a
            if b.op == "lit":
                if NL not in b.a[0]:
                    return ZERO
                if lo.op == "int" and hi.op == "int":
                    return INT(b.a[0][lo.a[0]:hi.a[0]].count(b"\n"))
                return None
            if b.op == "app" and b.a[0] == "idx":
                t = table_of(E, s, b)
                return ZERO if t is not None and not any(b"\n" in x for x in t[0]) else None
            full = lo is ZERO and E.decide(s, EQ(hi, mk("len", b))) is True
            x = self.base(E, s, b)
            if x is ZERO:
                return ZERO
            if full and x is not None:
                return x
            if full and b.op == "w":
                return mk("sym", "nl", b)
            if lo is ZERO and self.clean(E, s, b, hi):
                return ZERO
        return None

    def clean(self, E, s, b, hi):
        """Is the text b free of line breaks before hi: did a loop walk from its start, one byte at a time, to hi, leaving
        when it met one?"""
        n = next((k for k in range(6) if E.decide(s, LE(hi, INT(k))) is True), None)
        if n is not None:
            return all(any(E.decide(s, EQ(mk(o, b, INT(i)), INT(NL))) is False for o in ("byte", "ch")) for i in range(n))
        for rec in looprecs(s.events()):
            for h in rec.heads:
                for root, v in h.mem.items():
                    for path, x in leaves(v):
                        if x.op != "w":
                            continue
                        if x is not hi and E.decide(s, EQ(x, hi)) is not True:
                            continue
                        if self.walks(E, rec, root, path, b):
                            return True
        return False

    def walks(self, E, rec, root, path, b):
        e0 = rec.entry.mem.get(root)
        x0 = at(e0, path) if e0 is not None else None
        if x0 is not ZERO:
            return False
        for h, back, _ in rec.backs:
            x, y = h.mem.get(root), back.mem.get(root)
            x, y = at(x, path) if x is not None else None, at(y, path) if y is not None else None
            if x is None or y is None or E.resimp(back, sub(y, x)) is not ONE:
                return False
            if not any(E.decide(back, EQ(t, INT(NL))) is False for t in (mk("byte", b, x), mk("ch", b, x))):
                return False
        return True

    def relations(self, E, s):
        """Facts `line breaks of a text built by a loop = a counter kept by the same loop + constant`: {base: term}"""
        out = {}
        for rec in looprecs(s.events()):
            if rec not in self.loops:
                self.loops[rec] = list(self.related(E, rec))
            for b, x in self.loops[rec]:
                out.setdefault(b, []).append(x)
        return out

    def related(self, E, rec):
        texts, ints = {}, {}
        for h in rec.heads:
            for root, v in h.mem.items():
                for path, x in leaves(v):
                    if x.op == "rope" and len(x.a) == 1 and x.a[0].op == "sub" and x.a[0].a[0].op == "w":
                        texts[(root, path)] = x.a[0].a[0]
                    elif x.op == "w":
                        ints[(root, path)] = x
        for (tr, tp), tb in texts.items():
            t0 = rec.entry.mem.get(tr)
            t0 = at(t0, tp) if t0 is not None else None
            n0 = self.rope(E, rec.entry, t0) if t0 is not None and t0.op == "rope" else None
            if n0 is None:
                continue
            steps = []
            for h, back, _ in rec.backs:
                v = back.mem.get(tr)
                v = at(v, tp) if v is not None else None
                n1 = self.rope(E, back, v) if v is not None and v.op == "rope" else None
                steps.append((h, back, None if n1 is None else sub(n1, mk("sym", "nl", tb))))
            if any(x is None for _, _, x in steps):
                continue
            if all(E.resimp(b, x) is ZERO for _, b, x in steps):
                yield tb, n0
                continue
            for (ir, ip), ib in ints.items():
                i0 = rec.entry.mem.get(ir)
                i0 = at(i0, ip) if i0 is not None else None
                if i0 is None:
                    continue
                good = True
                for h, back, x in steps:
                    v = back.mem.get(ir)
                    v = at(v, ip) if v is not None else None
                    if v is None or E.resimp(back, sub(sub(v, ib), x)) is not ZERO:
                        good = False
                        break
                if good:
                    yield tb, add(ib, sub(n0, i0))

    def value(self, E, s, n):
        """Candidates for a count once loop relations are used."""
        out = [n]
        rel = self.relations(E, s)
        for _ in range(3):
            new = []
            for x in out:
                for a in atoms(x):
                    if a.op == "sym" and a.a[0] == "nl" and a.a[1] in rel:
                        for y in rel[a.a[1]]:
                            new.append(subst(x, a, y))
            new = [E.resimp(s, x) for x in new]
            if not new or all(x in out for x in new):
                break
            out += [x for x in new if x not in out]
        return out


def subst(x, a, y):
    items, c = lin_parts(x)
    out = INT(c)
    for t, k in items:
        z = y if t is a else t
        for _ in range(abs(k)):
            out = add(out, z) if k > 0 else sub(out, z)
    return out


TAIL = re.compile(rb"\x1b\[0?m\r(?:\x1b\[(\d*)A)?$")
UP = re.compile(rb"\x1b\[(\d*)A")
MOVE = re.compile(rb"\x1b\[\d*[BEF]|\x1b\[[\d;]*[Hf]|\x1b[78DEM]")


def tail(E, s, rp):
    """How the frame ends: list of (condition literal or None, lines up or None when it does not end as it must)."""
    segs = pieces(E, s, rp)
    if not segs:
        return None
    g = segs[-1]
    if g.op == "lit":
        m = TAIL.search(g.a[0])
        if m:
            return [(None, INT(int(m.group(1) or 1)) if m.group(0).endswith(b"A") else ZERO)]
        m = re.match(rb"A$", g.a[0])
        if m and len(segs) > 2 and segs[-3].op == "lit" and segs[-3].a[0].endswith((b"\x1b[0m\r\x1b[", b"\x1b[m\r\x1b[")):
            n = number_of(E, s, segs[-2])
            return None if n is None else [(None, n)]
        return [(None, None)] if not re.search(rb"[A-Z]$", g.a[0]) or len(segs) == 1 else None
    if g.op == "sub" and g.a[1] is ZERO:
        b = g.a[0]
        if b.op in ("idx", "app") and table_of(E, s, b) is not None:
            tab, i = table_of(E, s, b)
            out = []
            for k, text in enumerate(tab):
                c = EQ(i, INT(k))
                if E.decide(s, c) is False:
                    continue
                m = TAIL.match(text)
                out.append((c, None if m is None else INT(int(m.group(1) or 1)) if text.endswith(b"A") else ZERO))
            return out
    return None


def number_of(E, s, g):
    """The number whose decimal form the segment is."""
    if g.op == "sub":
        b = g.a[0]
        if b.op == "app" and b.a[0] in ("nice", "dec", "display", "num") and len(b.a) > 2:
            return b.a[2]
    return None


def table_of(E, s, b):
    """(texts, index) of an element picked from a constant table."""
    if b.op != "idx" and not (b.op == "app" and b.a[0] == "idx"):
        return None
    arr, i = (b.a[0], b.a[1]) if b.op == "idx" else (b.a[2], b.a[3])
    if arr.op == "sr":
        return None
    if arr.op != "agg":
        return None
    out = []
    for x in arr.a[2]:
        r = x.a[0] if x.op == "sr" else None
        if r is None:
            try:
                r = E.as_rope(s, x)
            except Exception:
                return None
        t = rope_lit(r) if r is not None and r.op == "rope" else None
        if t is None:
            return None
        out.append(t)
    return out, i
