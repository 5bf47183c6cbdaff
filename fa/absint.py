"""Abstract interpreter over the dumped MIR.

Domain: hash-consed symbolic values (linear forms, string ropes, aggregates) with a conjunction of
linear inequalities, value ranges and boolean facts; states are partitioned by trace and by enum
variant.  Loops are solved by widening modified leaves to unknowns, with linear-equality invariants
obtained from the null space of the transition system and inductive inequality candidates.
A state reached through a widened loop or an unmodelled operation is marked `weak`.
"""
import itertools
import sys
from .terms import *
from . import lin

sys.setrecursionlimit(20000)
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1
MEM_MAX = 1 << 57      # no text is longer than the address space


class Stuck(Exception):
    pass


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.bodies = {b["key"]: b for b in dump["bodies"]}
        self.consts = {c["path"]: c for c in dump["consts"]}
        self.crate = dump["crate"]
        self.list = dump["bodies"]
        self._cfg = {}
        self._bystr = {}
        for i, t in enumerate(self.types):
            self._bystr.setdefault(t["s"], i)
        self.statics = {}
        for t in self.types:
            if t.get("path") == "std::cmp::Ordering":
                for v in t["vars"]:
                    if v[1] == 255:
                        v[1] = -1

    @classmethod
    def load(cls, config="all", crate="fyi_msg"):
        import json
        import os
        from . import build
        with open(os.path.join(build.dump(config), crate + ".json")) as f:
            return cls(json.load(f))

    def ty(self, s):
        return self._bystr.get(s)

    def find(self, pred):
        return [b for b in self.list if pred(b)]

    def by_path(self, *suffixes):
        """Local identity bodies whose path equals or ends with ::suffix."""
        return [b for b in self.list if b["identity"] and any(b["path"] == s or b["path"].endswith("::" + s) for s in suffixes)]

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = Cfg(self.bodies[key])
        return c


class Cfg:
    def __init__(self, body):
        self.body = body
        n = len(body["blocks"])
        self.succ = [self._succ(b["t"]) for b in body["blocks"]]
        order, seen = [], set()

        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in preds:
                    preds[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in self.rpo and self.rpo[s] <= self.rpo[b]:
                    if not self.dominates(s, b):
                        raise Stuck("irreducible control flow in %s" % body["path"])
                    blk = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in blk:
                            continue
                        blk.add(x)
                        work.extend(preds[x])
        self.loops = loops
        self._live()

    def _live(self):
        """Locals never borrowed, and those of them live at each block's start (dead ones are forgotten)."""
        body = self.body
        borrowed = {0}
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "raw"):
                    pl = s[2][2] if s[2][0] == "ref" else s[2][1]
                    if not any(p[0] == "d" for p in pl[1]):
                        borrowed.add(pl[0])
        self.tracked = [i for i in range(len(body["locals"])) if i not in borrowed]
        tr = set(self.tracked)
        use, dfn = [], []

        def place(pl, u):
            u.add(pl[0])
            for p in pl[1]:
                if p[0] == "i":
                    u.add(p[1])

        def oper(o, u):
            if o and o[0] in ("c", "m"):
                place(o[1], u)

        def rv(r, u):
            k = r[0]
            if k in ("use", "repeat"):
                oper(r[1], u)
            elif k == "ref":
                place(r[2], u)
            elif k in ("raw", "discr"):
                place(r[1], u)
            elif k == "cast":
                oper(r[2], u)
            elif k == "bin":
                oper(r[2], u)
                oper(r[3], u)
            elif k == "un":
                oper(r[2], u)
            elif k == "agg":
                for o in r[2]:
                    oper(o, u)

        for b in body["blocks"]:
            steps = []   # (uses, def)
            for s in b["s"]:
                u = set()
                d = None
                if s[0] == "=":
                    rv(s[2], u)
                    if s[1][1]:
                        place(s[1], u)
                    else:
                        d = s[1][0]
                elif s[0] == "sd":
                    place(s[1], u)
                elif s[0] == "dead":
                    d = s[1]
                steps.append((u, d))
            t = b["t"]
            u, d = set(), None
            if t[0] == "switch":
                oper(t[1], u)
            elif t[0] == "drop":
                place(t[1], u)
            elif t[0] == "call":
                oper(t[1], u)
                for o in t[2]:
                    oper(o, u)
                if t[3][1]:
                    place(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == "assert":
                for x in t[1:]:
                    if isinstance(x, list):
                        for o in ([x] if x and isinstance(x[0], str) else x):
                            if isinstance(o, list):
                                oper(o, u)
            steps.append((u, d))
            U, D = set(), set()
            for u, d in steps:
                U |= (u & tr) - D
                if d is not None:
                    D.add(d)
            use.append(U)
            dfn.append(D)
        n = len(body["blocks"])
        self.live = [set() for _ in range(n)]
        changed = True
        order = sorted(self.rpo, key=lambda x: -self.rpo[x])
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in self.succ[b]:
                    out |= self.live[s]
                new = use[b] | (out - dfn[b])
                if new != self.live[b]:
                    self.live[b] = new
                    changed = True

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            p = self.idom.get(b)
            if p is None or p == b:
                return False
            b = p

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[3]] + [t[4]]
        if k == "drop":
            return [x for x in (t[3], t[4]) if x is not None]
        if k == "call":
            return [x for x in (t[4], t[5]) if x is not None]
        if k == "assert":
            return [x for x in (t[5], t[6]) if x is not None]
        return []


class LoopRec:
    """One widened loop: its per-iteration sub-traces, invariants and heads."""

    def __init__(self, where):
        self.where = where
        self.backs = []
        self.first = []      # the precise first iterations that come back to the head (when loops are unrolled)
        self.heads = []
        self.entry = None


class State:
    __slots__ = ("mem", "lits", "ineq", "rng", "ne", "trace", "locks", "weak", "n", "wm", "alts")

    def __init__(self):
        self.mem = {}
        self.lits = {}
        self.ineq = ()
        self.rng = {}
        self.ne = {}
        self.trace = None
        self.locks = ()
        self.weak = None
        self.n = 0
        self.wm = 0
        self.alts = ()       # what was known before states were joined: one of each group's members holds

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.lits = dict(self.lits)
        s.ineq = self.ineq
        s.rng = dict(self.rng)
        s.ne = dict(self.ne)
        s.trace = self.trace
        s.locks = self.locks
        s.weak = self.weak
        s.n = self.n
        s.wm = self.wm
        s.alts = self.alts
        return s

    def events(self, stop=None):
        out = []
        t = self.trace
        while t is not None and t is not stop:
            out.append(t.a[1])
            t = t.a[0]
        out.reverse()
        return out

    def key(self):
        return (tuple(sorted((r.id, v.id) for r, v in self.mem.items())), self.trace.id if self.trace else 0, self.locks)


class Snap:
    """The facts of a state before it was joined with another."""
    __slots__ = ("lits", "ineq", "rng", "ne", "alts", "size")

    def __init__(self, s):
        self.lits, self.ineq, self.rng, self.ne, self.alts = dict(s.lits), s.ineq, dict(s.rng), dict(s.ne), s.alts
        self.size = 1 + sum(x.size for g in s.alts for x in g)

    def same(self, o):
        return self.lits == o.lits and self.ineq == o.ineq and self.rng == o.rng and self.ne == o.ne and self.alts == o.alts


class Frame:
    __slots__ = ("fid", "body", "key", "cfg", "depth", "loc", "parent")


class Event:
    """(kind, args, loc)"""
    __slots__ = ("kind", "args", "loc", "stack")

    def __init__(self, kind, args, loc, stack):
        self.kind, self.args, self.loc, self.stack = kind, args, loc, stack

    def __repr__(self):
        return "%s%r@%s:%s" % (self.kind, self.args, self.loc[0], self.loc[1])


class Engine:
    def __init__(self, prog, models, unroll=0, trace_if=None, overrides=None, unwind=False, maxstates=4000, mergeat=None):
        self.p = prog
        self.types = prog.types
        self.models = models
        self.unroll = unroll
        self.track = False
        self.track = False       # record which fields of locked data are written
        self.fixed = None        # {atomic: value} to read instead of an unknown
        self.trace_if = trace_if
        self.overrides = overrides or {}
        self.unwind = unwind
        self.maxstates = maxstates
        self.mergeat = mergeat
        self.n = 0          # frames and widening symbols: unique in the whole run
        self.ctr = 0        # fresh names: unique along each path (see State.n)
        self.keep = None    # event filter: (kind, args) -> bool
        self.slim = None    # event rewriting: (kind, args) -> args or None
        self.canon_loops = False
        self._dividing = set()
        self.rawev = {}
        self.summaries = None   # callee outcome cache (event-order runs only)
        self.panics = []
        self.unmodelled = {}
        self.fns = []
        self.fnidx = {}
        self.evkeys = {}
        self.visited = set()
        self.steps = 0
        self.maxsteps = 3000000
        self.precise_only = False
        self.static_mem = {}

    # ---- fresh names ----
    def fresh(self, ty, what="ev"):
        self.ctr += 1
        return mk("ev", self.ctr, ty, what)

    def wsym(self, ty, what):
        self.n += 1
        return mk("w", self.n, ty, what)

    # ---- types ----
    def tyinfo(self, i):
        return self.types[i] if isinstance(i, int) else None

    def int_range(self, ty):
        """(lo, hi) for integer-like types, else None."""
        t = self.tyinfo(ty)
        if t is None:
            return None
        k = t.get("k")
        if k == "uint":
            return (0, (1 << t["bits"]) - 1)
        if k == "int":
            return (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        if k == "pat":
            return self.int_range(t["e"])
        if k == "adt" and t["path"].endswith("NonZero"):
            a = t["args"][0]
            r = self.int_range(a) if isinstance(a, int) else None
            if r:
                return (1, r[1]) if r[0] == 0 else r
        return None

    def typeof(self, t):
        o = t.op
        if o == "sym" or o == "ev" or o == "w" or o == "deref" or o == "app":
            return t.a[1]
        if o == "fld":
            return t.a[3]
        if o == "agg":
            return t.a[0]
        if o in ("byte",):
            return self.p.ty("u8")
        if o in ("ch",):
            return self.p.ty("char")
        return None

    def is_bool(self, ty):
        t = self.tyinfo(ty)
        return t is not None and t.get("k") == "bool"

    def variants(self, ty):
        t = self.tyinfo(ty)
        if t and t.get("k") == "adt":
            return t.get("vars")
        return None

    def field_types(self, ty, variant):
        t = self.tyinfo(ty)
        if t is None:
            return None
        if t["k"] == "tuple" or t["k"] == "closure":
            return t["f"]
        if t["k"] == "adt" and t.get("vars"):
            v = t["vars"][variant if variant >= 0 else 0]
            return [f[1] for f in v[2]]
        if t["k"] == "array" and t.get("n") is not None and t["n"] <= 512:
            return [t["e"]] * t["n"]
        return None

    def discr_of(self, ty, variant):
        vs = self.variants(ty)
        if vs:
            return vs[variant][1]
        return variant

    def agg(self, ty, variant, fields):
        return mk("agg", ty, variant, tuple(fields))

    def unit(self):
        return mk("agg", self.p.ty("()"), 0, ())

    def opt_ty(self, tyid):
        return tyid

    # ---- bounds and facts ----
    def base_range(self, t):
        o = t.op
        if o in ("sym", "ev", "w", "deref", "fld", "app"):
            if o == "app":
                r = self.app_range(t)
                if r:
                    return r
            r = self.int_range(self.typeof(t))
            if r:
                return r
            if o == "w" and t.a[1] == "nat":
                return (0, ISIZE_MAX)
            if o == "app" and t.a[1] == "nat":
                return (0, ISIZE_MAX)
            return (None, None)
        if o == "len":
            return (0, MEM_MAX)
        if o == "len8":
            return (1, 4)
        if o == "optlen":
            return (0, 4)
        if o == "byte":
            return (0, 255)
        if o == "ch":
            return (0, 0x10FFFF)
        if o == "discr":
            vs = self.variants(self.typeof(t.a[0]))
            if vs:
                ds = [v[1] for v in vs]
                return (min(ds), max(ds))
            return (None, None)
        if o in ("le", "eq", "not", "same", "or", "and"):
            return (0, 1)
        return (None, None)

    def app_range(self, t):
        f, a = t.a[0], t.a[2:]
        if f == "band":
            for x in a:
                if x.op == "int":
                    return (0, x.a[0])
        if f == "max" and all(x.op == "int" for x in a):
            return None
        return None

    def bound(self, st, t):
        r = st.rng.get(t)
        b = self.base_range(t)
        lo, hi = b
        if r:
            lo = r[0] if lo is None else (lo if r[0] is None else max(lo, r[0]))
            hi = r[1] if hi is None else (hi if r[1] is None else min(hi, r[1]))
        o = t.op
        if o == "len8" and t.a[0].op != "int":
            cl, ch = self.bound(st, t.a[0])
            if ch is not None:
                f = lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
                lo, hi = max(lo, f(cl)), min(hi, f(ch))
        elif o == "app":
            f, a = t.a[0], t.a[2:]
            if f in ("mul", "div", "shr", "rem", "band", "floor") and len(a) == 2:
                r = self.arith_bound(st, f, a)
                if r:
                    lo = r[0] if lo is None else max(lo, r[0])
                    hi = r[1] if hi is None else (hi if r[1] is None else min(hi, r[1]))
            elif f in ("width",):
                lo, hi = 0, 2
        elif o in ("le", "eq", "not", "or", "same") and lo != hi:
            # a truth value used as a number
            d = self.decide(st, t)
            if d is not None:
                lo = hi = int(d)
        return lo, hi

    def lin_bound(self, st, l):
        items, c = lin_parts(l)
        lo = hi = c
        for x, k in items:
            a, b = self.bound(st, x)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def arith_bound(self, st, f, a):
        l0, h0 = self.lin_bound(st, a[0])
        l1, h1 = self.lin_bound(st, a[1])
        if l0 is None or l1 is None or l0 < 0 or l1 < 0:
            return None
        if f == "mul":
            return (l0 * l1, h0 * h1 if h0 is not None and h1 is not None else None)
        if f == "div":
            hi = h0 // max(l1, 1) if h0 is not None else None
            # (x*y)/z <= y whenever x <= z
            m = a[0]
            if m.op == "app" and m.a[0] == "mul":
                for x, y in ((m.a[2], m.a[3]), (m.a[3], m.a[2])):
                    k = (x, a[1])
                    if k in self._dividing:
                        continue
                    self._dividing.add(k)
                    try:
                        le = self.decide(st, LE(x, a[1]))
                    finally:
                        self._dividing.discard(k)
                    if le is True:
                        hy = self.lin_bound(st, y)[1]
                        if hy is not None and (hi is None or hy < hi):
                            hi = hy
            return (l0 // h1 if h1 else 0, hi)
        if f == "shr" and a[1].op == "int":
            k = a[1].a[0]
            return (l0 >> k, h0 >> k if h0 is not None else None)
        if f == "rem":
            return (0, h1 - 1 if h1 else None)
        if f == "band":
            hs = [h for h in (h0, h1) if h is not None]
            return (0, min(hs)) if hs else None
        return None

    def simp(self, st, t):
        """Replaces atoms whose range is a single value."""
        if t.op == "int":
            return t
        items, c = lin_parts(t)
        d, ch = {}, False
        for x, k in items:
            if x.op == "optlen":
                v = self.optlen(st, x.a[0])
                if v is not x:
                    ch = True
                    for y, ky in lin_parts(v)[0]:
                        d[y] = d.get(y, 0) + k * ky
                    c += k * lin_parts(v)[1]
                    continue
            lo, hi = self.bound(st, x)
            if lo is not None and lo == hi:
                c += k * lo
                ch = True
            else:
                d[x] = d.get(x, 0) + k
        return lin_make(d, c) if ch else t

    def optlen(self, st, v):
        """UTF-8 length of the character held by an Option<char>-like value (0 for None)."""
        if v.op == "agg":
            if not v.a[2]:
                return ZERO
            f = v.a[2][-1] if v.a[2][-1].op != "agg" else v.a[2][-1].a[2][-1]
            return len8(f)
        d = mk("discr", v)
        lo, hi = self.bound(st, d)
        if lo == hi == 0:
            return ZERO
        if lo == hi == 1:
            ty = self.field_types(self.typeof(v), 1)
            if ty:
                return len8(mk("fld", v, 1, 0, ty[0]))
        return mk("optlen", v)

    def decide(self, st, l):
        o = l.op
        if o == "int":
            return bool(l.a[0])
        if o == "not":
            r = self.decide(st, l.a[0])
            return None if r is None else not r
        if o == "le":
            x = self.simp(st, l.a[0])
            lo, hi = self.lin_bound(st, x)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            if x.op == "int":
                return x.a[0] <= 0
            bf = lambda a: self.bound(st, a)
            facts = self.lin_facts(st, x)
            if facts or len(lin_parts(x)[0]) > 1:
                if lin.entails(facts, x, bf):
                    return True
                if lin.entails(facts, addc(scale(x, -1), 1), bf):
                    return False
            return None
        if o == "eq":
            r = st.lits.get(l)
            if r is not None:
                return r
            x = self.simp(st, l.a[0])
            if x.op == "int":
                return x.a[0] == 0
            items, c = lin_parts(x)
            if len(items) == 1:
                a, k = items[0]
                if c % k:
                    return False
                v = -c // k
                lo, hi = self.bound(st, a)
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    return False
                if v in st.ne.get(a, ()):
                    return False
                if lo == hi == v:
                    return True
                # (x & m) == v for a known mask
                if a.op == "app" and a.a[0] == "band" and a.a[3].op == "int" and (v & ~a.a[3].a[0]):
                    return False
            r = st.lits.get(EQ0(x))
            if r is not None:
                return r
            lo, hi = self.lin_bound(st, x)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            facts = self.lin_facts(st, x)
            if facts:
                bf = lambda a: self.bound(st, a)
                le = lin.entails(facts, x, bf)
                ge = lin.entails(facts, scale(x, -1), bf)
                if le and ge:
                    return True
                if lin.entails(facts, addc(x, 1), bf) or lin.entails(facts, addc(scale(x, -1), 1), bf):
                    return False
            return None
        if o == "or":
            rs = [self.decide(st, x) for x in l.a]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if o == "same":
            if l.a[0] is l.a[1]:
                return True
            r = st.lits.get(l)
            if r is not None:
                return r
            a, b = l.a
            if a.op == "rope" and b.op == "rope":
                la, lb = rope_lit(a), rope_lit(b)
                if la is not None and lb is not None:
                    return la == lb
                if self.decide(st, EQ(rope_len(a), rope_len(b))) is False:
                    return False
                for k, v in st.lits.items():
                    if v is True and k.op == "same" and k.a[0] is a and lb is not None:
                        lk = rope_lit(k.a[1]) if k.a[1].op == "rope" else None
                        if lk is not None and lk != lb:
                            return False
            return None
        r = st.lits.get(l)
        if r is not None:
            return r
        lo, hi = self.bound(st, l)
        if lo is not None and lo == hi:
            return bool(lo)
        return None

    def lin_facts(self, st, x):
        facts = list(st.ineq)
        # structural facts about the atoms involved
        for a in set(y for f in facts for y, _ in lin_parts(f)[0]) | set(y for y, _ in lin_parts(x)[0]):
            if a.op == "app" and a.a[0] == "div" and len(a.a) == 4:
                z = a.a[3]
                if self.lin_bound(st, z)[0] is not None and self.lin_bound(st, z)[0] >= 1:
                    m = a.a[2]
                    if z.op == "int":
                        # z*a <= m < z*a + z
                        facts.append(sub(scale(a, z.a[0]), m))
                        facts.append(addc(sub(m, scale(a, z.a[0])), 1 - z.a[0]))
                    else:
                        facts.append(sub(a, m))
                    if m.op == "app" and m.a[0] == "mul":
                        for p, q in ((m.a[2], m.a[3]), (m.a[3], m.a[2])):
                            if LE(p, z).op == "int" or any(f is sub(p, z) for f in st.ineq) or any(f is addc(sub(p, z), 1) for f in st.ineq):
                                facts.append(sub(a, q))
        return facts

    @staticmethod
    def snap(a, lo, hi):
        """Narrows the range of `x & mask` to what the mask's bits can make."""
        if a.op == "app" and a.a[0] == "band" and a.a[3].op == "int" and a.a[3].a[0] > 0:
            m = a.a[3].a[0]
            if lo is not None and 0 < lo < m & -m:
                lo = m & -m
            if hi is not None and 0 < hi < m & -m:
                hi = 0
        return lo, hi

    def assume(self, st, l, val=True):
        """Adds the fact; returns False when contradictory."""
        o = l.op
        if o == "int":
            return bool(l.a[0]) == val
        if o == "not":
            return self.assume(st, l.a[0], not val)
        d = self.decide(st, l)
        if d is not None:
            if d != val:
                return False
            if o != "le":
                return True
        if o == "le":
            x = l.a[0] if val else addc(scale(l.a[0], -1), 1)
            items, c = lin_parts(x)
            if len(items) == 1:
                a, k = items[0]
                lo, hi = st.rng.get(a, (None, None))
                if k > 0:
                    v = (-c) // k
                    hi = v if hi is None else min(hi, v)
                else:
                    v = -((-c) // (-k))  # ceil(c / -k)
                    v = -(-c // -k) if False else (c + (-k) - 1) // (-k)
                    lo = v if lo is None else max(lo, v)
                while lo is not None and lo in st.ne.get(a, ()):
                    lo += 1
                while hi is not None and hi in st.ne.get(a, ()):
                    hi -= 1
                st.rng[a] = (lo, hi)
                b = self.bound(st, a)
                if b[0] is not None and b[1] is not None and b[0] > b[1]:
                    return False
                s = self.snap(a, *b)
                if s != b:
                    if s[0] > s[1]:
                        return False
                    st.rng[a] = s
                    if s[0] == s[1]:
                        return self.learn(st, a, s[0])
                return True
            if st.lits.get(EQ0(x)) is False:
                x = addc(x, 1)
            if x not in st.ineq:
                st.ineq = st.ineq + (x,)
            return True
        if o == "eq":
            x = self.simp(st, l.a[0])
            items, c = lin_parts(x)
            if x.op == "int":
                return (x.a[0] == 0) == val
            if len(items) == 1:
                a, k = items[0]
                if c % k:
                    return not val
                v = -c // k
                if val:
                    st.rng[a] = (v, v)
                    return self.learn(st, a, v)
                st.ne[a] = st.ne.get(a, frozenset()) | {v}
                lo, hi = self.bound(st, a)
                if lo == v:
                    while lo in st.ne[a]:
                        lo += 1
                    st.rng[a] = (lo, hi)
                elif hi == v:
                    while hi in st.ne[a]:
                        hi -= 1
                    st.rng[a] = (lo, hi)
                s = self.snap(a, lo, hi)
                if s != (lo, hi):
                    lo, hi = s
                    if lo > hi:
                        return False
                    st.rng[a] = (lo, hi)
                if lo is not None and lo == hi:
                    return self.learn(st, a, lo)
                return lo is None or hi is None or lo <= hi
            st.lits[l] = val
            st.lits[EQ0(x)] = val
            if val:
                for y in (x, scale(x, -1)):
                    if y not in st.ineq:
                        st.ineq = st.ineq + (y,)
            else:
                if self.decide(st, LE0(x)) is True:
                    st.ineq = st.ineq + (addc(x, 1),)
                elif self.decide(st, LE0(scale(x, -1))) is True:
                    st.ineq = st.ineq + (addc(scale(x, -1), 1),)
            return True
        if o == "or":
            if not val:
                return all(self.assume(st, x, False) for x in l.a)
            st.lits[l] = True
            live = [x for x in l.a if self.decide(st, x) is not False]
            if len(live) == 1:
                return self.assume(st, live[0], True)
            return bool(live)
        st.lits[l] = val
        if o == "same":
            a, b = l.a
            if val and a.op == "rope" and b.op == "rope":
                return self.assume(st, EQ(rope_len(a), rope_len(b)), True)
            return True
        if self.is_bool(self.typeof(l)) if self.typeof(l) is not None else False:
            st.rng[l] = (1, 1) if val else (0, 0)
        return True

    def learn(self, st, a, v):
        """Consequences of atom == constant."""
        if a.op == "byte" and v < 0x80:
            c = mk("ch", a.a[0], a.a[1])
            st.rng[c] = (v, v)
        elif a.op == "ch" and v < 0x80:
            st.rng[mk("byte", a.a[0], a.a[1])] = (v, v)
        elif a.op == "discr" and a.a[0].op == "app" and a.a[0].a[0] == "cmp":
            x, y = a.a[0].a[2:4]
            return self.assume(st, LT(x, y) if v < 0 else LT(y, x) if v > 0 else EQ(x, y), True)
        return True

    # ---- memory ----
    def root_ty(self, root):
        if root.op == "o":
            return root.a[1]
        return None

    def default(self, st, root):
        if root.op == "o":
            return mk("deref", root.a[0], root.a[1])
        if root.op == "static":
            v = self.static_mem.get(root)
            if v is not None:
                return v
            return mk("sym", "static:" + root.a[0], root.a[1])
        return mk("uninit")

    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.default(st, root)
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            if v.op == "agg":
                return v.a[2][p[1]] if p[1] < len(v.a[2]) else mk("uninit")
            if v.op == "dc":
                if v.a[0].op == "agg":
                    g = v.a[0]
                    return g.a[2][p[1]] if p[1] < len(g.a[2]) else mk("uninit")
                return mk("fld", v.a[0], v.a[1], p[1], p[2])
            if v.op == "int":
                return v  # newtype around an integer (NonZero)
            return mk("fld", v, -1, p[1], p[2])
        if k == "v":
            if v.op == "agg":
                return v
            return mk("dc", v, p[1])
        if k == "i":
            i = p[1]
            if v.op == "agg" and i.op == "int" and i.a[0] < len(v.a[2]):
                return v.a[2][i.a[0]]
            if v.op == "rope":
                return self.byte_at(st, v, i)
            if v.op == "bytes":
                return INT(v.a[0][i.a[0]]) if i.op == "int" and i.a[0] < len(v.a[0]) else mk("app", "idx", self.p.ty("u8"), v, i)
            if v.op == "agg" and i.op != "int":
                t = self.field_types(v.a[0], 0)
                return mk("app", "idx", t[0] if t else None, v, i)
            return mk("app", "idx", self.elem_ty(v), v, i)
        if k == "s":
            return mk("app", "subslice", None, v, INT(p[1]), INT(p[2]))
        raise Stuck("projection %r" % (p,))

    def elem_ty(self, v):
        t = self.tyinfo(self.typeof(v))
        while t is not None and t.get("k") == "ref":
            t = self.tyinfo(t["e"])
        if t is not None and t.get("k") in ("array", "slice"):
            return t["e"]
        return None

    def byte_at(self, st, r, i):
        """The byte at offset i of a rope."""
        off = ZERO
        for s in r.a:
            n = seg_len(s)
            nxt = add(off, n)
            if self.decide(st, LT(i, off)) is not False:
                break
            if self.decide(st, LT(i, nxt)) is True:
                rel = sub(i, off)
                if s.op == "lit" and rel.op == "int":
                    return INT(s.a[0][rel.a[0]])
                if s.op == "sub":
                    return mk("byte", s.a[0], self.simp(st, add(s.a[1], rel)))
                if s.op == "chr" and s.a[0].op == "int":
                    b = chr(s.a[0].a[0]).encode()
                    if rel.op == "int":
                        return INT(b[rel.a[0]])
                break
            off = nxt
        return mk("app", "byteof", self.p.ty("u8"), r, i)

    def read(self, st, loc):
        if loc[0] == "val":
            v = loc[1]
            for p in loc[2]:
                v = self.proj(st, v, p)
            return v
        v = self.read_root(st, loc[1])
        for p in loc[2]:
            v = self.proj(st, v, p)
        return v

    def expand(self, v, variant=-1):
        ty = self.typeof(v)
        fts = self.field_types(ty, variant)
        if fts is None:
            return None
        t = self.tyinfo(ty)
        if t["k"] == "array":
            return mk("agg", ty, 0, tuple(mk("app", "idx", f, v, INT(i)) for i, f in enumerate(fts)))
        isenum = t["k"] == "adt" and t.get("adt") == "enum"
        return mk("agg", ty, max(variant, 0), tuple(mk("fld", v, variant if isenum else -1, i, f) for i, f in enumerate(fts)))

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "v":
            if v.op != "agg":
                e = self.expand(v, p[1])
                if e is None:
                    st.weak = st.weak or "write through unknown variant"
                    return v
                v = e
            return self.upd(st, v, path[1:], val)
        if p[0] == "f":
            if v.op == "uninit":
                v = mk("agg", None, 0, tuple(mk("uninit") for _ in range(p[1] + 1)))
            if v.op == "int":
                return val
            if v.op != "agg":
                e = self.expand(v)
                if e is None:
                    st.weak = st.weak or "write into unknown structure"
                    return v
                v = e
            fs = list(v.a[2])
            while len(fs) <= p[1]:
                fs.append(mk("uninit"))
            fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
            return mk("agg", v.a[0], v.a[1], tuple(fs))
        if p[0] == "i":
            if v.op != "agg":
                e = self.expand(v)
                if e is not None:
                    v = e
            if v.op == "agg" and p[1].op == "int" and p[1].a[0] < len(v.a[2]):
                fs = list(v.a[2])
                fs[p[1].a[0]] = self.upd(st, fs[p[1].a[0]], path[1:], val)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            st.weak = st.weak or "write at unknown index"
            return self.fresh(self.typeof(v), "idxwrite")
        raise Stuck("write projection %r" % (p,))

    def write(self, st, loc, val):
        if loc[0] != "mem":
            st.weak = st.weak or "write through value"
            return
        if not loc[2]:
            st.mem[loc[1]] = val
        else:
            if self.track and loc[1].op == "mx" and loc[2][0][0] == "f":
                r = mk("touched", loc[1])
                old = st.mem.get(r)
                st.mem[r] = mk("touch", tuple(sorted(set(old.a[0] if old is not None else ()) | {loc[2][0][1]})))
            st.mem[loc[1]] = self.upd(st, self.read_root(st, loc[1]), loc[2], val)

    def heap(self, st, val, what="tmp"):
        self.ctr += 1
        root = mk("h", self.ctr, what)
        st.mem[root] = val
        return root

    def ref(self, root, path=()):
        if not path and root.op == "o" and root.a[0].op != "arcobj":
            return root.a[0]
        return mk("ref", root, path)

    def deref_loc(self, st, v, ty=None):
        """Location behind a pointer-like value."""
        o = v.op
        if o == "ref":
            return ("mem", v.a[0], v.a[1])
        if o == "sr":
            return ("val", v.a[0], ())
        if o == "boxed":
            return ("mem", v.a[0], ())
        t = self.tyinfo(self.typeof(v))
        pt = ty
        if t is not None:
            if t.get("k") in ("ref", "ptr"):
                pt = t["e"]
            elif t.get("k") == "adt" and t["args"]:
                pt = t["args"][0]
        return ("mem", mk("o", v, pt), ())

    def pointee(self, st, v, ty=None):
        return self.read(st, self.deref_loc(st, v, ty))

    def place(self, st, fr, pl):
        loc = ("mem", mk("l", fr.fid, pl[0]), ())
        for p in pl[1]:
            k = p[0]
            if k == "d":
                v = self.read(st, loc)
                loc = self.deref_loc(st, v)
            elif k == "f":
                loc = (loc[0], loc[1], loc[2] + (("f", p[1], p[2]),))
            elif k == "v":
                loc = (loc[0], loc[1], loc[2] + (("v", p[1]),))
            elif k == "i":
                i = self.simp(st, self.read_root(st, mk("l", fr.fid, p[1])))
                loc = (loc[0], loc[1], loc[2] + (("i", i),))
            elif k == "ci":
                i = INT(p[1])
                if p[3]:
                    i = sub(self.length(st, self.read(st, loc)), i)
                loc = (loc[0], loc[1], loc[2] + (("i", i),))
            elif k == "sub":
                v = self.read(st, loc)
                if v.op == "rope":
                    n = rope_len(v)
                    hi = sub(n, INT(p[2])) if p[3] else INT(p[2])
                    r = self.slice_rope(st, v, INT(p[1]), hi)
                    loc = ("val", r if r is not None else whole(self.fresh(None, "subslice")), ())
                else:
                    loc = ("val", mk("app", "subslice", None, v, INT(p[1]), INT(p[2])), ())
            else:
                raise Stuck("projection %r" % (p,))
        return loc

    def length(self, st, v):
        """Length of a slice/array/str value (already dereferenced)."""
        if v.op == "rope":
            return rope_len(v)
        if v.op == "bytes":
            return INT(len(v.a[0]))
        if v.op == "agg":
            return INT(len(v.a[2]))
        if v.op == "deref":
            return mk("len", v)
        t = self.tyinfo(self.typeof(v))
        if t and t.get("k") == "array" and t.get("n") is not None:
            return INT(t["n"])
        return mk("len", v)

    # ---- strings ----
    def as_rope(self, st, v):
        """Content of a string-ish value: &str, &[u8], String, Vec<u8>, Cow, char slices, &String…"""
        o = v.op
        if o == "rope":
            return v
        if o == "sr":
            return v.a[0]
        if o == "ref":
            return self.as_rope(st, self.read(st, ("mem", v.a[0], v.a[1])))
        if o == "boxed":
            return self.as_rope(st, st.mem.get(v.a[0], mk("uninit")))
        if o == "bytes":
            return rlit(v.a[0])
        if o == "agg":
            t = self.tyinfo(v.a[0])
            if t and t.get("k") == "adt" and t["path"].endswith("borrow::Cow"):
                return self.as_rope(st, v.a[2][0])
            if t and t.get("k") == "array" and all(x.op == "int" for x in v.a[2]):
                return rlit(bytes(x.a[0] for x in v.a[2]))
            if t and t.get("k") == "array":
                u8 = self.tyinfo(t["e"])
                if u8 and u8.get("s") == "u8":
                    return rope(*[lit(bytes([x.a[0]])) if x.op == "int" else mk("bytev", x) for x in v.a[2]])
            return whole(v)
        if o in ("sym", "ev", "w", "fld", "deref", "app"):
            t = self.tyinfo(self.typeof(v))
            if t and t.get("k") == "ref":
                e = self.tyinfo(t["e"])
                if e and e.get("k") not in ("str", "slice", "param", "alias"):
                    loc = self.deref_loc(st, v)
                    return self.as_rope(st, self.read(st, loc))
            return whole(v)
        return whole(v)

    def sr(self, r):
        return mk("sr", r)

    def split_at(self, st, r, off):
        """(left, right) of a rope at byte offset, or None when the position cannot be located."""
        off = self.simp(st, off)
        pos = ZERO
        segs = list(r.a)
        for i, s in enumerate(segs):
            if self.decide(st, EQ(off, pos)) is True:
                return rope(*segs[:i]), rope(*segs[i:])
            nxt = add(pos, seg_len(s))
            if self.decide(st, LE(off, nxt)) is True:
                if self.decide(st, EQ(off, nxt)) is True:
                    return rope(*segs[:i + 1]), rope(*segs[i + 1:])
                if self.decide(st, LE(pos, off)) is True:
                    rel = sub(off, pos)
                    if s.op == "lit" and rel.op == "int":
                        b = s.a[0]
                        return rope(*(segs[:i] + [lit(b[:rel.a[0]])])), rope(*([lit(b[rel.a[0]:])] + segs[i + 1:]))
                    if s.op == "lit":
                        s = mk("sub", s, ZERO, INT(len(s.a[0])))
                    if s.op == "sub":
                        m = self.simp(st, add(s.a[1], rel))
                        return (rope(*(segs[:i] + [mk("sub", s.a[0], s.a[1], m)])),
                                rope(*([mk("sub", s.a[0], m, s.a[2])] + segs[i + 1:])))
                    if s.op == "rep" and isinstance(s.a[0], bytes) and len(s.a[0]) == 1:
                        return (rope(*(segs[:i] + [mk("rep", s.a[0], rel)])),
                                rope(*([mk("rep", s.a[0], sub(s.a[1], rel))] + segs[i + 1:])))
                return None
            pos = nxt
        if self.decide(st, EQ(off, pos)) is True:
            return r, EMPTY
        return None

    def slice_rope(self, st, r, lo, hi):
        if hi is None:
            hi = rope_len(r)
        if self.decide(st, EQ(lo, hi)) is True:
            return EMPTY
        a = self.split_at(st, r, hi)
        if a is None:
            return None
        b = self.split_at(st, a[0], lo)
        if b is None:
            return None
        return b[1]

    # ---- constants ----
    def const(self, st, k):
        v, ty = k["v"], k["ty"]
        return self.cval(st, v, ty)

    def cval(self, st, v, ty):
        kind = v[0]
        if kind == "int":
            return INT(int(v[1]))
        if kind == "str":
            return self.sr(rlit(v[1]))
        if kind == "zst":
            t = self.tyinfo(ty)
            if t and t.get("k") == "closure":
                return mk("agg", ty, 0, ())
            if t and t.get("k") == "fndef":
                return self.fnval(t["fn"])
            if t and t.get("k") == "array":
                return mk("agg", ty, 0, ())
            return mk("agg", ty, 0, ())
        if kind == "fn":
            return self.fnval(v[1])
        if kind == "arr":
            t = self.tyinfo(ty)
            e = t.get("e") if t else None
            et = self.tyinfo(e)
            if et and et.get("s") == "u8" and all(x[0] == "int" for x in v[1]):
                if len(v[1]) > 16:
                    return mk("bytes", bytes(int(x[1]) for x in v[1]))
            return mk("agg", ty, 0, tuple(self.cval(st, x, e) for x in v[1]))
        if kind == "ref":
            t = self.tyinfo(ty)
            e = t.get("e") if t else None
            inner = v[1]
            et = self.tyinfo(e)
            if inner[0] == "arr" and et:
                x = self.tyinfo(et.get("e"))
                if x and x.get("s") == "u8" and all(y[0] == "int" for y in inner[1]):
                    return self.sr(rlit(bytes(int(y[1]) for y in inner[1])))
            if inner[0] == "str":
                return self.sr(rlit(inner[1]))
            val = self.cval(st, inner, e)
            root = mk("k", val)
            st.mem[root] = val
            return mk("ref", root, ())
        if kind == "static":
            root = mk("static", v[1], v[2])
            if v[3] is not None and root not in self.static_mem:
                t = self.tyinfo(v[2])
                if not self.interior(v[2]):
                    self.static_mem[root] = self.cval(st, v[3], v[2])
            return mk("ref", root, ())
        if kind == "adt":
            return self.cadt(st, v, ty)
        if kind == "float":
            return mk("float", v[1])
        return mk("sym", "const:%s" % (v,), ty)

    def interior(self, ty):
        t = self.tyinfo(ty)
        return any(x in t["s"] for x in ("Mutex", "Atomic", "OnceLock", "Cell", "Lazy"))

    def cadt(self, st, v, ty):
        # ["adt", variant, [fields…]] (see driver)
        t = self.tyinfo(ty)
        if t is None:
            # a private part of a foreign type
            return mk("agg", ty, v[1] if isinstance(v[1], int) else 0, tuple(self.cval(st, f, None) for f in v[-1]))
        if t.get("k") == "adt" and t["path"].endswith("NonZero"):
            x = v
            while isinstance(x, list) and x and x[0] == "adt":
                fs = x[-1]
                if not fs:
                    break
                x = fs[0]
            if isinstance(x, list) and x and x[0] == "int":
                return INT(int(x[1]))
        variant, fields = v[1], v[-1]
        if not isinstance(variant, int):
            variant = 0
        if t.get("k") == "adt" and t["path"].endswith(("string::String", "vec::Vec")):
            # constant String::new() / Vec::new()
            return EMPTY
        fts = self.field_types(ty, variant) or [None] * len(fields)
        out = []
        for f, ft in zip(fields, fts):
            out.append(self.cval(st, f, ft))
        return mk("agg", ty, variant, tuple(out))

    def fnval(self, info):
        k = (info.get("ipath"), info.get("inst"), info["path"], tuple(map(str, info.get("args") or ())))
        i = self.fnidx.get(k)
        if i is None:
            i = self.fnidx[k] = len(self.fns)
            self.fns.append(info)
        return mk("fnv", i)

    # ---- operands and rvalues ----
    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(st, o[1])
        if o[0] == "rt":
            return ONE if "Overflow" in o[1] else ZERO
        v = self.read(st, self.place(st, fr, o[1]))
        if v.op in ("int", "lin"):
            return v
        if v.op in ("len", "len8", "discr", "optlen", "byte", "ch", "ev", "w", "fld", "app", "deref", "sym"):
            r = st.rng.get(v)
            if r and r[0] == r[1] and r[0] is not None:
                return INT(r[0])
            if v in st.lits and self.is_bool(self.typeof(v)):
                return INT(1 if st.lits[v] else 0)
        return v

    def op_ty(self, fr, o):
        if o[0] == "k":
            return o[1]["ty"]
        if o[0] == "rt":
            return None
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        ty = fr.body["locals"][pl[0]]
        for p in pl[1]:
            t = self.tyinfo(ty)
            if p[0] == "d":
                ty = t.get("e") if t and "e" in t else (t["args"][0] if t and t.get("args") else None)
            elif p[0] == "f":
                ty = p[2]
            elif p[0] in ("i", "ci"):
                ty = t.get("e") if t else None
            elif p[0] == "sub":
                pass
            elif p[0] == "v":
                pass
        return ty

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            loc = self.place(st, fr, rv[2])
            return self.ref_loc(st, loc)
        if k == "raw":
            loc = self.place(st, fr, rv[1])
            return self.ref_loc(st, loc)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(fr, rv[2]), dty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = self.op_ty(fr, rv[2])
                if self.is_bool(ty):
                    return NOT(self.tobool(st, a))
                r = self.int_range(ty)
                if a.op == "int" and r:
                    return INT(r[1] - a.a[0]) if r[0] == 0 else INT(~a.a[0])
                if r and r[0] == 0:
                    return sub(INT(r[1]), a)
                return mk("app", "bnot", ty, a)
            if rv[1] == "Neg":
                return scale(a, -1)
            if rv[1] == "PtrMetadata":
                if a.op == "sr":
                    return rope_len(a.a[0])
                return self.length(st, self.pointee(st, a))
            return mk("app", rv[1], dty, a)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == "discr":
            v = self.read(st, self.place(st, fr, rv[1]))
            return self.discr(st, v)
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in rv[2])
            kk = rv[1]
            if kk[0] == "adt":
                t = self.tyinfo(kk[3])
                if t and t.get("k") == "adt" and t["path"].endswith("NonZero") and fs:
                    return fs[0]
                return mk("agg", kk[3], kk[2], fs)
            if kk[0] in ("tuple", "array"):
                return mk("agg", dty, 0, fs)
            if kk[0] == "closure":
                return mk("agg", kk[2], 0, fs)
            return mk("app", "rawagg", dty, *fs)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n is not None and n <= 512:
                return mk("agg", dty, 0, (v,) * n)
            return mk("app", "repeat", dty, v)
        if k == "tls":
            return mk("sym", "tls:" + rv[1], dty)
        raise Stuck("rvalue %s" % k)

    def ref_loc(self, st, loc):
        if loc[0] == "val":
            v = self.read(st, loc)
            if v.op == "rope":
                return self.sr(v)
            root = mk("k", v)
            st.mem[root] = v
            return mk("ref", root, ())
        return self.ref(loc[1], loc[2])

    def discr(self, st, v):
        if v.op == "agg":
            return INT(self.discr_of(v.a[0], v.a[1]))
        if v.op == "int":
            return v
        d = mk("discr", v)
        r = st.rng.get(d)
        if r and r[0] == r[1] and r[0] is not None:
            return INT(r[0])
        return d

    def tobool(self, st, v):
        return v

    def as_bool_num(self, v):
        return v

    def binop(self, st, op, a, b, ty, dty):
        r = self.int_range(ty)
        if op in ("Eq", "Ne"):
            l = self.eqlit(st, a, b)
            return l if op == "Eq" else NOT(l)
        if op == "Lt":
            return LT(a, b)
        if op == "Le":
            return LE(a, b)
        if op == "Gt":
            return LT(b, a)
        if op == "Ge":
            return LE(b, a)
        if op == "Cmp":
            # three-way comparison yields Ordering
            oty = dty
            if self.decide(st, LT(a, b)) is True:
                return mk("agg", oty, 0, ())
            if self.decide(st, LT(b, a)) is True:
                return mk("agg", oty, 2, ())
            if self.decide(st, EQ(a, b)) is True:
                return mk("agg", oty, 1, ())
            return mk("app", "cmp", oty, a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        chk = op.endswith("WithOverflow")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                v = add(a, b)
            elif base == "Sub":
                v = sub(a, b)
            elif a.op == "int":
                v = scale(b, a.a[0])
            elif b.op == "int":
                v = scale(a, b.a[0])
            else:
                x, y = sorted((a, b), key=lambda t: t.id)
                v = mk("app", "mul", None, x, y)
            v = self.simp(st, v)
            if r is None:
                return v
            over = []
            if base != "Sub" or r[0] < 0:
                over.append(LT(INT(r[1]), v))
            if base == "Sub" or r[0] < 0:
                over.append(LT(v, INT(r[0])))
            over = [o for o in over if self.decide(st, o) is not False]
            ov = FALSE if not over else over[0] if len(over) == 1 else mk("or", *over)
            if chk:
                return mk("agg", dty, 0, (v, ov))
            if ov is FALSE:
                return v
            if all(self.decide(st, o) is None for o in over) and op.endswith("Unchecked"):
                return v
            if v.op == "int":
                return INT((v.a[0] - r[0]) % (r[1] - r[0] + 1) + r[0])
            return mk("app", "w" + base.lower(), ty, a, b)
        if base in ("Div", "Rem"):
            if a.op == "int" and b.op == "int" and b.a[0] and a.a[0] >= 0 and b.a[0] > 0:
                return INT(a.a[0] // b.a[0]) if base == "Div" else INT(a.a[0] % b.a[0])
            if base == "Div" and is_int(b, 1):
                return a
            return mk("app", base.lower(), ty, a, b)
        if base in ("Shl", "Shr"):
            if b.op == "int" and r and r[0] == 0:
                k = b.a[0]
                if base == "Shl":
                    lo, hi = self.lin_bound(st, a)
                    if lo is not None and hi is not None and lo >= 0 and (hi << k) <= r[1]:
                        return scale(a, 1 << k)
                    if lo is not None and lo >= 0 and a.op == "lin" and self.decide(st, LE(a, INT(r[1] >> k))) is True:
                        return scale(a, 1 << k)
                    if a.op == "int":
                        return INT((a.a[0] << k) & r[1])
                else:
                    if a.op == "int":
                        return INT(a.a[0] >> k)
                    h, l = self.split_bits(st, a, k)
                    if h is not None:
                        return h
            return mk("app", base.lower(), ty, a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, base, a, b, ty)
        if op == "Offset":
            return mk("app", "offset", dty, a, b)
        return mk("app", op, dty if not chk else ty, a, b)

    def resimp(self, st, t):
        """Rebuilds bit arithmetic with what is known by now."""
        if t.op == "lin":
            r = INT(t.a[0])
            for x, k in t.a[1]:
                r = add(r, scale(self.resimp(st, x), k))
            return r
        if t.op == "app" and t.a[0] in ("band", "bor", "bxor", "shl", "shr") and t.a[1] is not None and len(t.a) == 4:
            x, y = self.resimp(st, t.a[2]), self.resimp(st, t.a[3])
            op = {"band": "BitAnd", "bor": "BitOr", "bxor": "BitXor", "shl": "Shl", "shr": "Shr"}[t.a[0]]
            return self.binop(st, op, x, y, t.a[1], t.a[1])
        return self.simp(st, t)

    def split_bits(self, st, a, k):
        """Splits a linear term into (high, low) around bit k when the parts are exact."""
        items, c = lin_parts(a)
        m = 1 << k
        hi, lo = {}, {}
        for x, q in items:
            if q % m == 0:
                hi[x] = q // m
            elif q > m:
                hi[x], lo[x] = q // m, q % m
            else:
                lo[x] = q
        hc, lc = divmod(c, m)
        l = lin_make(lo, lc)
        h = lin_make(hi, hc)
        if not hi and hc == 0:
            b = self.lin_bound(st, l)
            if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < m:
                return ZERO, l
            return None, None
        b = self.lin_bound(st, l)
        if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < m:
            return h, l
        return None, None

    def bitop(self, st, base, a, b, ty):
        boolt = self.is_bool(ty)
        r = self.int_range(ty)
        if a.op == "int" and b.op != "int":
            a, b = b, a
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            return INT(x & y if base == "BitAnd" else x | y if base == "BitOr" else x ^ y)
        if boolt:
            da, db = self.decide(st, a), self.decide(st, b)
            if base == "BitAnd":
                if da is False or db is False:
                    return FALSE
                if da is True:
                    return b
                if db is True:
                    return a
                return NOT(mk("or", NOT(a), NOT(b)))
            if base == "BitOr":
                if da is True or db is True:
                    return TRUE
                if da is False:
                    return b
                if db is False:
                    return a
                return mk("or", a, b)
            if b.op == "int":
                return NOT(a) if b.a[0] else a
            return mk("app", "bxor", ty, a, b)
        if base == "BitAnd" and b.op == "int":
            m = b.a[0]
            if m == 0:
                return ZERO
            if r and m == r[1] and r[0] == 0:
                return a
            if a.op == "app" and a.a[0] == "band" and a.a[3].op == "int":
                return self.bitop(st, base, a.a[2], INT(a.a[3].a[0] & m), ty)
            if a.op == "app" and a.a[0] == "bor":
                x, y = a.a[2], a.a[3]
                fx, fy = self.bitop(st, base, x, b, ty), self.bitop(st, base, y, b, ty)
                return self.bitop(st, "BitOr", fx, fy, ty)
            if m & (m + 1) == 0:
                h, l = self.split_bits(st, a, m.bit_length())
                if l is not None:
                    return l
            return mk("app", "band", ty, a, b)
        if base == "BitOr":
            if is_int(b, 0):
                return a
            if is_int(a, 0):
                return b
            # disjoint parts add up
            for x, y in ((a, b), (b, a)):
                items, c = lin_parts(y)
                hi = self.lin_bound(st, x)
                if items and hi[1] is not None and hi[0] is not None and hi[0] >= 0:
                    k = max(hi[1].bit_length(), 1)
                    if all(q % (1 << k) == 0 for _, q in items) and c % (1 << k) == 0:
                        return add(x, y)
                if y.op == "int" and y.a[0] and hi[1] is not None and hi[0] >= 0:
                    k = max(hi[1].bit_length(), 1)
                    if y.a[0] % (1 << k) == 0:
                        return add(x, y)
            return mk("app", "bor", ty, a, b)
        if base == "BitXor" and is_int(b, 0):
            return a
        return mk("app", {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[base], ty, a, b)

    def eqlit(self, st, a, b):
        """Equality literal of two scalar values."""
        num = ("int", "lin", "len", "len8", "discr", "byte", "ch", "optlen")
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and x.op in ("le", "eq", "not", "same", "or"):
                return x if y.a[0] else NOT(x)
        if a.op in ("le", "eq", "not", "same", "or") or b.op in ("le", "eq", "not", "same", "or"):
            return mk("same", *sorted((a, b), key=lambda t: t.id))
        if a.op in num or b.op in num or self.int_range(self.typeof(a)) or a.op == "app" and a.a[1] is None:
            l = EQ(a, b)
            return l
        return mk("same", *sorted((a, b), key=lambda t: t.id))

    def cast(self, st, kind, v, fty, tty):
        if kind.startswith("IntToInt"):
            r = self.int_range(tty)
            if v.op in ("le", "eq", "not", "same", "or"):
                d = self.decide(st, v)
                if d is not None:
                    return INT(1 if d else 0)
                return v
            if v.op == "int" and r:
                n = v.a[0]
                w = r[1] - r[0] + 1
                n = (n - r[0]) % w + r[0]
                return INT(n)
            if r:
                lo, hi = self.lin_bound(st, v)
                if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
                    return v
                if self.decide(st, LE(v, INT(r[1]))) is True and self.decide(st, LE(INT(r[0]), v)) is True:
                    return v
            return mk("app", "cast", tty, v)
        if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "Subtype")):
            return v
        return mk("app", "cast:" + kind, tty, v)

    # ---- events ----
    def event(self, st, kind, args, fr, line=None):
        if self.keep is not None and not self.keep(kind, args):
            return
        raw = args
        if self.slim is not None:
            args = self.slim(self, st, kind, args)
            if args is None:
                return
            if args and isinstance(args[0], tuple) and args[0][:1] == ("kind",):
                kind, args = args[0][1], args[1:]
        loc = (fr.body["path"], line if line is not None else fr.loc)
        stack = []
        f = fr
        while f is not None:
            stack.append(f.body["path"])
            f = f.parent
        k = (kind, args, loc, tuple(stack))
        e = self.evkeys.get(k)
        if e is None:
            e = self.evkeys[k] = Event(kind, args, loc, tuple(stack))
        st.trace = mk("tr", st.trace, e)
        if self.slim is not None and kind in ("aload", "armw") and raw[1].op == "ev":
            self.rawev.setdefault(st.trace.id, set()).add(raw[1])

    def panic(self, st, fr, kind, detail=None, certain=True):
        self.panics.append((st, kind, detail, (fr.body["path"], fr.loc), certain))

    # ---- execution ----
    def run(self, key, args, st=None, parent=None):
        """Runs a body; returns list of (state, value)."""
        st = st or State()
        rets, unw = self.call_body(st, key, args, parent)
        self.unwinds = unw
        return rets

    def call_body(self, st, key, args, parent):
        body = self.p.bodies[key]
        st.n = c0 = max(st.n, self.ctr)
        if self.summaries is not None and parent is not None:
            r = self.summary(st, key, args, parent)
            if r is not None:
                return r
        fr = Frame()
        self.n += 1
        fr.fid = self.n
        fr.body, fr.key, fr.cfg = body, key, self.p.cfg(key)
        fr.depth = parent.depth + 1 if parent else 0
        fr.parent = parent
        fr.loc = (body["sp"] or [None, None])[1]
        if fr.depth > 40:
            raise Stuck("recursion")
        f, n = parent, 0
        while f is not None:
            if f.key == key:
                n += 1
            f = f.parent
        if n >= 2:
            raise Stuck("recursive call of %s" % body["path"])
        self.visited.add(body["path"])
        if body["spread"] is not None and len(args) == body["argc"] - 0 and False:
            pass
        for i, a in enumerate(args):
            st.mem[mk("l", fr.fid, i + 1)] = a
        out = self.region(fr, None, 0, [st])
        rets, unw = [], []
        for s in out.pop("ret", []):
            v = s.mem.get(mk("l", fr.fid, 0))
            if v is None:
                v = self.unit()
            self.drop_frame(s, fr)
            rets.append((s, v))
        for s in out.pop("unw", []):
            self.drop_frame(s, fr)
            unw.append(s)
        # dedupe
        seen, res = {}, []
        for s, v in rets:
            k = (s.key(), v.id)
            o = seen.get(k)
            if o is None:
                seen[k] = s
                res.append((s, v))
            else:
                self.join_facts(o, s)
        for s, _ in res:
            c0 = max(c0, s.n)
        for s in unw:
            c0 = max(c0, s.n)
        self.ctr = c0
        return res, unw

    def closed(self, v):
        """A value with no free names."""
        if v is None:
            return True
        if v.op == "int" or v.op == "uninit":
            return True
        if v.op == "agg":
            return all(self.closed(x) for x in v.a[2])
        return False

    def summary(self, st, key, args, parent):
        """Reuses the outcome of a callee that only sees objects behind opaque pointers and returns closed values.
        (The event order is what such runs are for; facts about the caller's state are not passed in.)"""
        for a in args:
            if a.op == "int":
                continue
            if a.op == "ref" and a.a[0].op == "o" and a.a[0] not in st.mem:
                continue
            if a.op in ("sym", "fld", "deref") or (a.op == "app" and a.a[0] == "arcptr"):
                t = self.tyinfo(self.typeof(a))
                if t is not None and t.get("k") == "ref":
                    continue
            return None
        k = (key, tuple(args), st.locks)
        if k in self.summaries:
            res = self.summaries[k]
        else:
            self.summaries[k] = None      # recursion: run normally
            s0 = State()
            s0.locks = st.locks
            s0.n = 0
            saved = self.ctr
            self.ctr = 0
            nd, npn = len(getattr(self, "diverged", [])), len(getattr(self, "panicked", []))
            try:
                rets, unw = self.call_body(s0, key, args, parent)
            finally:
                self.ctr = saved
            ok = all(self.closed(v) and all(r.op not in ("o", "static") for r in s.mem) for s, v in rets)
            div, pan = getattr(self, "diverged", [])[nd:], getattr(self, "panicked", [])[npn:]
            if hasattr(self, "diverged"):
                del self.diverged[nd:]
            if hasattr(self, "panicked"):
                del self.panicked[npn:]
            res = None
            if ok:
                def pack(s, v=None):
                    return (tuple(s.events()), s.locks, s.weak, v)
                res = [list(dict.fromkeys(x)) for x in ([pack(s, v) for s, v in rets], [pack(s) for s in unw],
                                                        [pack(s) for s in div], [pack(s) for s in pan])]
            self.summaries[k] = res
        if res is None:
            return None

        def unpack(p):
            s = st.clone()
            for e in p[0]:
                s.trace = mk("tr", s.trace, e)
            s.locks = p[1]
            s.weak = s.weak or p[2]
            return s
        self.diverged = getattr(self, "diverged", []) + [unpack(p) for p in res[2]]
        self.panicked = getattr(self, "panicked", []) + [unpack(p) for p in res[3]]
        return [(unpack(p), p[3]) for p in res[0]], [unpack(p) for p in res[1]]

    def drop_frame(self, s, fr):
        fid = fr.fid
        for r in [r for r in s.mem if r.op == "l" and r.a[0] == fid]:
            del s.mem[r]

    def join_facts(self, a, b):
        """a := facts common to both (what each knew is kept aside, for judging examples)."""
        if self.slim is None and not a.weak and not b.weak:
            x, y = Snap(a), Snap(b)
            if x.same(y):
                a.n = max(a.n, b.n)
                return
            g = (x, y)
            a.alts = (g,) if x.size + y.size <= 400 else ((),)
        a.lits = {k: v for k, v in a.lits.items() if b.lits.get(k) == v}
        if a.ineq != b.ineq:
            out = []
            for x in a.ineq:
                if x in b.ineq or (len(b.ineq) < 40 and self.decide(b, LE0(x)) is True):
                    out.append(x)
            for x in b.ineq:
                if x not in out and x not in a.ineq and len(a.ineq) < 40 and self.decide(a, LE0(x)) is True:
                    out.append(x)
            a.ineq = tuple(out)
        rng = {}
        for k, (lo, hi) in a.rng.items():
            blo, bhi = self.bound(b, k)
            lo = None if lo is None or blo is None else min(lo, blo)
            hi = None if hi is None or bhi is None else max(hi, bhi)
            if lo is not None or hi is not None:
                rng[k] = (lo, hi)
        a.rng = rng
        a.ne = {k: v & b.ne[k] for k, v in a.ne.items() if k in b.ne and v & b.ne[k]}
        a.n = max(a.n, b.n)
        if self.slim is not None:
            # Order rules: the joined state has the same events, so a precise witness of either is one of the join.
            a.weak = a.weak and b.weak
        elif b.weak and not a.weak:
            a.weak = b.weak

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = {}, []
        for s in states:
            k = s.key()
            o = seen.get(k)
            if o is None:
                seen[k] = s
                out.append(s)
            elif self.slim is not None or bool(o.weak) == bool(s.weak):
                self.join_facts(o, s)
            else:
                out.append(s)
        return out

    def merge(self, states):
        """Joins states that agree on trace, locks and variants by forgetting differing leaves."""
        groups = {}
        for s in states:
            k = (s.trace.id if s.trace else 0, s.locks, self.slim is None and bool(s.weak), self.shape(s))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                for r in list(a.mem):
                    if r not in b.mem:
                        del a.mem[r]
                        continue
                    a.mem[r] = self.join_val(a.mem[r], b.mem[r], None)
                self.join_facts(a, b)
            out.append(a)
        return out

    def gc(self, s):
        """Forgets unreachable heap cells and released mutex contents."""
        cand = [r for r in s.mem if r.op in ("h", "mx")]
        if not cand:
            return
        seen, todo = set(), [v for r, v in s.mem.items() if r.op not in ("h", "mx")]
        done = set()
        while todo:
            v = todo.pop()
            if v.id in done:
                continue
            done.add(v.id)
            stack = [v]
            while stack:
                x = stack.pop()
                if isinstance(x, T):
                    if x.op in ("h", "mx"):
                        if x in s.mem and x not in seen:
                            seen.add(x)
                            todo.append(s.mem[x])
                        continue
                    if x.op in ("int", "lit", "ev", "w", "sym", "fnv"):
                        continue
                    if x.id in done and x is not v:
                        continue
                    done.add(x.id)
                    stack.extend(x.a)
                elif isinstance(x, tuple):
                    stack.extend(x)
        for r in cand:
            if r not in seen:
                del s.mem[r]

    def shape(self, s):
        out = []
        for r in sorted(s.mem, key=lambda t: t.id):
            v = s.mem[r]
            if v.op == "agg":
                self._vk(v, (r.id,), out, 0)
            elif v.op in ("guard", "uninit", "it"):
                out.append((r.id, v.op))
            elif v.op == "touch":
                out.append((r.id, v.id))
            elif v.op == "int" and r.op == "l" and v.a[0] in (0, 1):
                out.append((r.id, v.a[0]))
        return tuple(out)

    def join_val(self, x, y, ty):
        if x is y:
            return x
        if x.op == "touch":
            return mk("touch", tuple(i for i in x.a[0] if i in y.a[0]))
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            fts = self.field_types(x.a[0], x.a[1]) or [None] * len(x.a[2])
            return mk("agg", x.a[0], x.a[1], tuple(self.join_val(p, q, t) for p, q, t in zip(x.a[2], y.a[2], fts)))
        if x.op == "uninit" or y.op == "uninit":
            return mk("uninit")
        return self.wsym(ty if ty is not None else self.typeof(x), "join")

    def region(self, fr, blocks, start, states, inloop=None):
        """Runs the acyclic condensation of a region; returns {exit: [states]}; exits include
        'ret', 'unw' and (for loop bodies) 'back'."""
        cfg = fr.cfg
        pending = {start: list(states)}
        exits = {}
        first = True
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            sts = pending.pop(b)
            if len(sts) > 1 or b in cfg.loops:
                live = cfg.live[b]
                for i in cfg.tracked:
                    if i not in live:
                        r = mk("l", fr.fid, i)
                        for s in sts:
                            s.mem.pop(r, None)
            if len(sts) > 1:
                for s in sts:
                    self.gc(s)
            sts = self.dedupe(sts)
            if self.mergeat and len(sts) > self.mergeat:
                sts = self.merge(sts)
            if len(sts) > self.maxstates:
                raise Stuck("too many partitions in %s" % fr.body["path"])
            if b in cfg.loops and not (inloop == b and first):
                outs = {}
                for s in sts:
                    for t, xs in self.loop(fr, b, s).items():
                        outs.setdefault(t, []).extend(xs)
                items = [(t, x) for t, xs in outs.items() for x in xs]
            else:
                items = []
                for s in sts:
                    items.extend(self.block(fr, b, s))
            first = False
            for t, s in items:
                if t in ("ret", "unw"):
                    exits.setdefault(t, []).append(s)
                elif inloop is not None and t == inloop:
                    exits.setdefault("back", []).append(s)
                elif blocks is not None and t not in blocks:
                    exits.setdefault(t, []).append(s)
                else:
                    pending.setdefault(t, []).append(s)
        return exits

    def block(self, fr, b, st):
        self.ctr = st.n
        out = self.block_(fr, b, st)
        for _, s in out:
            if s.n < self.ctr:
                s.n = self.ctr
        return out

    def block_(self, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stuck("step limit")
        blk = fr.body["blocks"][b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                if s[3]:
                    fr.loc = s[3]
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], dty)
                if not s[1][1]:
                    st.mem[mk("l", fr.fid, s[1][0])] = v
                else:
                    self.write(st, self.place(st, fr, s[1]), v)
            elif k == "dead":
                st.mem.pop(mk("l", fr.fid, s[1]), None)
            elif k == "live":
                pass
            elif k == "sd":
                loc = self.place(st, fr, s[1])
                v = self.read(st, loc)
                if v.op == "agg":
                    self.write(st, loc, mk("agg", v.a[0], s[2], v.a[2]))
                else:
                    self.write(st, loc, mk("agg", self.place_ty(fr, s[1]), s[2], ()))
            elif k == "assume":
                pass
            else:
                st.weak = st.weak or k
        t = blk["t"]
        if blk["sp"]:
            fr.loc = blk["sp"][1]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "resume":
            return [("unw", st)]
        if k in ("unreachable", "abort", "other", "tailcall"):
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "drop":
            outs = []
            for s2, unw in self.drop_place(fr, st, t[1], t[2]):
                if unw:
                    if t[4] is not None:
                        outs.append((t[4], s2))
                    else:
                        outs.append(("unw", s2))
                else:
                    outs.append((t[3], s2))
            return outs
        if k == "assert":
            return self.assertion(fr, st, t)
        if k == "call":
            return self.call(fr, st, t)
        raise Stuck("terminator " + k)

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        boolish = v.op in ("le", "eq", "not", "same", "or") or self.is_bool(t[2])
        if v.op == "int":
            n = v.a[0]
            r = self.int_range(t[2])
            for c, b in t[3]:
                c = int(c)
                if c == n or (r and r[0] < 0 and c - (r[1] - r[0] + 1) == n):
                    return [(b, st)]
            return [(t[4], st)]
        out = []
        rest = st.clone()
        for c, b in t[3]:
            c = int(c)
            if boolish:
                l, val = v, bool(c)
            else:
                r = self.int_range(t[2])
                if r and r[0] < 0 and c > r[1]:
                    c -= r[1] - r[0] + 1
                l, val = self.eqlit(rest, v, INT(c)), True
            s2 = rest.clone()
            d = self.decide(s2, l)
            if self.assume(s2, l, val):
                if d is None:
                    self.note_if(fr, s2, l, val)
                out.append((b, s2))
            d = self.decide(rest, l)
            if not self.assume(rest, l, not val):
                rest = None
                break
            if d is None:
                self.note_if(fr, rest, l, not val)
        if rest is not None:
            tb = fr.body["blocks"][t[4]]
            if tb["t"][0] != "unreachable" or tb["s"]:
                out.append((t[4], rest))
        return out

    def note_if(self, fr, st, l, val):
        if self.trace_if and self.trace_if(l):
            self.event(st, "if", (l, val), fr)

    def assertion(self, fr, st, t):
        cond = self.operand(st, fr, t[1])
        exp = bool(t[2])
        if cond.op == "int":
            d = bool(cond.a[0])
        else:
            d = self.decide(st, cond)
        ops = tuple(self.operand(st, fr, o) for o in t[4])
        out = []
        if d is None or d != exp:
            bad = st.clone()
            if d is not None or self.assume(bad, cond, not exp):
                self.panic(bad, fr, "assert:" + t[3], (cond,) + ops, d is not None)
                if self.unwind:
                    out.append((t[6] if t[6] is not None else "unw", bad))
        else:
            self.obl = getattr(self, "obl", 0) + 1
        if d is None or d == exp:
            if d is None and not self.assume(st, cond, exp):
                return out
            out.append((t[5], st))
        return out

    def drop_place(self, fr, st, pl, ty):
        loc = self.place(st, fr, pl)
        return self.drop_loc(fr, st, loc, ty, 0)

    def drop_loc(self, fr, st, loc, ty, depth):
        """Returns [(state, unwinding)]"""
        t = self.tyinfo(ty)
        if t is None or not t.get("nd"):
            return [(st, False)]
        v = self.read(st, loc)
        if v.op == "guard":
            self.unlock(fr, st, v)
            return [(st, False)]
        if v.op in ("uninit", "rope", "sr", "int", "lit", "fnv"):
            return [(st, False)]
        if t.get("k") == "adt":
            m = self.models.get("drop:" + t["path"])
            if m:
                return [(s, False) for s, _ in m(self, st, fr, None, [v], None)]
            if t.get("dropfn") and t["dropfn"] in self.p.bodies:
                r = self.ref_loc(st, loc)
                rets, unw = self.call_body(st, t["dropfn"], [r], fr)
                outs = [(s, True) for s in unw]
                for s, _ in rets:
                    outs.extend(self.drop_fields(fr, s, loc, ty, depth))
                return outs
        return self.drop_fields(fr, st, loc, ty, depth)

    def drop_fields(self, fr, st, loc, ty, depth):
        if depth > 8:
            return [(st, False)]
        t = self.tyinfo(ty)
        v = self.read(st, loc)
        sts = [(st, False)]
        if t.get("k") == "adt" and t.get("adt") == "enum":
            if v.op != "agg":
                vs = self.variants(ty)
                # only matters when some variant holds something with observable drops
                if not vs or not any(self.observable_drop(f[1], 0) for x in vs for f in x[2]):
                    return sts
                outs = []
                d = self.discr(st, v)
                for i, x in enumerate(vs):
                    s2 = st.clone()
                    if not self.assume(s2, EQ(d, INT(x[1])), True):
                        continue
                    cur = [(s2, False)]
                    for j, f in enumerate(x[2]):
                        nxt = []
                        for s3, u in cur:
                            l2 = (loc[0], loc[1], loc[2] + (("v", i), ("f", j, f[1])))
                            nxt.extend(self.drop_loc(fr, s3, l2, f[1], depth + 1) if not u else [(s3, u)])
                        cur = nxt
                    outs.extend(cur)
                return outs
            fts = self.field_types(ty, v.a[1]) or []
            pre = (("v", v.a[1]),)
        else:
            fts = self.field_types(ty, 0)
            if t.get("k") == "array":
                fts = None
            if fts is None:
                m = None
                if t.get("k") == "adt":
                    for a in t["args"]:
                        if isinstance(a, int) and self.observable_drop(a, 0):
                            self.event(st, "dropglue", (t["path"], self.tyinfo(a)["s"]), fr)
                return sts
            pre = ()
        for j, f in enumerate(fts):
            nxt = []
            for s3, u in sts:
                l2 = (loc[0], loc[1], loc[2] + pre + (("f", j, f),))
                nxt.extend(self.drop_loc(fr, s3, l2, f, depth + 1) if not u else [(s3, u)])
            sts = nxt
        return sts

    def observable_drop(self, ty, depth):
        t = self.tyinfo(ty)
        if t is None or not t.get("nd") or depth > 6:
            return False
        if t.get("k") == "adt":
            if t.get("dropfn") and t["dropfn"] in self.p.bodies:
                return True
            if t["path"].endswith(("MutexGuard", "StderrLock", "StdoutLock", "JoinHandle")):
                return True
            subs = [f[1] for v in (t.get("vars") or []) for f in v[2]] or [a for a in t["args"] if isinstance(a, int)]
            return any(self.observable_drop(x, depth + 1) for x in subs)
        if t.get("k") in ("tuple", "closure"):
            return any(self.observable_drop(x, depth + 1) for x in t["f"])
        return False

    def unlock(self, fr, st, g):
        key = g.a[0]
        l = list(st.locks)
        if key in l:
            i = len(l) - 1 - l[::-1].index(key)
            del l[i]
        st.locks = tuple(l)
        v = st.mem.get(g.a[1]) if len(g.a) > 1 else None
        known = None
        if v is not None:
            if v.op == "int":
                known = v.a[0]
            elif v in st.lits and self.is_bool(self.typeof(v)):
                known = 1 if st.lits[v] else 0
            elif (self.tyinfo(self.typeof(v)) or {}).get("path") == "std::option::Option":
                if v.op == "agg":
                    known = v.a[1]
                else:
                    none_ = self.decide(st, EQ(self.discr(st, v), ZERO))
                    known = {True: 0, False: 1}.get(none_)
        self.event(st, "unlock", (key, v, known), fr)

    # ---- calls ----
    def call(self, fr, st, t):
        line = fr.loc
        args = [self.operand(st, fr, o) for o in t[2]]
        dty = self.place_ty(fr, t[3])
        if t[1][0] == "k" and t[1][1]["v"][0] == "fn":
            info = t[1][1]["v"][1]
        else:
            f = self.operand(st, fr, t[1])
            if f.op == "fnv":
                info = self.fns[f.a[0]]
            else:
                st.weak = st.weak or "indirect call"
                info = None
        out = []
        atys = [self.op_ty(fr, o) for o in t[2]]
        if self.unwind and fr.depth == 0 and not any(self.observable_drop(a, 0) for a in atys):
            u = st.clone()
            self.event(u, "unwind", (info["name"] if info else "?",), fr)
            out.append((t[5] if t[5] is not None else "unw", u))
        rets, unw = self.dispatch(fr, st, info, args, dty, atys)
        for s, v in rets:
            fr.loc = line
            if t[4] is None:
                continue
            if v is not None:
                if not t[3][1]:
                    s.mem[mk("l", fr.fid, t[3][0])] = v
                else:
                    self.write(s, self.place(s, fr, t[3]), v)
            out.append((t[4], s))
        for s in unw:
            out.append((t[5] if t[5] is not None else "unw", s))
        return out

    def dispatch(self, fr, st, info, args, dty, atys=None):
        if info is None:
            return [(st, self.fresh(dty, "indirect"))], []
        name, path, ipath = info["name"], info["path"], info.get("ipath")
        # user overrides first
        for k in (info.get("inst"), ipath, path):
            if k is not None and k in self.overrides:
                r = self.overrides[k](self, st, fr, info, args, dty)
                if r is not NotImplemented:
                    return r, []
        inst = info.get("inst")
        if info.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and name in ("call", "call_mut", "call_once"):
            r = self.call_closure(fr, st, args[0], list(args[1].a[2]) if args[1].op == "agg" else [args[1]], dty)
            if r is not None:
                return r
        own = inst in self.p.bodies and (self.p.bodies[inst]["local"] or self.p.bodies[inst]["krate"].startswith("fyi"))
        for k in (ipath, path):
            m = self.models.get(k)
            if m is not None and not (own and k != ipath):
                r = m(self, st, fr, info, args, dty)
                if r is not NotImplemented:
                    return r, []
        if inst and inst in self.p.bodies:
            return self.call_body(st, inst, args, fr)
        r = self.generic_model(fr, st, info, args, dty)
        return r, []

    def call_closure(self, fr, st, f, args, dty):
        v = f
        if v.op == "ref":
            v = self.read(st, ("mem", v.a[0], v.a[1]))
            if v.op == "ref":
                f = v
                v = self.read(st, ("mem", v.a[0], v.a[1]))
        if v.op == "fnv":
            info = self.fns[v.a[0]]
            return self.dispatch(fr, st, info, args, dty)
        ty = self.typeof(v)
        t = self.tyinfo(ty)
        if t is not None and t.get("k") == "ref":
            t = self.tyinfo(t["e"])
        if t is not None and t.get("k") == "fndef":
            return self.dispatch(fr, st, t["fn"], args, dty)
        if t is None or t.get("k") != "closure" or t.get("inst") not in self.p.bodies:
            return None
        body = self.p.bodies[t["inst"]]
        self_ty = self.tyinfo(body["locals"][1])
        if self_ty.get("k") == "ref":
            if f.op == "ref":
                slf = f
            else:
                slf = mk("ref", self.heap(st, v, "closure"), ())
        else:
            slf = v
        return self.call_body(st, t["inst"], [slf] + args, fr)

    def generic_model(self, fr, st, info, args, dty):
        """Unknown callee: result unknown; everything reachable through &mut arguments is forgotten."""
        key = info.get("ipath") or info["path"]
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        self.event(st, "unknown", (key,), fr)
        st.weak = st.weak or "unmodelled " + key
        for a in args:
            if a.op == "ref":
                st.mem[a.a[0]] = self.fresh(self.typeof(self.read_root(st, a.a[0])), "havoc")
        t = self.tyinfo(dty)
        if t is not None and t.get("k") == "never":
            return []
        return [(st, self.fresh(dty, key))]

    # ---- loops ----
    def iteration(self, fr, head, st):
        blocks = fr.cfg.loops[head]
        out = self.region(fr, blocks, head, [st], inloop=head)
        back = self.dedupe(out.pop("back", []))
        return back, out

    def concrete_progress(self, fr, a, bs):
        """Did a fully known iterator advance?"""
        for b in bs:
            ok = False
            for r, v in a.mem.items():
                w = b.mem.get(r)
                if w is not None and w is not v and self.prog_val(v, w):
                    ok = True
                    break
            if not ok:
                return False
        return True

    def prog_val(self, v, w):
        if v.op == "it" and w.op == "it" and v.a[0] == w.a[0] and v.a[1] == w.a[1]:
            return v.a[2].op == "int" and v.a[3].op == "int" and w.a[2].op == "int" and w.a[3].op == "int" and v is not w
        if v.op == "agg" and w.op == "agg" and v.a[0] == w.a[0] and v.a[1] == w.a[1] and len(v.a[2]) == len(w.a[2]):
            return any(self.prog_val(x, y) for x, y in zip(v.a[2], w.a[2]) if x is not y)
        return False

    def loop(self, fr, head, entry):
        exits = {}

        def addx(x):
            for t, ss in x.items():
                exits.setdefault(t, []).extend(ss)

        pending = [(entry, 0)]
        total = 0
        while pending:
            s, i = pending.pop()
            total += 1
            s0 = s.clone()
            np = len(self.panics)
            back, x = self.iteration(fr, head, s.clone())
            if not back:
                addx(x)
                continue
            if (not x or self.concrete_progress(fr, s0, back)) and i < 300 and total < 3000:
                addx(x)
                pending.extend((b, i + 1) for b in back)
                continue
            # a genuinely symbolic loop: precise first iterations, then the widened whole
            unroll = self.unroll if isinstance(self.unroll, int) else self.unroll(fr)
            if unroll > 0:
                addx({t: ss for t, ss in x.items()})
                lvl = back
                for _ in range(unroll - 1):
                    nxt = []
                    for b in lvl:
                        b2, x2 = self.iteration(fr, head, b.clone())
                        addx(x2)
                        nxt.extend(b2)
                    lvl = self.dedupe(nxt)
                    if len(lvl) > 200:
                        break
            if self.precise_only:
                continue
            addx(self.widen(fr, head, s0, back if unroll > 0 else ()))
        return exits

    # -- widening --
    def variant_key(self, base, s):
        """Partition key: variants of enum-valued leaves that are aggregates."""
        out = []
        for r in base:
            v = s.mem.get(r)
            if v is not None:
                self._vk(v, (r.id,), out, 0)
        return tuple(out)

    def _vk(self, v, path, out, d):
        if v.op != "agg" or d > 6:
            return
        t = self.tyinfo(v.a[0])
        if t is not None and t.get("adt") == "enum":
            out.append(path + (v.a[1],))
        for i, x in enumerate(v.a[2][:16]):
            self._vk(x, path + (i,), out, d + 1)

    def widen(self, fr, head, entry, first=()):
        where = (fr.body["path"], (fr.body["blocks"][head]["sp"] or [None, fr.loc])[1])
        rec = LoopRec(where)
        recT = mk("looprec", rec)
        rec.entry = entry.clone()
        ev = Event("loop", (rec,), where, ())
        entry_trace = entry.trace
        entry = entry.clone()
        if not self.canon_loops and (self.keep is None or self.keep("loop", (rec,))):
            entry.trace = mk("tr", entry.trace, ev)
        entry.weak = entry.weak or "loop %s:%s" % where
        marker = entry.trace
        entry.wm = self.n
        base = list(entry.mem)
        widened = {}   # (partition, root, path) -> info
        heads = {}
        collapse = False

        def pkey(s):
            return () if collapse else self.variant_key(base, s)

        def norm(s):
            s = s.clone()
            for r in list(s.mem):
                if r not in entry.mem:
                    del s.mem[r]
            s.trace = marker
            s.weak = s.weak or entry.weak
            s.locks = entry.locks if s.locks == entry.locks else s.locks
            return s

        np = len(self.panics)
        k0 = pkey(entry)
        heads[k0] = entry.clone()
        work = [k0]
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60:
                raise Stuck("loop does not stabilise at %s:%s" % where)
            k = work.pop(0)
            del self.panics[np:]
            backs, _ = self.iteration(fr, head, heads[k].clone())
            for b in backs:
                nb = norm(b)
                kb = pkey(nb)
                if kb not in heads:
                    if len(heads) >= 8:
                        collapse = True
                        heads.clear()
                        widened.clear()
                        heads[()] = entry.clone()
                        work = [()]
                        break
                    heads[kb] = nb
                    work.append(kb)
                    continue
                ch = self.generalise(fr, heads[kb], nb, kb, widened)
                if ch and kb not in work:
                    work.append(kb)
        # exact linear equalities over the transition system
        trans = self.transitions(fr, head, heads, pkey, norm)
        eqs = self.equalities(entry, k0, heads, widened, trans)
        for k, subs in eqs.items():
            self.apply_eqs(heads[k], subs)
        # inductive inequalities
        cands = self.ineq_candidates(entry, k0, heads, widened, trans, eqs)
        trans = None
        for _ in range(6):
            hs = {k: h.clone() for k, h in heads.items()}
            for k, cs in cands.items():
                for c in cs:
                    self.assume(hs[k], LE0(c[0]), True)
            del self.panics[np:]
            trans = self.transitions(fr, head, hs, pkey, norm)
            bad = False
            for (kq, s, kp) in [(None, entry, k0)] + trans:
                keep = []
                for c in cands.get(kp, ()):
                    g = self.instantiate(c, s)
                    if g is not None and self.decide(s, LE0(g)) is True:
                        keep.append(c)
                    else:
                        bad = True
                cands[kp] = keep
            if not bad:
                break
        else:
            cands = {}
            hs = {k: h.clone() for k, h in heads.items()}
        # final run
        del self.panics[np:]
        exits = {}
        rec.backs = []
        rec.first = [(entry, b, b.events(entry_trace)) for b in first]
        for k, h in hs.items():
            h = h.clone()
            rec.heads.append(h.clone())
            back, x = self.iteration(fr, head, h)
            for b in back:
                rec.backs.append((rec.heads[-1], b, b.events(marker)))
            for t, ss in x.items():
                exits.setdefault(t, []).extend(ss)
        rec.eqs = eqs
        rec.cands = cands
        rec.marker = marker
        if self.canon_loops:
            subs = frozenset(tuple(evs) for _h, _b, evs in rec.backs if evs)
            if subs:
                k = ("loop", where, subs, frozenset((b.weak is None, tuple(evs)) for _h, b, evs in rec.first))
                e = self.evkeys.get(k)
                if e is None:
                    e = self.evkeys[k] = ev
                for ss in exits.values():
                    for x in ss:
                        t = mk("tr", marker, e)
                        for y in x.events(marker):
                            t = mk("tr", t, y)
                        x.trace = t
        return exits

    def transitions(self, fr, head, heads, pkey, norm):
        out = []
        for k, h in heads.items():
            backs, _ = self.iteration(fr, head, h.clone())
            for b in backs:
                nb = norm(b)
                out.append((k, nb, pkey(nb)))
        return out

    def leaf_ty(self, fr, root):
        if root.op == "o":
            return root.a[1]
        return None

    def root_type(self, fr, root):
        if root.op == "l":
            f = fr
            while f is not None:
                if f.fid == root.a[0]:
                    return f.body["locals"][root.a[1]]
                f = f.parent
        if root.op == "o":
            return root.a[1]
        return None

    def generalise(self, fr, h, b, k, widened):
        changed = False
        for r in list(h.mem):
            if r not in b.mem:
                del h.mem[r]
                changed = True
                continue
            x, y = h.mem[r], b.mem[r]
            if x is y:
                continue
            v = self.gen(x, y, self.root_type(fr, r), (k, r), widened)
            if v is not x:
                h.mem[r] = v
                changed = True
        # facts: keep only those also true on the incoming edge
        n0 = (len(h.lits), h.ineq, dict(h.rng), len(h.ne))
        n = h.n
        self.join_facts(h, b)
        h.n = n
        if (len(h.lits), h.ineq, h.rng, len(h.ne)) != n0:
            changed = True
        if h.locks != b.locks:
            h.weak = h.weak or "lock imbalance"
        return changed

    def gen(self, x, y, ty, path, widened):
        """Least generalisation of the leaves x (head) and y (incoming)."""
        if x is y:
            return x
        if x.op == "touch":
            return mk("touch", tuple(i for i in x.a[0] if i in y.a[0]))
        w = widened.get(path)
        if w is not None:
            kind, sym, pre = w
            if kind == "rope":
                if y.op == "rope" and y.a[:len(pre)] == pre:
                    return x
                if pre:
                    # shorten the common prefix
                    n = 0
                    ya = y.a if y.op == "rope" else ()
                    while n < len(pre) and n < len(ya) and pre[n] is ya[n]:
                        n += 1
                    pre = pre[:n]
                    sym = self.wsym("rope", "rope")
                    widened[path] = ("rope", sym, pre)
                    return rope(*(pre + (whole(sym).a)))
                return x
            return x
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            fts = self.field_types(x.a[0], x.a[1]) or [None] * len(x.a[2])
            return mk("agg", x.a[0], x.a[1], tuple(self.gen(p, q, t, path + (i,), widened) for i, (p, q, t) in enumerate(zip(x.a[2], y.a[2], fts))))
        if x.op == "it" and y.op == "it" and x.a[0] == y.a[0] and x.a[1] is y.a[1] and len(x.a) == len(y.a):
            return mk("it", x.a[0], x.a[1], *[self.gen(p, q, "nat", path + (i,), widened) if isinstance(p, T) else p for i, (p, q) in enumerate(zip(x.a[2:], y.a[2:]))])
        if x.op == "rope" and y.op == "rope":
            n = 0
            while n < len(x.a) and n < len(y.a) and x.a[n] is y.a[n]:
                n += 1
            pre = x.a[:n]
            sym = self.wsym("rope", "rope")
            widened[path] = ("rope", sym, pre)
            return rope(*(pre + whole(sym).a))
        num = ("int", "lin", "len", "len8", "discr", "byte", "optlen")
        t = ty
        if t is None:
            t = self.typeof(x)
            if t is None:
                t = self.typeof(y)
        isnum = lambda z: z.op in num or self.typeof(z) == "nat" or self.int_range(self.typeof(z))
        if isnum(x) and isnum(y):
            if t is None:
                t = "nat"
            sym = self.wsym(t, "num")
            widened[path] = ("num", sym, None)
            return sym
        sym = self.wsym(t, "any")
        widened[path] = ("any", sym, None)
        return sym

    # -- linear invariants --
    def leaf_value(self, s, path):
        """Value at a leaf path ((partition, root), i, j…) in state s, descending aggregates/iterators."""
        k, r = path[0], path[1]
        v = s.mem.get(r)
        for i in path[2:]:
            if v is None:
                return None
            if v.op == "agg":
                if i >= len(v.a[2]):
                    return None
                v = v.a[2][i]
            elif v.op == "it":
                v = v.a[2 + i]
            else:
                return None
        return v

    def measures(self, k, heads, widened):
        """Numeric measures at partition k: list of (name, head term, fn(state)->term or None)."""
        out = []
        for path, (kind, sym, pre) in widened.items():
            if path[0] != k:
                continue
            if kind == "num":
                out.append((("num", path), sym, lambda s, path=path: self.leaf_value(s, path)))
                if self.is_char(self.typeof(sym)):
                    out.append((("len8", path), len8(sym), lambda s, path=path: self._len8(self.leaf_value(s, path))))
            elif kind == "rope":
                def f(s, path=path, pre=pre):
                    v = self.leaf_value(s, path)
                    if v is None or v.op != "rope":
                        return None
                    return rope_len(rope(*v.a[len(pre):]))
                out.append((("rope", path), mk("len", sym), f))
            elif kind == "any" and self.is_optchar(self.typeof(sym)):
                out.append((("opt", path), mk("optlen", sym), lambda s, path=path: self._optlen(s, self.leaf_value(s, path))))
        # chars inside partitioned variants that were not widened
        return out

    def _len8(self, v):
        return None if v is None else len8(v)

    def _optlen(self, s, v):
        return None if v is None else self.optlen(s, v)

    def is_char(self, ty):
        t = self.tyinfo(ty)
        return t is not None and t.get("k") == "char"

    def is_optchar(self, ty):
        t = self.tyinfo(ty)
        if t is None or t.get("k") != "adt" or not t["path"].endswith("option::Option"):
            return False
        a = t["args"][0]
        return self.is_char(a)

    def equalities(self, entry, k0, heads, widened, trans):
        """All linear equalities among measures that hold at every head, by solving one linear system."""
        ms = {k: self.measures(k, heads, widened) for k in heads}
        cols = []
        idx = {}
        for k in heads:
            for i, m in enumerate(ms[k]):
                idx[("c", k, i)] = len(cols)
                cols.append(("c", k, i))
        if not cols:
            return {}
        nonstable = set(m[1] for k in heads for m in ms[k])
        edges = [(None, entry, k0)] + trans
        rows_src = []
        stable = set()
        for kq, s, kp in edges:
            vals = []
            for m in ms[kp]:
                v = m[2](s)
                if v is None or v.op in ("agg", "ref", "rope", "uninit"):
                    vals.append(None)
                else:
                    vals.append(self.simp(s, v))
            rows_src.append((kq, kp, vals, s))
        allatoms = set()
        for kq, kp, vals, s in rows_src:
            for v in vals:
                if v is not None:
                    allatoms |= set(x for x, _ in lin_parts(v)[0])
        # stable: atoms occurring in entry values (and the constant)
        ent_atoms = set()
        for v in rows_src[0][2]:
            if v is not None:
                ent_atoms |= set(x for x, _ in lin_parts(v)[0])
        stable = ent_atoms - nonstable
        # atoms that existed before the loop
        for k in heads:
            for a in [None] + sorted(stable, key=lambda t: t.id):
                idx[("d", k, a)] = len(cols)
                cols.append(("d", k, a))
        n = len(cols)
        rows = []
        for kq, kp, vals, s in rows_src:
            coords = {}

            def put(coord, col, q):
                coords.setdefault(coord, {})
                coords[coord][col] = coords[coord].get(col, 0) + q

            for i, v in enumerate(vals):
                col = idx[("c", kp, i)]
                if v is None:
                    # unusable measure: force its coefficient to zero
                    put(("zero", kp, i), col, 1)
                    continue
                items, c = lin_parts(v)
                put(None, col, c)
                for x, q in items:
                    put(x, col, q)
            for a in [None] + list(stable):
                put(a, idx[("d", kp, a)], 1)
            if kq is not None:
                for i, m in enumerate(ms[kq]):
                    h = self.simp(s, m[1])
                    items, c = lin_parts(h)
                    col = idx[("c", kq, i)]
                    put(None, col, -c)
                    for x, q in items:
                        put(x, col, -q)
                for a in [None] + list(stable):
                    put(a, idx[("d", kq, a)], -1)
            for coord, row in coords.items():
                r = [0] * n
                for col, q in row.items():
                    r[col] = q
                if any(r):
                    rows.append(r)
        basis = lin.null_space(rows, n)
        eqs = {k: [] for k in heads}
        for vec in basis:
            for k in heads:
                l = ZERO
                nz = False
                for i, m in enumerate(ms[k]):
                    q = vec[idx[("c", k, i)]]
                    if q:
                        nz = True
                        l = add(l, scale(m[1], q))
                for a in [None] + list(stable):
                    q = vec[idx[("d", k, a)]]
                    if q:
                        l = addc(l, q) if a is None else add(l, scale(a, q))
                if nz and l.op != "int":
                    eqs[k].append(l)
        return eqs

    def apply_eqs(self, h, eqs):
        for l in eqs:
            l = self.simp(h, l)
            items, c = lin_parts(l)
            # substitute a plain numeric leaf with unit coefficient when possible
            cand = [x for x, q in items if abs(q) == 1 and x.op == "w" and x.a[2] == "num" and not self.is_char(self.typeof(x))]
            cand.sort(key=lambda x: (x.a[1] == "nat", -x.id))
            self.assume(h, EQ0(l), True)
            if cand:
                x = cand[0]
                q = dict(items)[x]
                val = scale(add(l, scale(x, -q)), -1 if q == 1 else 1)
                for r in list(h.mem):
                    h.mem[r] = self.subst(h.mem[r], x, val)

    def subst(self, v, x, val, d=0):
        if v is x:
            return val
        if d > 12:
            return v
        o = v.op
        if o == "lin":
            items = dict(v.a[1])
            if x in items:
                q = items.pop(x)
                return add(lin_make(items, v.a[0]), scale(val, q))
            return v
        if o == "agg":
            return mk("agg", v.a[0], v.a[1], tuple(self.subst(y, x, val, d + 1) for y in v.a[2]))
        if o == "it":
            return mk("it", v.a[0], v.a[1], *[self.subst(y, x, val, d + 1) if isinstance(y, T) else y for y in v.a[2:]])
        if o == "rope":
            return rope(*[self.subst(y, x, val, d + 1) for y in v.a])
        if o == "sub":
            return mk("sub", v.a[0], self.subst(v.a[1], x, val, d + 1), self.subst(v.a[2], x, val, d + 1))
        if o == "sr":
            return mk("sr", self.subst(v.a[0], x, val, d + 1))
        return v

    def ineq_candidates(self, entry, k0, heads, widened, trans, eqs):
        """Candidate inductive inequalities per partition: (term over head symbols, [(sym, fn)])."""
        out = {k: [] for k in heads}
        edges = [(None, entry, k0)] + trans
        for k in heads:
            ms = [m for m in self.measures(k, heads, widened) if m[0][0] in ("num", "rope")]
            if not ms:
                continue
            seen = set()

            def cand(t):
                if t.op == "int" or t in seen:
                    return
                seen.add(t)
                out[k].append((t, [(m[1], m[2]) for m in ms]))

            headatoms = set(m[1] for kk in heads for m in self.measures(kk, heads, widened))
            inc = [s for kq, s, kp in edges if kp == k]
            for m in ms:
                x = m[1]
                for s in inc[:2]:
                    v = m[2](s)
                    if v is None or v.op in ("agg", "ref", "rope", "uninit"):
                        continue
                    v = self.simp(s, v)
                    at = set(y for y, _ in lin_parts(v)[0])
                    if not at & headatoms and all(self.is_stable(y, entry) for y in at):
                        cand(sub(v, x))
                        cand(sub(x, v))
            # bounds suggested by facts on the incoming edges
            for s in inc:
                fs = list(s.ineq)
                for a, (lo, hi) in s.rng.items():
                    if hi is not None:
                        fs.append(addc(a, -hi))
                    if lo is not None:
                        fs.append(addc(scale(a, -1), lo))
                for m in ms:
                    v = m[2](s)
                    if v is None or v.op in ("int", "agg", "ref", "rope", "uninit"):
                        continue
                    v = self.simp(s, v)
                    va = lin_parts(v)[0]
                    if not va:
                        continue
                    for f in fs:
                        fd = dict(lin_parts(f)[0])
                        if va[0][0] not in fd:
                            continue
                        q = fd[va[0][0]] // va[0][1] if fd[va[0][0]] % va[0][1] == 0 else 0
                        if not q:
                            continue
                        rest = add(f, scale(v, -q))
                        if all(self.is_stable(y, entry) for y, _ in lin_parts(rest)[0]):
                            cand(add(rest, scale(m[1], q)))
                        else:
                            # a second leaf may absorb the remainder
                            for m2 in ms:
                                if m2 is m:
                                    continue
                                v2 = m2[2](s)
                                if v2 is None or v2.op in ("int", "agg", "ref", "rope", "uninit"):
                                    continue
                                v2 = self.simp(s, v2)
                                a2 = lin_parts(v2)[0]
                                rd = dict(lin_parts(rest)[0])
                                if a2 and a2[0][0] in rd and rd[a2[0][0]] % a2[0][1] == 0:
                                    q2 = rd[a2[0][0]] // a2[0][1]
                                    rest2 = add(rest, scale(v2, -q2))
                                    if all(self.is_stable(y, entry) for y, _ in lin_parts(rest2)[0]):
                                        cand(add(add(rest2, scale(m[1], q)), scale(m2[1], q2)))
            # iterators never pass their end
            h = heads[k]
            for r, v in h.mem.items():
                self.iter_cands(v, cand)
            out[k] = out[k][:40]
        return out

    def iter_cands(self, v, cand):
        if v.op == "it" and v.a[2].op in ("w", "lin") :
            cand(sub(v.a[2], v.a[3]))
        elif v.op == "agg":
            for x in v.a[2]:
                self.iter_cands(x, cand)

    def is_stable(self, a, entry):
        """Atoms whose meaning does not depend on the iteration."""
        for x in atoms(a):
            if x.op == "w" and x.a[0] > entry.wm:
                return False
            if x.op == "ev" and x.a[0] > entry.n:
                return False
        return True

    def instantiate(self, c, s):
        t = c[0]
        for sym, fn in c[1]:
            items = dict(lin_parts(t)[0])
            if sym in items:
                v = fn(s)
                if v is None or v.op in ("agg", "ref", "rope", "uninit"):
                    return None
                t = add(add(t, scale(sym, -items[sym])), scale(self.simp(s, v), items[sym]))
        return t
