"""The bar, on every path of the tick that draws it anew: in the line it is part of, all columns -- the fixed text, the
counts, the percentage, the clock and both segments -- add up to exactly the terminal width, as symbolic terms; nothing
is filled when nothing is done, nothing is left unfilled when everything is; no arithmetic or assertion on the way can
fail.  The counter is taken as any pair done <= total (P15, P16), the width as any byte.  Quotients are bounded by the
lemma (x*y)/z <= y for x <= z.  A goal that is not proved is reported only with values of done, total and width that
satisfy every condition of the path and falsify it."""
import json
import re

from .. import build, par
from ..frame import *
from ..witness import conditions
from .p21 import buffer_unlocks

ANSI = re.compile(rb"\x1b\[[0-9;]*[A-Za-z]")
FILL = 12


def bar_seg(g):
    """A run of one and the same visible character of computed length."""
    if g.op == "sub" and g.a[0].op == "lit" and len(g.a[0].a[0]) >= FILL and len(set(g.a[0].a[0])) == 1 and g.a[0].a[0][0] > 32:
        return g.a[0].a[0][:1]
    if g.op == "rep":
        t = g.a[0].a[0] if g.a[0].op == "lit" else rope_lit(g.a[0]) if g.a[0].op == "rope" else None
        if t is not None and len(t) == 1 and t[0] > 32:
            return t
    if g.op == "lit" and len(g.a[0]) >= FILL and len(set(g.a[0])) == 1 and g.a[0][0] > 32:
        return g.a[0][:1]
    return None


def bars(segs):
    return [(i, g) for i, g in enumerate(segs) if bar_seg(g)]


def plain(g, c):
    """How often the character is drawn as part of fixed text."""
    return ANSI.sub(b"", g.a[0]).count(c) if g.op == "lit" else 0


def size(g):
    if g.op == "sub":
        return sub(g.a[2], g.a[1])
    if g.op == "rep":
        return g.a[1]
    return INT(len(g.a[0]))


def kept(segs):
    return [g.a[0] for g in segs if g.op == "sub" and g.a[0].op == "fld" and g.a[0].a[0].op == "ev"]


def leaf_text(b):
    return b.op == "app" and b.a[0] == "nice" or b.op == "fld"


class Line:
    """The line of a frame that the bar is part of: its width in columns as a term."""

    def __init__(self, E, s, segs, titles):
        self.cols, self.why = ZERO, None
        self.pieces = []
        for g in segs:
            if g.op == "lit":
                if b"\n" in g.a[0]:
                    self.cols, self.pieces = ZERO, []
                    continue
                t = ANSI.sub(b"", g.a[0]).replace(b"\r", b"")
                if b"\x1b" in t:
                    self.why = "an unknown escape sequence in %s" % show(g)
                    return
                try:
                    self.cols = add(self.cols, INT(len(t.decode())))
                except UnicodeDecodeError:
                    self.why = "broken text in %s" % show(g)
                    return
            elif bar_seg(g):
                self.cols = add(self.cols, size(g))
            elif g.op == "sub":
                b = g.a[0]
                if b.op == "fld" and b.a[2] in titles[0]:
                    self.cols, self.pieces = ZERO, []      # a title: ends its own line (P30)
                    continue
                if b.op == "fld" and b.a[2] in titles[1]:
                    break                                   # the tasks: every one starts a new line (P21)
                if b.op == "app" and b.a[0] == "idx" or b.op == "idx":
                    break
                if b.op == "fld" and b.a[2] in titles[2]:
                    self.cols = add(self.cols, INT(8))      # a clock
                elif b.op == "app" and b.a[0] == "nice":
                    self.cols = add(self.cols, INT(8) if clock(E, b) else mk("len", b))
                elif b.op == "fld":
                    self.cols = add(self.cols, mk("len", b))
                elif b.op == "app" and str(b.a[0]).startswith("msg:"):
                    continue                                # (part of the title: its line break follows)
                else:
                    self.why = "a part whose width is not known: %s" % show(g)[:120]
                    return
            else:
                self.why = "a part whose width is not known: %s" % show(g)[:120]
                return


def clock(E, b):
    t = E.tyinfo(b.a[1]) if len(b.a) > 1 else None
    return t is not None and "Clock" in str(t.get("path", ""))


def field_roles(E, r):
    """Fields of the frame buffer: (titles, tasks, clocks) by type, as found in the value left behind."""
    for s, v in r:
        for name, val in buffer_unlocks(E, s):
            fts = E.field_types(val.a[0], -1)
            if not fts:
                continue
            order = []
            for e, rp in painted(E, s):
                for g in pieces(E, s, rp) or () if rp is not None else ():
                    if g.op == "sub" and g.a[0].op == "fld" and g.a[0].a[0].op == "ev":
                        order.append(g.a[0].a[2])
            paths = [str((E.tyinfo(t) or {}).get("path", "")) for t in fts]
            clocks = {i for i, p in enumerate(paths) if "Clock" in p}
            if len(order) > 2 and clocks & set(order):
                vec = [i for i in order if "Vec" in paths[i] or "String" in paths[i]]
                k = order.index(next(i for i in order if i in clocks))
                return {i for i in vec if order.index(i) < k}, {i for i in vec if order.index(i) > k}, clocks
    return None


def lemmas(E, st, w, extra=()):
    """Facts every real state satisfies."""
    seen = set()
    for _ in range(3):
        fresh = False
        for t in atoms_in(st, extra):
            if t in seen:
                continue
            seen.add(t)
            fresh = True
            if t.op == "ev" and t.a[2] == "atomic:" + w.done:
                lo, hi = counts(E, t)
                if E.assume(st, LE(hi, lo), True) is False:
                    return False
            if t.op == "app" and t.a[0] == "mul":
                x, y = t.a[2], t.a[3]
                if E.decide(st, LE(ZERO, x)) is True and E.decide(st, LE(ZERO, y)) is True:
                    hx, hy = E.lin_bound(st, x)[1], E.lin_bound(st, y)[1]
                    if hx is not None and hy is not None and E.assume(st, LE(t, INT(hx * hy)), True) is False:
                        return False
            if t.op == "app" and t.a[0] == "div":
                n, z = t.a[2], t.a[3]
                if n.op == "app" and n.a[0] == "mul":
                    for x, y in ((n.a[2], n.a[3]), (n.a[3], n.a[2])):
                        if E.decide(st, LE(x, z)) is True and E.decide(st, LE(ZERO, y)) is True:
                            if E.assume(st, LE(t, y), True) is False:
                                return False
        if not fresh:
            break
    fs = list(st.ineq)
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            x = add(f, g)
            if x.op == "int" and x.a[0] > 0:
                return False
    return True


def counts(E, t):
    return mk("app", "band", t.a[1], t, INT(M32)), mk("app", "shr", t.a[1], t, INT(32))


def atoms_in(st, extra):
    out, todo = set(), [t for t, _ in conditions(st)] + list(extra)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        todo.extend(x.a)
    return sorted(out, key=lambda t: (t.op != "ev", t.op == "app" and t.a[0] == "div", str(t)))


PAIRS = [(0, 1), (1, 2), (1, 3), (3, 7), (9, 10), (99, 100), (10, 1000), (999, 1000), (1, 65536), (65535, 65536), (40000, 70000), (255, 256), (1 << 20, 1 << 24),
         (16843009, 16843010), (20000000, 33686018), (90000000, 100000000), (1 << 31, M32), (M32 - 1, M32), (1, M32), (33686018, M32), (0, M32), (1, 1), (100, 100), (70000, 70000), (M32, M32), (9, 11), (9999, 30000)]
SIZES = [(w, 24) for w in (10, 39, 40, 41, 42, 50, 60, 79, 80, 120, 200, 254, 255)] + [(90, 130)]


def nice(n):
    return format(n, ",").encode()


def percent(d, t):
    return b"%.2f%%" % (100.0 * d / t)


class Envs:
    def __init__(self, E, s, w, width, roles, extra=()):
        self.E, self.s, self.w = E, s, w
        self.width = width
        self.all = atoms_in(s, extra)
        self.roles = roles

    def rest(self, wd, ht=24):
        """The cached size the width is part of, and its other byte."""
        b = self.width.a[3] if self.width.a[3].op == "ev" else self.width.a[2]
        out = {b: wd << 8 * self.w.col | ht << 8 - 8 * self.w.col}
        for t in self.all:
            if t.op == "app" and t.a[0] == "lebyte" and t is not self.width and b in t.a:
                out[t] = ht
        return out

    def each(self, shown):
        evs = [t for t in self.all if t.op == "ev" and t.a[2] == "atomic:" + self.w.done]
        if len(evs) != 1:
            return
        flds = [t for t in self.all if t.op == "fld" and t.a[0].op == "ev"]
        nices = [t for t in self.all if t.op == "app" and t.a[0] == "nice"]
        for d, t in PAIRS:
            for wd, ht in SIZES:
                env = {evs[0]: d << 32 | t, self.width: wd}
                env.update(self.rest(wd, ht))
                lo, hi = counts(self.E, evs[0])
                env[lo], env[hi] = t, d
                ok = True
                for b in nices:
                    if b.a[0] != "nice":
                        continue
                    if clock(self.E, b):
                        env[b] = b"00:00:01"
                        continue
                    try:
                        env[b] = nice(strev.iev(b.a[2], env, self.E))
                    except strev.Unknown:
                        env[b] = percent(d, t)
                for b in flds:
                    v = self.roles.get(b.a[2])
                    if v is None or v == "empty":
                        continue
                    if b in shown:
                        env[b] = {"done": nice(d), "total": nice(t), "percent": percent(d, t), "clock": b"00:00:01"}[v]
                    else:
                        env[b] = {"done": b"0", "total": b"1", "percent": b"0.00%", "clock": b"00:00:00"}[v]
                yield d, t, wd, env


def texts(E, r, w, roles3):
    """What each field of the buffer shows, from the paths that rewrite it."""
    out = {}
    for i in roles3[0] | roles3[1]:
        out[i] = "empty"
    for i in roles3[2]:
        out[i] = "clock"
    for s, v in r:
        for name, val in buffer_unlocks(E, s):
            for i, x in enumerate(val.a[2]):
                x = x.a[0] if x.op == "sr" else x
                if x.op != "rope":
                    try:
                        x = E.as_rope(s, x)
                    except Exception:
                        continue
                if x is None or x.op != "rope" or len(x.a) != 1 or x.a[0].op != "sub":
                    continue
                b = x.a[0].a[0]
                if b.op != "app" or b.a[0] != "nice" or clock(E, b):
                    continue
                n = b.a[2]
                evs = [a for a in atoms_of(n) if a.op == "ev" and a.a[2] == "atomic:" + w.done]
                if not evs:
                    if n.op == "int":
                        continue
                    out.setdefault(i, "percent")
                    continue
                lo, hi = counts(E, evs[0])
                if n is lo:
                    out[i] = "total"
                elif n is hi:
                    out[i] = "done"
                elif i not in out:
                    out[i] = "percent"
    return out


def atoms_of(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T):
            out.append(x)
            todo.extend(x.a)
    return out


def job(ctx, flags, cfg, key, bit, names, roles3, what, kset):
    t, r, E = rerun(cfg, key, bit, names, flags)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick for requests %#x: %s" % (flags, list(t.p.stuck.values())[:1]))
        return
    w = t.w
    for s, v in r:
        for e, rp in painted(E, s):
            if rp is None:
                continue
            segs = pieces(E, s, rp)
            if segs is None:
                continue
            judge(ctx, E, s, e, segs, w, roles3, what, kset, flags)
    for st, kind, detail, where, certain in E.panics:
        if where is None or not mine(kind, detail, st, w):
            continue
        ctx.count("checks")
        st2 = st.clone()
        if lemmas(E, st2, w, detail if isinstance(detail, tuple) else ()) is False:
            ctx.ok("%s:%s: cannot fail" % where)
            continue
        width = width_atom(E, st, w)
        bad = None
        if width is not None and st.weak is None:
            en = Envs(E, st, w, width, what)
            for d, tt, wd, env in en.each(set()):
                if strev.consistent(st, env, E) is True:
                    bad = (d, tt, wd)
                    break
        ctx.oblige(False if bad else None, "fails|%s:%s" % where, "%s:%s: %s%s" % (
            where + (kind, " with %d of %d done on a terminal %d columns wide" % bad if bad else " (not excluded)")))


def mine(kind, detail, st, w):
    """Failures that depend on the counter and come from arithmetic, slicing or an assertion."""
    return any(t.op == "ev" and t.a[2] == "atomic:" + w.done for t in atoms_in(st, detail if isinstance(detail, tuple) else ()))


def width_atom(E, s, w):
    """The columns of the terminal: the byte of the cached size they are stored in."""
    for e in s.events():
        if e.kind == "aload" and "size" in str(e.args[0]):
            ev = e.args[1]
            return next((t for t in atoms_in(s, ()) if t.op == "app" and t.a[0] == "lebyte" and ev in t.a and t.a[-1] is INT(w.col)), None)
    return None


def judge(ctx, E, s, e, segs, w, roles3, what, kset, flags):
    bs = bars(segs)
    if not bs and not any(g.op == "sub" and leaf_text(g.a[0]) for g in segs):
        return
    clocks = [g for g in segs if g.op == "sub" and (g.a[0].op == "fld" and g.a[0].a[0].op == "ev" and g.a[0].a[2] in roles3[2] or g.a[0].op == "app" and g.a[0].a[0] == "nice" and clock(E, g.a[0]))]
    if not clocks:
        ctx.count("short frames")
        return
    old = {b.a[2] for b in kept(segs)}
    if not bs and not old <= kset:
        ctx.count("kept bars")
        return
    ctx.count("frames")
    width = width_atom(E, s, w)
    where = "%s, requests %#x" % (loc(e), flags)
    if width is None:
        ctx.undecide("width|%s" % e.loc[0], "%s: the terminal width is not known" % where)
        return
    st = s.clone()
    if lemmas(E, st, w, tuple(segs)) is False:
        return
    evs = [t for t in atoms_in(s, tuple(segs)) if t.op == "ev" and t.a[2] == "atomic:" + w.done]
    if len(evs) != 1:
        ctx.undecide("counter|%s" % e.loc[0], "%s: the counter is read %d times" % (where, len(evs)))
        return
    lo, hi = counts(E, evs[0])
    ln = Line(E, st, segs, roles3)
    goals = []
    if bs:
        if ln.why:
            ctx.undecide("line|%s" % e.loc[0], "%s: %s" % (where, ln.why))
            return
        goals.append(("columns", "the line with the bar is %s columns wide, the terminal %s" % (show(E.resimp(st, ln.cols)), show(width)),
                      E.resimp(st, sub(ln.cols, width)) is ZERO or E.decide(st, EQ(ln.cols, width)) is True))
    # the kind of the first segment when both are drawn
    filled = [g for i, g in bs if bar_seg(g) == what.get("full")]
    empty = [g for i, g in bs if bar_seg(g) == what.get("rest")]
    for g, cond, name in [(x, EQ(hi, ZERO), "filled|nothing done") for x in filled] + [(x, EQ(hi, lo), "left|everything done") for x in empty]:
        s2 = st.clone()
        if E.assume(s2, cond, True) is False:
            continue
        n = E.resimp(s2, size(g))
        goals.append((name, "%s cells are %s when %s" % (show(n), "filled" if name[0] == "f" else "left unfilled", "nothing is done" if name[0] == "f" else "everything is done"),
                      n is ZERO or E.decide(s2, EQ(n, ZERO)) is True))
    bad = None
    shown = set(kept(segs))
    for d, t, wd, env in Envs(E, s, w, width, what, tuple(segs)).each(shown):
        ok = strev.consistent(s, env, E)
        if ok is not True:
            continue
        try:
            cols = strev.iev(ln.cols, env, E)
            f = sum(strev.iev(size(g), env, E) for g in filled) + sum(plain(g, what["full"]) for g in segs if not bar_seg(g))
            o = sum(strev.iev(size(g), env, E) for g in empty) + sum(plain(g, what["rest"]) for g in segs if not bar_seg(g))
        except strev.Unknown:
            continue
        ctx.count("examples")
        room = wd - (cols - f - o)
        if bs and cols != wd:
            bad = ("columns", d, t, wd, "the line is %d columns wide" % cols)
        elif f and d == 0:
            bad = ("filled", d, t, wd, "%d cells are filled" % f)
        elif o and d == t:
            bad = ("left", d, t, wd, "%d cells are left unfilled" % o)
        elif f + o == 0 and room >= 3 * FILL:
            bad = ("missing", d, t, wd, "no bar is drawn although there is room for %d cells" % room)
        elif (f or o) and abs(f * t - d * (f + o)) > t:
            bad = ("share", d, t, wd, "%d of %d cells are filled" % (f, f + o))
        if bad:
            break
    if bad:
        ctx.oblige(None if s.weak else False, "%s|%s" % (bad[0], e.loc[0]), "%s: with %d of %d done on a terminal %d columns wide, %s" % (where, bad[1], bad[2], bad[3], bad[4]))
        return
    for name, text, good in goals:
        ctx.oblige(True if good else None, "%s|%s" % (name, e.loc[0]), "%s: %s" % (where, text), "%s: %s" % (where, text))
    if not bs:
        ctx.ok()


def rerun(cfg, key, bit, names, flags, unroll=0):
    t = Tick.__new__(Tick)
    t.cfg = cfg
    t.w = type("W", (), {"flags": names[0], "done": names[1], "col": names[2], "bit": bit})()
    t.body = Prog(cfg).P.bodies[key]
    r, E = t.run(flags, unroll)
    return t, r, E


def probe(ctx, f, cfg, key, bit, names):
    """Does this request draw the bar?  What a frame with a bar keeps from before, and which character is which."""
    t, r, E = rerun(cfg, key, bit, names, f)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick for requests %#x: %s" % (f, list(t.p.stuck.values())[:1]))
        return
    roles3 = field_roles(E, r)
    if roles3 is None:
        return
    kset, order = None, set()
    for s, v in r:
        for e, rp in painted(E, s):
            segs = pieces(E, s, rp) if rp is not None else None
            bs = bars(segs or [])
            if not bs:
                continue
            k = {b.a[2] for b in kept(segs)}
            kset = k if kset is None else kset | k
            cs = [bar_seg(g) for i, g in bs]
            if len(cs) == 2 and cs[0] != cs[1]:
                order.add(tuple(cs))
    ctx.analysed = {"roles": roles3, "what": texts(E, r, t.w, roles3), "kset": kset, "order": order}


def run(ctx):
    build.dump("all")
    t = Tick("all")
    if not t.ok:
        ctx.undecide("tick", "could not identify the tick, the run state or the pending requests")
        return
    w = t.w
    singles = [1 << i for i in range(8) if t.mask >> i & 1]
    names = (w.flags, w.done, stores(ctx, t))
    extra = (t.cfg, t.body["key"], w.bit, names)
    res = par.collect(ctx, probe, singles, extra)
    for f, (d, err) in zip(singles, res):
        if err or d["undecided"]:
            par.merge(ctx, [(f, d, err)], "")
    got = {f: d["analysed"] for f, (d, err) in zip(singles, res) if isinstance(d["analysed"], dict) and "roles" in d["analysed"]}
    if not got:
        ctx.undecide("fields", "could not tell the parts of the frame buffer apart")
        return
    roles3 = tuple(set().union(*(a["roles"][i] for a in got.values())) for i in range(3))
    what, kset, order = {}, set(), set()
    for a in got.values():
        for i, x in a["what"].items():
            what.setdefault(i, x)
        kset |= a["kset"] or set()
        order |= a["order"]
    draws = [f for f, a in got.items() if a["kset"] is not None]
    if not draws or len(order) != 1:
        ctx.undecide("bar", "could not recognise the bar in the painted frames")
        return
    what["full"], what["rest"] = next(iter(order))
    items = list(draws)
    for f in draws:
        items += [x | f for x in list(items) if x | f not in items]
    if ctx.thorough:
        items += [x | y for x in items for y in singles if x | y not in items]
    items = sorted(set(items), key=lambda x: -bin(x).count("1"))
    res = par.collect(ctx, job, items, extra + (roles3, what, kset))
    par.merge(ctx, [("%#x" % f, d, err) for f, (d, err) in zip(items, res)], " (requests %s)")
    ctx.floor("frames", 100)
    ctx.floor("checks", 3)
    ctx.floor("examples", 200)
    ctx.assumptions = ["the counter always holds done <= total, total > 0 (P15, P16)", "the clock is eight columns wide; counts and percentages are ASCII (dactyl)"]


def stores(ctx, t):
    """The cached size: which byte of it is the number of columns, wherever the terminal is asked."""
    P = Prog(t.cfg).P
    asks = {b["key"] for b in P.list if b.get("local") and "terminal_size::" in json.dumps(b["blocks"])}
    found = set()
    near = [b for b in P.list if b.get("local") and any(k in json.dumps(b["blocks"]) for k in asks)]
    for b in near:
        p = Prog(t.cfg, mergeat=100000)
        p.fixed = {t.w.flags: t.w.bit}
        r, E = p.run(p.P.bodies.get(b["key"], b), trace_if=lambda l: True)
        if r is None:
            continue
        for s, v in r:
            for e in s.events():
                if e.kind not in ("armw", "astore") or "size" not in str(e.args[0]):
                    continue
                x = e.args[2 if e.kind == "armw" else 1]
                flds = [a for a, _ in lin_parts(x)[0] if a.op == "fld" and a.a[0].op == "fld"] if isinstance(x, T) else []
                parts = {a.a[0].a[2]: a for a in flds}
                if 0 not in parts or 1 not in parts:
                    continue
                ctx.count("stores")
                try:
                    got = strev.iev(x, {parts[0]: 81, parts[1]: 25}, E)
                except strev.Unknown:
                    ctx.undecide("store|%s" % e.loc[0], "%s: the size stored is not understood: %s" % (loc(e), show(x)))
                    continue
                at = next((i for i in (0, 1) if got >> 8 * i & 255 == 80 and got >> 8 - 8 * i & 255 in (24, 25)), None)
                ctx.oblige(True if at is not None else None, "store|%s" % e.loc[0], "%s: for a terminal of 81 columns and 25 rows the size is remembered as %#x" % (loc(e), got),
                           "%s: byte %s is the columns less one" % (loc(e), at))
                found.add(at)
    if len(found) == 1 and None not in found:
        return found.pop()
    ctx.undecide("stores", "which byte of the remembered size is the columns is not known")
    return 0
