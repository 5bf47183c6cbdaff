"""Every frame the tick can paint, on every path and for every combination of pending update requests: the number of
line breaks in the text written equals the number of lines the cursor is moved up at its end, right after a reset and a
return to column one.  The counts are symbolic: parts kept from an earlier frame are covered by invariants of the frame
buffer (a kept text has no line breaks / one exactly when it is not empty / as many as a counter field says) which are
found and proved inductive over all paths, loops over the task list by relating each iteration's line breaks to its
counter.  The rewind table is compared entry by entry.  Partial writes: every further write continues exactly where the
previous one stopped, and nothing stops before everything was taken."""
from .. import build, par
from ..frame import *


def key_of(t):
    return t.body["key"]


def field_of(b):
    """(owner, field) of a base that is a field of the frame buffer as found under its lock."""
    if b.op == "fld" and b.a[0].op == "ev":
        return b.a[0], b.a[2]
    return None


def is_label(b):
    return b.op == "app" and b.a[0] == "elem" or b.op == "elem"


class Inv:
    """Which invariants are believed of the fields of the frame buffer."""

    def __init__(self):
        self.cands = {}

    def base(self, E, s, b):
        if is_label(b) or b.op == "app" and b.a[0] == "nice":
            return ZERO
        f = field_of(b)
        if f is None:
            return None
        cs = self.cands.get(f[1])
        if cs is None:
            return None
        if "zero" in cs:
            return ZERO
        if "some" in cs:
            d = E.decide(s, EQ(mk("len", b), ZERO))
            if d is not None:
                return ZERO if d else ONE
        for c in cs:
            if isinstance(c, tuple):
                return mk("fld", f[0], -1, c[0], c[1])
        return None


def paths(E, r):
    for s, v in r:
        yield s, s.events()


def buffer_unlocks(E, s):
    """[(value found, value left)] of each critical section on the frame buffer."""
    out = []
    for e in s.events():
        if e.kind == "unlock" and isinstance(e.args[0], str) and isinstance(e.args[1], T) and e.args[1].op == "agg" and e.args[0] != "stderr":
            out.append((e.args[0], e.args[1]))
    return out


def setup(ctx):
    t = Tick("all")
    if not t.ok:
        ctx.undecide("tick", "could not identify the tick, the run state or the pending requests")
        return None
    return t


def frame_fields(E, s, rp):
    out = []
    for g in pieces(E, s, rp) or ():
        if g.op == "sub":
            f = field_of(g.a[0])
            if f is not None:
                out.append(f[1])
    return out


def job(ctx, item, cfg, key, bit, flags_name, phase, cands):
    """One combination of requests."""
    flags, unroll = item
    t = Tick.__new__(Tick)
    t.cfg = cfg
    t.w = type("W", (), {"flags": flags_name, "bit": bit})()
    t.body = Prog(cfg).P.bodies[key]
    r, E = t.run(flags, unroll)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick for requests %#x: %s" % (flags, list(t.p.stuck.values())[:1]))
        return
    for k in t.p.unmodelled:
        ctx.undecide("unmodelled:" + k, "no model of %s" % k)
    inv = Inv()
    inv.cands = cands
    c = Count(inv.base)
    dead, changed = set(), set()
    for s, evs in paths(E, r):
        for name, val in buffer_unlocks(E, s):
            if not any(field_like(x) for x in val.a[2]):
                continue
            for f, cs in cands.items():
                if f >= len(val.a[2]):
                    continue
                x = val.a[2][f]
                x = x.a[0] if x.op == "sr" else x
                if x.op != "fld":
                    changed.add(f)
                for k in sorted(cs, key=str):
                    if (f, k) not in dead and not keeps(E, s, c, val, f, x, k):
                        dead.add((f, k))
        if phase == "judge":
            frames(ctx, E, s, c, flags, bool(s.weak))
            ctx.count("paths")
    ctx.analysed = {"dead": sorted([list(x) for x in dead], key=str), "changed": sorted(changed)}


def field_like(x):
    return x.op == "fld"


def keeps(E, s, c, val, f, x, k):
    if x.op == "fld" and x.a[2] == f and (not isinstance(k, tuple) or val.a[2][k[0]] is mk("fld", x.a[0], -1, k[0], k[1])):
        return True
    if x.op != "rope":
        try:
            x = E.as_rope(s, x)
        except Exception:
            return False
    if x is None or x.op != "rope":
        return False
    n = c.rope(E, s, x)
    if n is None:
        return False
    ns = c.value(E, s, n)
    if k == "zero":
        return any(E.resimp(s, y) is ZERO for y in ns)
    if k == "some":
        d = E.decide(s, EQ(rope_len(E.resimp(s, x)), ZERO))
        if d is True:
            return any(E.resimp(s, y) is ZERO for y in ns)
        if d is False:
            return any(E.resimp(s, y) is ONE for y in ns)
        return all_same(E, s, ns)
    y = val.a[2][k[0]]
    return any(E.decide(s, EQ(z, y)) is True for z in ns)


def all_same(E, s, ns):
    return False


SAMPLES = (b"A", b"A\nB", b"\nA", b"A\n\nB\n", b"")


def frames(ctx, E, s, c, flags, weak):
    for e, rp in painted(E, s):
        if rp is None:
            ctx.undecide("text|%s" % e.loc[0], "%s: the frame written is not known piece by piece" % loc(e))
            continue
        lit1 = rope_lit(E.resimp(s, rp))
        if lit1 is not None and CURSOR.match(lit1):
            ctx.count("erasures")
            continue
        ctx.count("frames")
        tl = tail(E, s, rp)
        where = "%s, requests %#x" % (loc(e), flags)
        if tl is None:
            ctx.undecide("tail|%s" % e.loc[0], "%s: how the frame ends is not known" % where)
            continue
        other = [g for g in (pieces(E, s, rp) or ())[:-1] if g.op == "lit" and (UP.search(g.a[0]) or MOVE.search(g.a[0]))]
        if other:
            ctx.oblige(None if weak else False, "move|%s" % e.loc[0], "%s: the frame moves the cursor before its end: %s" % (where, show(other[0])))
            continue
        n = c.rope(E, s, rp)
        if n is None:
            w = witnessed(E, s, c, rp, tl)
            if w:
                ctx.oblige(None if weak else False, "witness|%s" % e.loc[0], "%s: %s" % (where, w))
            else:
                ctx.undecide("count|%s" % e.loc[0], "%s: could not count the line breaks of %s" % (where, show(rp)[:300]))
            continue
        ns = c.value(E, s, n)
        for cond, up in tl:
            ctx.count("endings")
            s2 = s
            if cond is not None:
                s2 = s.clone()
                if E.assume(s2, cond, True) is False:
                    continue
            if up is None:
                if over(E, s2, cond, ns, 255):
                    continue
                ctx.oblige(None if weak else False, "end|%s" % e.loc[0], "%s: the frame does not end with a reset, a return to column one and the way up%s" % (
                    where, "" if cond is None else " when %s" % show(cond)))
                continue
            good = any(E.decide(s2, EQ(x, up)) is True for x in ns)
            if good:
                ctx.oblige(True, "", "", "%s: %s line breaks, %s up%s" % (where, show(n), show(up), "" if cond is None else " when %s" % show(cond)))
                continue
            if over(E, s2, cond, ns, 255, up):
                ctx.ok()
                continue
            bad = any(E.decide(s2, EQ(x, up)) is False for x in ns)
            ctx.oblige(False if bad and backed(E, s, c, rp, [cond, up] + ns) and (s.weak is None or definite(E, s2, ns, up)) else None, "rewind|%s" % e.loc[0],
                       "%s: the frame has %s line breaks but moves the cursor up by %s%s" % (
                           where, " = ".join(show(E.resimp(s2, x)) for x in ns), show(up), "" if cond is None else " when %s" % show(cond)))


def backed(E, s, c, rp, terms):
    """A counter kept from before only proves a mismatch when the kept text it counts is in this frame."""
    free = {(a.a[2], a.a[3]) for t in terms if t is not None for a in atoms(t) if a.op == "fld" and a.a[0].op == "ev"}
    if not free:
        return True
    inv = c.base.__self__
    live = {k for f in frame_fields(E, s, rp) for k in inv.cands.get(f, ()) if isinstance(k, tuple)}
    return free <= live


def definite(E, s, ns, up):
    """The widened count takes every value from 0 on (a counter of tasks), so a wrong entry of the table is met."""
    return any(len(lin_parts(E.resimp(s, x))[0]) == 0 for x in ns) and up.op == "int" and up.a[0] >= 0


def over(E, s, cond, ns, most, up=None):
    """A frame of more rows than a terminal can have (its height is at most 255) is not painted: the guard on the
    number of tasks is what keeps it out."""
    for x in ns:
        if E.decide(s, LE(x, INT(most - 1))) is False:
            return True
    return False


def witnessed(E, s, c, rp, tl):
    """Some text that makes the frame have another number of line breaks than it rewinds."""
    bases = []
    for g in pieces(E, s, rp) or ():
        if g.op == "sub" and c.seg(E, s, g) is None and g.a[0] not in bases and not (g.a[0].op == "app" and g.a[0].a[0] == "idx"):
            bases.append(g.a[0])
    if len(bases) != 1 or field_of(bases[0]) is not None or bases[0].op == "w":
        return None
    ups = {up.a[0] for cond, up in tl if up is not None and up.op == "int"} if len(tl) == 1 else None
    segs = [g for g in pieces(E, s, rp) if g.op == "sub" and g.a[0] is bases[0]]
    for text in SAMPLES:
        env = {bases[0]: text}
        try:
            got = sum(strev.sev(g, env, E).count(b"\n") for g in segs)
        except strev.Unknown:
            continue
        if strev.consistent(s, env, E) is not True:
            continue
        rest = [g for g in pieces(E, s, rp) if g not in segs]
        n = INT(got)
        for g in rest[:-1]:
            x = c.seg(E, s, g)
            if x is None:
                return None
            n = add(n, x)
        if over(E, s, None, [n], 255):
            return None
        if ups is not None and E.resimp(s, n).op == "int" and E.resimp(s, n).a[0] not in ups:
            return "with the text %r the frame has %s line breaks but rewinds %s" % (text.decode(), show(E.resimp(s, n)), sorted(ups))
        if ups is None:
            # (a counted end: the way up does not depend on the text)
            if got not in (0, 1):
                return "the text %r puts %d line breaks into the frame and the way up does not depend on it" % (text.decode(), got)
    return None


def partial(ctx, t):
    """The writing loop, with a stream that may take part of what it is given, be interrupted, or fail."""
    p = Prog(t.cfg, mergeat=100000, maxstates=60000)
    p.fixed = {t.w.flags: t.w.bit}
    r, E = p.run(p.P.bodies[t.body["key"]], trace_if=lambda l: True, unroll=2)
    if r is None:
        ctx.undecide("stuck-write", "could not analyse the writing loop: %s" % list(p.stuck.values())[:1])
        return
    for s, v in r:
        if s.weak is not None:
            continue
        evs = s.events()
        last, taken = None, None      # slices handed over by the last write; True while what was taken is unaccounted for
        for i, e in enumerate(evs):
            if e.kind == "writev" and e.args[0] == "stderr":
                ctx.count("writes")
                x = e.args[1]
                if last is not None:
                    if taken == "failed":
                        good = same_slices(x, last)
                    else:
                        good = taken is not None and taken != "pending" and same_slices(x, taken)
                    ctx.oblige(good, "resume|%s" % e.loc[0], "%s: a further write does not continue where the previous one stopped: %s after %s" % (
                        loc(e), show(x)[:160], show(last)[:160]), "%s: continues with what was left" % loc(e))
                last, taken = x, "pending"
            elif e.kind == "ioerr" and e.args[0] == "stderr" and e.args[1] == "write_vectored" and last is not None:
                taken = "failed"
            elif e.kind == "advance" and last is not None and taken == "pending":
                n = e.args[1]
                ok = same_slices(e.args[0], last) and n.op == "ev"
                taken = mk("slices", mk("advanced", n)) if ok else None
                key = n
            elif e.kind == "flush" and last is not None:
                if taken == "failed":
                    # left although the write was refused (only an interrupted, then empty, rest may be)
                    ctx.oblige(None, "given-up|%s" % e.loc[0], "%s: goes on after a refused write" % loc(e)) if not emptied(E, s, evs[:i]) else ctx.ok()
                else:
                    ctx.oblige(emptied(E, s, evs[:i]), "rest|%s" % e.loc[0],
                               "%s: the frame is taken as written although part of it may be left: %s" % (loc(e), path_of(evs[:i], 8)), "%s: done only when nothing is left" % loc(e))
                last = None


def same_slices(x, y):
    if x is y:
        return True
    if y.op == "slices" and len(y.a) == 1 and y.a[0].op == "advanced":
        # what is left after the last count taken
        g = x.a[0] if x.op == "slices" and len(x.a) == 1 else None
        return g is not None and g.op == "app" and g.a[0] == "advanced" and g.a[3] is y.a[0].a[0]
    return False


def emptied(E, s, evs):
    """Was it established that nothing is left?"""
    for e in reversed(evs):
        if e.kind == "if":
            l, val = e.args
            while l.op == "not":
                l, val = l.a[0], not val
            if l.op == "eq" and val and any(a.op == "len" and "advanced" in show(a) for a in atoms(l)):
                return True
        if e.kind == "writev":
            return False
    return False


def refuted(res):
    return {(k[0], k[1]) for d, _e in res if isinstance(d["analysed"], dict) for k in d["analysed"].get("dead", ())}


def without(cands, dead):
    return {f: {k for k in cs if (f, k) not in dead} for f, cs in cands.items()}


def explore(ctx, t, thorough):
    cfg = t.cfg
    extra = (cfg, t.body["key"], t.w.bit, t.w.flags)
    items = [(f, 0) for f in combos(t.mask, False) if f & (f - 1) == 0]
    # which fields are shown, and what might be kept about them
    cands = {}
    r, E = t.run(0)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick: %s" % list(t.p.stuck.values())[:1])
        return
    ints = set()
    for s, evs in paths(E, r):
        for e, rp in painted(E, s):
            if rp is None:
                continue
            for f in frame_fields(E, s, rp):
                cands.setdefault(f, {"zero", "some"})
            for cond, up in tail(E, s, rp) or ():
                for a in atoms(cond) if cond is not None else ():
                    if a.op == "fld" and a.a[0].op == "ev":
                        ints.add((a.a[2], a.a[3]))
    for f in cands:
        cands[f] = cands[f] | {i for i in ints if i[0] != f}
    for rounds in range(6):
        res = par.collect(ctx, job, items, extra + ("find", cands))
        dead = refuted(res)
        if not dead:
            break
        cands = without(cands, dead)
    # requests whose parts hold line breaks: also in every combination
    broad = sorted({i[0] for i, (d, _e) in zip(items, res) if isinstance(d["analysed"], dict)
                    and any("zero" not in cands.get(f, ("zero",)) for f in d["analysed"].get("changed", ()))})
    some = {0} | {i[0] for i in items}
    for b in broad:
        some |= {x | b for x in some if x & (x - 1) == 0 and (x in broad or x == 0)}
    todo = [(f, 0) for f in (combos(t.mask, True) if thorough else sorted(some, key=lambda x: -bin(x).count("1")))] + [(1 << i, 2) for i in range(8) if t.mask >> i & 1]
    for rounds in range(4):
        res = par.collect(ctx, job, todo, extra + ("judge", cands))
        dead = refuted(res)
        if not dead:
            break
        cands = without(cands, dead)
    par.merge(ctx, [(str(i), d, e) for i, (d, e) in zip(todo, res)], " (requests %s)")
    ctx.count("invariants", sum(len(c) for c in cands.values()))
    ctx.count("kept fields", len(cands))
    partial(ctx, t)
    ctx.analysed = {"invariants": {str(f): sorted(map(str, c)) for f, c in cands.items()}}


def run(ctx):
    build.dump("all")
    t = setup(ctx)
    if t is None:
        return
    explore(ctx, t, ctx.thorough)
    ctx.floor("frames", 500)
    ctx.floor("endings", 2000)
    ctx.floor("writes", 10)
    ctx.assumptions = ["task labels hold no line breaks (P22); numbers and clocks formatted by dactyl hold none",
                       "a terminal has at most 255 rows and frames never have more rows than it (the guard on the number of tasks)"]
