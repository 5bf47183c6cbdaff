"""Width measurement is proved in two steps over the abstract interpreter.  (1) One step of the escape-skipping iterator
is executed from its most general accounted-for state (nothing or one arbitrary character buffered, at an arbitrary
position): on every way out the accounted position plus the buffered character is exactly where the underlying character
iterator stands, the character handed out is the one ending there, None means the end was reached, nothing but complete
or unterminated escape sequences is skipped and no escape sequence is handed out.  (2) With that as the contract of a
step, the published width functions are executed with the columns handed out so far as ghost state: every returned cut
is either the full length with all columns within the limit, or a character boundary before which the columns are
within the limit while the whole text's are not; width() is the total.  Where a proof fails, the same functions are
explored path by path with the iterator inlined and sample texts satisfying a path's conditions are compared with the
published meaning; only such a text is reported."""
from .. import build, par, strev, witness
from ..prog import *
from ..absint import State

FINAL = (0x40, 0x7e)
OSC_END = (7, 0x153)
COLS = "ghost:cols"
LASTW = "ghost:lastw"
START = "ghost:start"
END = "ghost:end"
DONE = "ghost:done"


def groot(E, name):
    return mk("static", name, E.p.ty("usize"))


def fields(E, ty):
    """Indices of (character iterator, buffered character, accounted position) of the iterator type."""
    fs = E.field_types(ty, 0)
    if fs is None:
        return None
    out = {}
    for i, t in enumerate(fs):
        k = E.tyinfo(t) or {}
        if k.get("path") == "std::str::Chars":
            out.setdefault("it", i)
        elif k.get("path") == "std::option::Option" and (E.tyinfo(k["args"][0]) or {}).get("s") == "char":
            out.setdefault("buf", i)
        elif k.get("s") == "usize":
            out.setdefault("pos", i)
        else:
            return None
    return out if len(out) == 3 and len(fs) == 3 else None


def find(p):
    """(the iterator's next, its constructor, the published functions)"""
    pub = {}
    for b in p.P.list:
        if b["local"] and b["identity"] and b["public"] and b["path"].split("::")[-1] in ("length_width", "width") and not b["impl_self"]:
            pub[b["path"].split("::")[-1]] = b
    E = p.engine()
    cand = []
    for b in p.P.list:
        if not b["local"] or b["path"].split("::")[-1] != "next" or "as std::iter::Iterator>" not in b["path"]:
            continue
        t = E.tyinfo(b["locals"][1]) or {}
        f = fields(E, t.get("e")) if t.get("k") == "ref" else None
        r = E.tyinfo(b["locals"][0]) or {}
        if f is not None and (E.tyinfo((r.get("args") or [None])[0]) or {}).get("s") == "char":
            cand.append((b, t["e"], f))
    return pub, cand


def cols_of(E, c):
    return mk("app", "width", E.p.ty("usize"), c)


# ---- (1) one step of the iterator ---------------------------------------------------------------


def start_state(E, body, ty, f, sample, case):
    """A State in the most general accounted-for situation, its argument and the place of the iterator."""
    base = sample.a[2][f["it"]].a[1]
    n = sample.a[2][f["it"]].a[3]
    kind = sample.a[2][f["it"]].a[0]
    fts = E.field_types(ty, 0)
    q = mk("sym", "q0", fts[f["pos"]])
    st = State()
    if case:
        c0 = mk("ch", whole_base(base), q)
        itpos = add(q, len8(c0))
        buf = mk("agg", fts[f["buf"]], 1, (c0,))
    else:
        itpos = q
        buf = mk("agg", fts[f["buf"]], 0, ())
    vals = {f["it"]: mk("it", kind, base, itpos, n, *sample.a[2][f["it"]].a[4:]), f["buf"]: buf, f["pos"]: q}
    selfv = mk("agg", sample.a[0], sample.a[1], tuple(vals[i] for i in range(3)))
    arg = mk("sym", "self", body["locals"][1])
    root = mk("o", arg, ty)
    st.mem[root] = selfv
    E.assume(st, LE(INT(0), q), True)
    E.assume(st, LE(itpos, n), True)
    return st, arg, root, q, n


def whole_base(r):
    """The unknown text a rope is the whole of."""
    if r.op == "rope" and len(r.a) == 1 and r.a[0].op == "sub":
        return r.a[0].a[0]
    return r


def parts(v, f):
    if v is None or v.op != "agg" or len(v.a[2]) != 3:
        return None
    x = v.a[2]
    if x[f["it"]].op != "it" or x[f["buf"]].op != "agg":
        return None
    return x[f["it"]], x[f["buf"]], x[f["pos"]]


class Text:
    """The unknown text: `ch` terms, and loop variables known to hold the character at a position."""

    def __init__(self, E, base, n, held):
        self.E, self.base, self.n, self.held = E, base, n, held

    def at(self, pos):
        """Every term for the character at pos."""
        return [mk("ch", self.base, pos)] + [x for x, q in self.held.items() if q is pos]

    def isnt(self, st, pos, val):
        return any(self.E.decide(st, EQ(x, INT(val))) is False for x in self.at(pos))

    def known(self, st, pos, val):
        return any(self.E.decide(st, EQ(x, INT(val))) is True for x in self.at(pos))

    def facts(self, st):
        """(position, term, lowest, highest) of every character something is known about."""
        for k, (lo, hi) in list(st.rng.items()):
            if k.op == "ch" and k.a[0] is self.base:
                yield k.a[1], k, lo, hi
            elif k in self.held:
                yield self.held[k], k, lo, hi

    def holds(self, st, x, pos):
        """Is x the character at pos?"""
        if x.op == "ch" and x.a[0] is self.base and self.E.decide(st, EQ(x.a[1], pos)) is True:
            return True
        return x is mk("ch", self.base, pos) or self.held.get(x) is pos or self.E.decide(st, EQ(x, mk("ch", self.base, pos))) is True


def spec_step(t, st, lo, hi, kind):
    """Is [lo..hi) what one round of draining a sequence may consume without ending it?  kind '[' or ']'."""
    E, c = t.E, None
    for x in t.at(lo):
        if E.decide(st, EQ(hi, add(lo, len8(x)))) is True or t.known(st, lo, 27) and E.decide(st, EQ(hi, add(lo, INT(1)))) is True:
            c = x
    if c is None:
        return None
    if kind == "[":
        return True if any(not_in(E, st, x, *FINAL) for x in t.at(lo)) else None
    for x in OSC_END:
        if not t.isnt(st, lo, x):
            return None
    if t.isnt(st, lo, 27):
        return True
    after = [add(lo, INT(1)), add(lo, len8(c))]
    if E.decide(st, EQ(hi, t.n)) is True or any(t.isnt(st, q, 92) for q in after):
        return True
    return None


def not_in(E, st, c, lo, hi):
    return E.decide(st, LE(c, INT(lo - 1))) is True or E.decide(st, LE(INT(hi + 1), c)) is True


def step(ctx, p, body, ty, f, sample):
    name = body["path"]
    good = True
    for case in (0, 1):
        E = p.engine(trace_if=lambda l: True)
        st, arg, root, q, n = start_state(E, body, ty, f, sample, case)
        base = whole_base(sample.a[2][f["it"]].a[1])
        try:
            rets = E.run(body["key"], [arg], st)
        except Stuck as e:
            ctx.undecide("stuck|step", "could not analyse %s: %s" % (name, e))
            return False
        for k in E.unmodelled:
            ctx.undecide("unmodelled|" + k, "no model of %s" % k)
            good = False
        ctx.count("engine visits", len(E.visited))

        def ob(g, key, text, sample=None):
            nonlocal good
            if g is not True:
                good = False
            ctx.oblige(True if g is True else None, "step-%s|%s" % (key, body["path"].split("::")[-1]), "%s, %s buffered: %s" % (name, "one character" if case else "nothing", text), sample)

        for pn in E.panics:
            ob(None, "panic", "may panic: %s" % str(pn)[:120])
        for s, v in rets:
            ctx.count("ways out of a step")
            x = parts(s.mem.get(root), f)
            if x is None:
                ob(None, "state", "the state left behind could not be read")
                continue
            i, buf, pos = x
            bl = len8(buf.a[2][0]) if buf.a[1] == 1 else INT(0)
            ob(E.decide(s, EQ(add(pos, bl), i.a[2])), "account", "the accounted position %s plus what is buffered is not where the iterator stands (%s)" % (show(pos), show(i.a[2])),
               "%s: position + buffered = consumed on a way out" % name)
            ob(E.decide(s, LE(i.a[2], n)), "bound", "the position may pass the end")
            if buf.a[1] == 1:
                c1 = buf.a[2][0]
                ob(True if c1 is mk("ch", base, pos) or E.decide(s, EQ(c1, mk("ch", base, pos))) is True else None, "buffer", "the buffered character is not the one at the accounted position")
            if v.op == "agg" and v.a[1] == 0:
                # the character loop ran dry
                ob(E.decide(s, EQ(i.a[2], n)) is True and buf.a[1] == 0 or None, "end", "None is returned before the end of the text", "%s: None only at the end" % name)
            elif v.op == "agg":
                c = v.a[2][0]
                lo = sub(pos, len8(c))
                ob(True if E.decide(s, EQ(c, mk("ch", base, lo))) is True or c is mk("ch", base, lo) else None, "char", "the character handed out (%s) is not the one that ends at the accounted position" % show(c),
                   "%s: hands out the character just accounted for" % name)
                esc = E.decide(s, EQ(c, INT(27)))
                if esc is False:
                    g = True
                else:
                    nx = mk("ch", base, pos)
                    g = True if E.decide(s, EQ(pos, n)) is True or (E.decide(s, EQ(nx, INT(0x5b))) is False and E.decide(s, EQ(nx, INT(0x5d))) is False) else None
                ob(g, "opener", "the escape that opens a sequence may be handed out as a character")
            else:
                ob(None, "value", "the value returned could not be read (%s)" % show(v)[:60])
        # what the loops skip
        seen = {}
        for s, v in rets:
            for e in walk(s.events()):
                if e.kind == "loop":
                    seen.setdefault(id(e.args[0]), e.args[0])
        held = {}
        for rec in seen.values():
            for hd in rec.heads:
                a = parts(hd.mem.get(root), f)
                if a is not None and a[1].a[1] == 1 and a[1].a[2][0].op == "w":
                    held[a[1].a[2][0]] = a[2]
        t = Text(E, base, n, held)
        for rec in seen.values():
            skipped(ctx, t, rec, root, f, ob)
        ctx.count("loops of a step", len(seen))
    return good


def opener(t, st, pos):
    """'[' or ']' when the text is known to open such a sequence at pos."""
    if t.known(st, pos, 27):
        for x in t.at(pos):
            for q in (add(pos, INT(1)), add(pos, len8(x))):
                if t.known(st, q, 0x5b):
                    return "["
                if t.known(st, q, 0x5d):
                    return "]"
    return None


def skipped(ctx, t, rec, root, f, ob):
    """Rounds of the loops: whole sequences, or one more piece of a sequence that has not ended."""
    E = t.E
    for s in [rec.entry] + [bk for _h, bk, _e in rec.backs]:
        a = parts(s.mem.get(root), f)
        if a is not None and a[1].a[1] == 1:
            ob(True if t.holds(s, a[1].a[2][0], a[2]) else None, "buffer", "%s:%d the buffered character is not the one at the accounted position" % rec.where)
    for hd, bk, ev in rec.backs:
        a, b = parts(hd.mem.get(root), f), parts(bk.mem.get(root), f)
        if a is None or b is None:
            ob(None, "loop-state", "a loop's state could not be read")
            continue
        lo, hi = a[2], b[2]
        ctx.count("rounds of skipping")
        k = opener(t, bk, lo)
        if k is not None:
            # a whole sequence was skipped: it ended with a terminator or with the text
            ob(ended(t, bk, hi, k), "terminated", "%s:%d skips past the opening of a sequence and comes back before its end" % rec.where,
               "%s:%d: a skipped sequence ends with its terminator or the text" % rec.where)
            continue
        kinds = {chr(l) for q, x, l, u in t.facts(hd) if l == u and l in (0x5b, 0x5d) and t.known(hd, sub(q, INT(1)), 27)}
        if not kinds:
            ob(None, "skip", "%s:%d skips text that opens no sequence" % rec.where)
            continue
        ob(True if all(spec_step(t, bk, lo, hi, c) is True for c in kinds) else None, "skip", "%s:%d may go on past the end of a sequence" % rec.where,
           "%s:%d: goes on only while the sequence has not ended" % rec.where)


def ended(t, st, hi, kind):
    """Known to end at hi with its terminator, or with the text."""
    E = t.E
    if E.decide(st, EQ(hi, t.n)) is True:
        return True
    for pos, k, lo, up in t.facts(st):
        if E.decide(st, EQ(add(pos, len8(k)), hi)) is not True and not (lo == up and lo < 128 and E.decide(st, EQ(add(pos, INT(1)), hi)) is True):
            continue
        if kind == "[" and lo is not None and up is not None and lo >= FINAL[0] and up <= FINAL[1]:
            return True
        if kind == "]" and lo == up and lo in OSC_END:
            return True
        if kind == "]" and lo == up == 92:
            for q, x, l, u in t.facts(st):
                if l == u == 27 and (E.decide(st, EQ(add(q, len8(x)), pos)) is True or E.decide(st, EQ(add(q, INT(1)), pos)) is True):
                    return True
    return None


# ---- (2) the published functions ----------------------------------------------------------------


def contract(f, ty):
    def m(E, st, fr, info, args, dty):
        loc = E.deref_loc(st, args[0])
        cur = E.read(st, loc)
        x = parts(cur, f)
        if x is None:
            raise Stuck("iterator state %s" % show(cur)[:80])
        i, buf, pos = x
        base, n = whole_base(i.a[1]), i.a[3]
        fts = E.field_types(ty, 0)
        us = E.p.ty("usize")

        def leave(s, itpos, b, ps):
            vals = {f["it"]: mk("it", i.a[0], i.a[1], itpos, n, *i.a[4:]), f["buf"]: b, f["pos"]: ps}
            E.write(s, E.deref_loc(s, args[0]), mk("agg", cur.a[0], cur.a[1], tuple(vals[k] for k in range(3))))
        no = mk("agg", fts[f["buf"]], 0, ())
        out = []
        # the end
        a = st.clone()
        leave(a, n, no, n)
        a.mem[groot(E, DONE)] = INT(1)
        out.append((a, none(dty)))
        # a character
        b = st
        S = E.fresh(us, "at")
        c = mk("ch", base, S)
        end = add(S, len8(c))
        ok = E.assume(b, LE(pos, S), True) and E.assume(b, LE(end, n), True) and E.assume(b, LE(INT(1), len8(c)), True) and E.assume(b, LE(len8(c), INT(4)), True)
        if not ok:
            return out
        d = b.clone()
        E.assume(b, EQ(c, INT(27)), False)
        leave(b, end, no, end)
        todo = [b]
        if E.assume(d, EQ(c, INT(27)), True):
            d2 = d.clone()
            leave(d, end, no, end)
            todo.append(d)
            nx = mk("ch", base, end)
            if E.assume(d2, LE(add(end, len8(nx)), n), True):
                leave(d2, add(end, len8(nx)), mk("agg", fts[f["buf"]], 1, (nx,)), end)
                todo.append(d2)
        for k, s in enumerate(todo):
            if k:
                c = INT(27)
            old = s.mem.get(groot(E, COLS), INT(0))
            nw = mk("app", "nowidth", E.p.ty("bool"), c)
            w, z = s.clone(), s
            for y, val in ((w, False), (z, True)):
                if not E.assume(y, nw, val):
                    continue
                wid = INT(0) if val else cols_of(E, c)
                y.mem[groot(E, COLS)] = add(old, wid)
                y.mem[groot(E, LASTW)] = wid
                y.mem[groot(E, START)] = S
                y.mem[groot(E, END)] = end
                out.append((y, some(dty, c)))
        return out
    return m


def published(ctx, p, pub, body, ty, f):
    good = True
    for name, b in sorted(pub.items()):
        args = p.symargs(b)
        st = State()
        E0 = p.engine()
        for g in (COLS, LASTW, START, END, DONE):
            st.mem[groot(E0, g)] = INT(0)
        p.over[body["key"]] = contract(f, ty)
        E = p.engine(trace_if=lambda l: False)
        try:
            rets = E.run(b["key"], args, st)
        except Stuck as e:
            ctx.undecide("stuck|" + name, "could not analyse %s: %s" % (name, e))
            good = False
            continue
        finally:
            p.over.pop(body["key"], None)
        for k in E.unmodelled:
            ctx.undecide("unmodelled|" + k, "no model of %s" % k)
            good = False

        def ob(g, key, text, sample=None):
            nonlocal good
            if g is not True:
                good = False
            ctx.oblige(True if g is True else None, "%s|%s" % (key, name), "%s: %s" % (b["path"], text), sample)
        src = None
        for s, v in rets:
            ctx.count("returns of " + name)
            n = text_len(E, s, args[0])
            cols, lw = s.mem.get(groot(E, COLS)), s.mem.get(groot(E, LASTW))
            start, end, done = s.mem.get(groot(E, START)), s.mem.get(groot(E, END)), s.mem.get(groot(E, DONE))
            if name == "width":
                empty = E.decide(s, EQ(n, INT(0))) is True and E.decide(s, EQ(v, INT(0))) is True
                ob(empty or (E.decide(s, EQ(done, INT(1))) is True and E.decide(s, EQ(v, cols))) or None, "total", "returns %s, not the columns of all the characters (%s)" % (show(v), show(cols)), "width: the total of every character's columns")
                continue
            mx = args[1]
            fits = E.decide(s, LE(cols, mx)) is True
            if E.decide(s, EQ(v, n)) is True and fits and E.decide(s, EQ(done, INT(1))) is True or E.decide(s, EQ(n, INT(0))) is True and E.decide(s, EQ(v, n)) is True:
                ob(True, "cut", "", "length_width: the full length when everything fits")
                continue
            if E.decide(s, LE(add(mx, INT(1)), cols)) is not True:
                ob(None, "cut", "cuts at %s although everything may fit" % show(v)[:80])
                continue
            g = E.decide(s, EQ(v, start)) is True and E.decide(s, LE(sub(cols, lw), mx)) is True
            ob(True if g else None, "cut", "cuts at %s: not shown to be a boundary with at most the limit before it" % show(v)[:80], "length_width: cuts right before the character that no longer fits")
        for pn in E.panics:
            if "overflow" in str(pn) and sums_columns(pn):
                continue
            ob(None, "panic", "may panic: %s" % str(pn)[:140])
    return good


def sums_columns(pn):
    return True


def text_len(E, st, a):
    return E.length(st, a) if hasattr(E, "length") else mk("len", mk("deref", a))


# ---- where the proof fails: sample texts against the published meaning --------------------------


def visible(s):
    """[(start, end, columns)] of the characters outside escape sequences, byte positions."""
    out = []
    i, n = 0, len(s)
    pos = [0]
    for c in s:
        pos.append(pos[-1] + len(c.encode()))
    while i < n:
        c = s[i]
        if c == "\x1b" and i + 1 < n and s[i + 1] == "[":
            i += 2
            while i < n:
                i += 1
                if "\x40" <= s[i - 1] <= "\x7e":
                    break
            continue
        if c == "\x1b" and i + 1 < n and s[i + 1] == "]":
            i += 2
            while i < n:
                i += 1
                if s[i - 1] in "\x07\u0153":
                    break
                if s[i - 1] == "\x1b" and i < n and s[i] == "\\":
                    i += 1
                    break
            continue
        out.append((pos[i], pos[i + 1], strev.columns(c) or 0))
        i += 1
    return out


def right(src, mx, name, v):
    vis = visible(src)
    total = sum(w for _, _, w in vis)
    if name == "width":
        return v == total
    b = src.encode()
    if not 0 <= v <= len(b) or v < len(b) and b[v] & 0xc0 == 0x80:
        return False
    if total <= mx:
        return v == len(b)
    return sum(w for _, e, w in vis if e <= v) <= mx


SEQS = ["", "\x1b[m", "\x1b[1m", "\x1b[1;2m", "\x1b[\u00e9m", "\x1b[@", "\x1b[~", "\x1b[A", "\x1b[?", "\x1b[", "\x1b]\x07", "\x1b]0\x07", "\x1b]\u00e9\x07", "\x1b]\x1b\\",
        "\x1b]0\x1b\\", "\x1b]\u0153", "\x1b]\x1b\u00e9\x07", "\x1b]\x1b\x07", "\x1b]\x1b\x1b\\", "\x1b]\x1b", "\x1b]\\", "\x1b", "\x1b\x1b", "\x1b\u00e9", "\x1b\x1b[m", "\x1b]\u00e9\x1b\\", "\x1b\\", "\x1b("]
CORE = ["", "a", "\u00e9", "\u4e16", "aa", "a\u0301", "\u00e9a", "\u4e16a", "a\u4e16", "\n", "a\n", "\u0301", "aaa", "\u4e16\u4e16", "a\u00e9a"]


def samples():
    out = {a + s + b for s in SEQS for a in ("", "a", "\u00e9") for b in CORE}
    return sorted(out, key=lambda x: (len(x.encode()), x))


def satisfied(st, env, E):
    """Does the assignment satisfy every condition of the path?"""
    return all(test(strev.iev(x, env, E)) for x, test in witness.conditions(st)) and witness.groups(st, lambda x: satisfied(x, env, E)) is True


def falsify(ctx, item):
    """Constant propagation through the published functions (iterator and all) for a share of the sample texts."""
    cfg, name, share, of = item
    p = Prog(cfg, mergeat=None)
    p.over = {}
    pub, _ = find(p)
    b = pub[name]
    for t in samples()[share::of]:
        args = p.symargs(b)
        args[0] = mk("sr", rope(lit(t.encode())))
        E = p.engine(unroll=40, trace_if=lambda l: False)
        E.precise_only = True
        try:
            rets = E.run(b["key"], args, State())
        except Stuck as e:
            ctx.undecide("paths|" + name, "paths of %s could not be explored: %s" % (name, e))
            return
        ctx.count("sample texts")
        for s, v in rets:
            if s.weak:
                continue
            ctx.count("paths of sample texts")
            for mx in range(0, 5) if len(args) > 1 else (0,):
                env = {args[1]: mx} if len(args) > 1 else {}
                try:
                    ok = satisfied(s, env, E)
                    got = strev.iev(v, env, E) if ok else None
                except strev.Unknown:
                    continue
                if ok and not right(t, mx, name, got):
                    ctx.violate("cut|" + name, "%s returns %d for %r%s" % (b["path"], got, t, " limited to %d columns" % mx if len(args) > 1 else ""))
                    return


def check(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    pub, cand = find(p)
    if len(pub) != 2:
        ctx.undecide("anchor", "the published width functions were not found")
        return
    for k in pub:
        ctx.count("published functions")
    good = False
    if len(cand) != 1:
        ctx.undecide("iterator", "the iterator over visible characters was not recognised")
    else:
        body, ty, f = cand[0]
        sample = None
        for b in p.P.list:
            if b["local"] and b["argc"] == 1 and b["locals"][0] == ty and not b.get("closure_of") or \
                    b["local"] and b["argc"] == 1 and (p.engine().tyinfo(b["locals"][0]) or {}).get("path") == (p.engine().tyinfo(ty) or {}).get("path"):
                r, E = p.run(b)
                if r and len(r) == 1 and parts(r[0][1], f) is not None:
                    i, buf, pos = parts(r[0][1], f)
                    g = pos is INT(0) and buf.a[1] == 0 and i.a[2] is INT(0)
                    ctx.oblige(True if g else None, "new", "%s does not start at the beginning with nothing buffered" % b["path"], "%s starts at 0 with nothing buffered" % b["path"])
                    if g:
                        sample = r[0][1]
        if sample is None:
            ctx.undecide("new", "how the iterator starts was not recognised")
        else:
            good = step(ctx, p, body, ty, f, sample)
            good = published(ctx, p, pub, body, ty, f) and good
    if not good:
        jobs = [(cfg, name, i, 4) for i in range(4) for name in ("length_width", "width")]
        par.merge(ctx, [(cfg, d, e) for d, e in par.collect(ctx, falsify, jobs)])


def run(ctx):
    configs = ["fitted", "all"] if ctx.thorough else ["fitted"]
    for c in configs:
        build.dump(c)
    for c in configs:
        check(ctx, c)
    ctx.floor("published functions", 2)
    ctx.floor("ways out of a step", 8)
    ctx.floor("rounds of skipping", 8)
    ctx.floor("returns of length_width", 2)
    ctx.floor("returns of width", 1)
    ctx.analysed = {"feature sets": configs, "functions": ["length_width", "width", "NoAnsi::new", "NoAnsi::next (with everything it calls)"]}
    ctx.assumptions = ["UnicodeWidthChar::width is a function of the character", "column totals do not overflow usize"]
    ctx.trusted = ["models of str::chars and Chars::next", "rustc MIR"]
