"""Where titles are kept: on every path of every call that stores one, the value left behind is nothing exactly when
nothing (or an empty message) was passed, and otherwise a message whose line break has been switched off (or one made of
text without a line break); changing only the text leaves an absent title absent and requests no repaint.  Where titles
are painted: on every path of the tick that draws the title anew, what comes before the rest of the frame is either
nothing or one line -- text proved free of line breaks by the loop that cut it -- followed by one line break; it is drawn
when there is a title with a first line and the terminal has at least two rows, and never when it has not."""
import json

from .. import build, par
from ..frame import *
from .p21 import Inv, field_of
from .p23 import field_roles, rerun, ANSI

TITLE = "std::option::Option<msg::Msg>"


def is_title(e):
    return isinstance(e.args[0], str) and e.args[0].endswith(": " + TITLE)


def reach(P):
    calls = {}
    for b in P.list:
        s = json.dumps(b["blocks"])
        calls[b["key"]] = {k for k in P.bodies if k != b["key"] and json.dumps(k)[1:-1] in s} if b.get("local") else set()
    return calls


def msg_of(v):
    """('none',) / ('some', term) of a title value."""
    if v.op == "agg":
        return ("none",) if v.a[1] == 0 else ("some", v.a[2][0])
    return None


def text_of(E, s, x):
    """Literal bytes of a string argument, if it is one."""
    x = x.a[0] if x.op == "sr" else x
    if x.op == "ref":
        try:
            x = E.read(s, E.deref_loc(s, x))
            x = x.a[0] if x.op == "sr" else x
        except Exception:
            return None
    return rope_lit(x) if x.op == "rope" else None


def ends_clean(E, s, x, d=0):
    """Does the message end without a line break?  True, False or None."""
    if x.op != "app" or d > 6:
        return None
    f = str(x.a[0])
    if f == "msg:with_newline" or f == "msg:set_newline":
        y = x.a[3]
        return True if y is ZERO else False if y is ONE else None
    if f == "into":
        return False            # whatever was passed, its line break included
    if f in ("msg:new", "msg:plain"):
        t = text_of(E, s, x.a[-1])
        return None if t is None else b"\n" not in t
    if f in ("msg:with_indent", "msg:set_indent", "msg:set_msg", "msg:with_msg", "msg:with_prefix", "msg:set_prefix", "msg:with_suffix", "msg:with_timestamp", "msg:with_flags"):
        return ends_clean(E, s, x.a[2], d + 1) if f != "msg:with_flags" else None
    return None


def source(x):
    """The message a stored title was made from."""
    while x.op == "app" and str(x.a[0]).startswith("msg:") and len(x.a) > 2 and str(x.a[0]) not in ("msg:new", "msg:plain"):
        x = x.a[2]
    return x


def stored(ctx):
    p = Prog("all", mergeat=100000)
    P = p.P
    calls = reach(P)
    owners = {b["key"] for b in P.list if b.get("local") and TITLE in json.dumps([P.types[t].get("s", "") for t in b["locals"] if isinstance(t, int)]).replace('\\"', '"') and
              any("Mutex" in P.types[t].get("s", "") and TITLE in P.types[t].get("s", "") for t in b["locals"] if isinstance(t, int))}
    t = Tick("all")
    if not t.ok or not owners:
        ctx.undecide("title", "could not find where titles are kept")
        return t
    full = {}

    def closure(k):
        if k not in full:
            seen, todo = {k}, [k]
            while todo:
                for c in calls.get(todo.pop(), ()):
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
            full[k] = seen
        return full[k]
    tick = t.body["key"]
    covered, todo = set(), []
    for b in p.entries():
        c = closure(b["key"])
        if c & owners and tick not in c:
            todo.append(b)
            covered |= c & owners
    for k in sorted(owners - covered):
        if tick not in closure(k):
            todo.append(P.bodies[k])
    for b in todo:
        one(ctx, p, b)
    return t


def one(ctx, p, b):
    r, E = p.run(b, trace_if=lambda l: True)
    if r is None:
        ctx.undecide("stuck|%s" % b["path"], "could not analyse %s: %s" % (b["path"], list(p.stuck.values())[-1:]))
        return
    ctx.count("calls")
    for s, _v in r:
        evs = list(walk(s.events()))
        writes = [e for e in evs if e.kind == "unlock" and is_title(e) and isinstance(e.args[1], T)]
        for e in writes:
            judge(ctx, E, s, b, e, evs)


def judge(ctx, E, s, b, e, evs):
    v = e.args[1]
    where = "%s (%s)" % (b["path"], loc(e))
    bad = lambda: None if s.weak else False
    if v.op == "ev":
        d = E.decide(s, EQ(mk("discr", v), ZERO))
        if d is True:
            # there was no title, and none was made: nothing may be announced
            ctx.count("absent")
            told = [x for x in evs if x.kind in ("armw", "astore") and str(x.args[0]).split(".")[-1] == "flags"]
            ctx.oblige(bad() if told else True, "told|%s" % b["path"], "%s: a repaint is requested although there is no title to change" % where, "%s: nothing happens without a title" % where)
        elif d is False and text_only(b):
            ctx.oblige(bad(), "kept|%s" % b["path"], "%s: the title's text is not changed" % where)
        return
    ctx.count("stores")
    m = msg_of(v)
    if m is None:
        ctx.undecide("value|%s" % b["path"], "%s: the title stored is not understood: %s" % (where, show(v)[:200]))
        return
    arg = into_args(E, s, b)
    if m[0] == "none":
        # only when nothing, or nothing visible, was passed
        for kind, l in arg:
            if l is not None and E.decide(s, l) is True:
                ctx.ok("%s: no title when %s" % (where, kind))
                return
        ctx.oblige(bad() if arg else None, "dropped|%s" % b["path"], "%s: a title that was passed is dropped: %s" % (where, path_of(s.events(), 6)))
        return
    x = m[1]
    root = prior(x)
    if root is not None:
        # the text of an existing title is changed
        ctx.count("edits")
        names = []
        y = x
        while y.op == "app" and str(y.a[0]).startswith("msg:"):
            names.append(y.a[0])
            y = y.a[2]
        good = names == ["msg:set_msg"]
        ctx.oblige(True if good else bad() if any(n in ("msg:set_prefix", "msg:set_suffix", "msg:set_newline", "msg:with_prefix", "msg:with_msg", "msg:strip_ansi", "msg:set_indent") for n in names) and "msg:set_msg" not in names else None,
                   "edit|%s" % b["path"], "%s: more or less than the title's text is changed: %s" % (where, show(x)[:200]), "%s: only the text changes" % where)
        return
    if text_only(b):
        ctx.oblige(bad(), "edit|%s" % b["path"], "%s: the title becomes something else, not an edit of the title there was: %s" % (where, show(x)[:200]))
        return
    c = ends_clean(E, s, x)
    ctx.oblige(c if c is not False else bad(), "break|%s" % b["path"], "%s: the title is stored with its line break: %s" % (where, show(x)[:200]), "%s: stored without a line break" % where)
    src = source(x)
    if arg:
        for kind, l in arg:
            d = E.decide(s, l) if l is not None else None
            ctx.oblige(True if d is False else bad() if d is True or kind == "the message is empty" and src.op == "app" and src.a[0] == "into" else None, "empty|%s" % b["path"],
                       "%s: a title is stored although %s" % (where, kind if d is True else kind + " was not excluded"), "%s: stored only when not (%s)" % (where, kind))


def prior(x):
    """The title found, when the new one is an edit of it."""
    while x.op == "app" and str(x.a[0]).startswith("msg:"):
        x = x.a[2] if len(x.a) > 2 and isinstance(x.a[2], T) else mk("int", 0)
    return x if x.op == "fld" and x.a[0].op == "ev" else None


def text_only(b):
    return b["path"].endswith("::set_title_msg")


def into_args(E, s, b):
    """Literals that say: no title was passed / the message passed is empty."""
    out = []
    todo = set()
    for c, _ in conditions_of(s):
        todo |= set(atoms_of(c))
    for t in todo:
        if t.op == "discr" and t.a[0].op == "sym" and "Option" in str((E.tyinfo(E.typeof(t.a[0])) or {}).get("path", "")):
            out.append(("nothing was passed", EQ(t, ZERO)))
        if t.op == "len" and any(x.op == "app" and x.a[0] == "into" for x in atoms_of(t.a[0])):
            out.append(("the message is empty", EQ(t, ZERO)))
    if not any(k == "nothing was passed" for k, _ in out):
        for a in range(b["argc"]):
            ty = E.tyinfo(b["locals"][1 + a]) or {}
            if "Option" in str(ty.get("path", "")):
                out.append(("nothing was passed", EQ(mk("discr", mk("sym", "a%d" % a, b["locals"][1 + a])), ZERO)))
    if out and not any(k == "the message is empty" for k, _ in out):
        out.append(("the message is empty", None))
    return out


def conditions_of(s):
    from ..witness import conditions
    return conditions(s)


def atoms_of(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T):
            out.append(x)
            todo.extend(x.a)
    return out


# -- painted titles --
def probe(ctx, f, cfg, key, bit, names):
    t, r, E = rerun(cfg, key, bit, names, f)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick for requests %#x: %s" % (f, list(t.p.stuck.values())[:1]))
        return
    roles3 = field_roles(E, r)
    if roles3 is None:
        return
    drawn = False
    for s, v in r:
        for e, rp in painted(E, s):
            segs = pieces(E, s, rp) if rp is not None else None
            head = before_clock(E, segs, roles3) if segs else None
            if head is not None and not any(kept_title(g, roles3) for g in head):
                drawn = drawn or any(g.op != "lit" for g in head)
    ctx.analysed = {"roles": roles3, "drawn": drawn}


def kept_title(g, roles3):
    return g.op == "sub" and g.a[0].op == "fld" and g.a[0].a[0].op == "ev" and g.a[0].a[2] in roles3[0]


def title_text(b):
    """Text that comes from the title kept behind its lock."""
    return b.op == "app" and str(b.a[0]).startswith("msg:")


def paint(ctx, item, cfg, key, bit, names, roles3):
    f, unroll = item
    t, r, E = rerun(cfg, key, bit, names, f, unroll)
    if r is None:
        ctx.undecide("stuck", "could not analyse the tick for requests %#x: %s" % (f, list(t.p.stuck.values())[:1]))
        return
    inv = Inv()
    c = Count(inv.base)
    for s, v in r:
        for e, rp in painted(E, s):
            segs = pieces(E, s, rp) if rp is not None else None
            if segs is None:
                continue
            head = before_clock(E, segs, roles3)
            if head is None:
                continue
            if any(kept_title(g, roles3) for g in head):
                ctx.count("kept titles")
                continue
            title(ctx, E, s, e, head, c, f)


def before_clock(E, segs, roles3):
    """What comes before the line with the clock, less escape sequences."""
    out = []
    for i, g in enumerate(segs):
        if g.op == "sub":
            b = g.a[0]
            if b.op == "fld" and b.a[0].op == "ev" and b.a[2] in roles3[2]:
                return out
            if b.op == "app" and b.a[0] == "nice" and "Clock" in str((E.tyinfo(b.a[1]) or {}).get("path", "")):
                return out
        out.append(g)
    return None


def title(ctx, E, s, e, head, c, f):
    where = "%s, requests %#x" % (loc(e), f)
    ctx.count("titles")
    n = ZERO
    last = None
    shown = False
    bad = lambda: None if s.weak else False
    for g in head:
        x = c.seg(E, s, g)
        if x is None:
            w = broken(E, s, head)
            ctx.oblige(bad() if w else None, "lines|%s" % e.loc[0], "%s: the title may hold more than one line: %s%s" % (where, show(g)[:160], w or ""))
            return
        n = add(n, x)
        if g.op != "lit" or ANSI.sub(b"", g.a[0]).strip(b"\r[ "):
            last = g
        if g.op in ("sub", "rep") or g.op in ("chr", "bytev") and E.decide(s, EQ(g.a[0], INT(NL))) is not True or g.op == "lit" and ANSI.sub(b"", g.a[0]).strip(b"\r\n["):
            shown = True
    ns = c.value(E, s, n)
    n = next((x for x in ns if x.op == "int"), ns[-1])
    ends = last is not None and (last.op == "lit" and b"\n" in last.a[0] or last.op in ("chr", "bytev") and last.a[0] is INT(NL))
    if n is ZERO:
        ctx.oblige(bad() if shown else True, "break|%s" % e.loc[0], "%s: a title is drawn without a line break after it" % where, "%s: no title, no line break" % where)
        if not shown:
            missing(ctx, E, s, e, where)
        return
    if not shown:
        ctx.oblige(bad(), "empty|%s" % e.loc[0], "%s: an empty line is drawn for a title without text" % where)
        return
    ctx.oblige(True if n is ONE and ends else bad() if n.op == "int" and n is not ONE else None, "lines|%s" % e.loc[0],
               "%s: the title takes %s lines" % (where, show(n)), "%s: one line of text and its line break" % where)
    rows = row_atom(E, s)
    if rows is not None:
        d = E.decide(s, LE(INT(2), rows))
        ctx.oblige(True if d is True else bad() if E.decide(s, EQ(rows, ONE)) is not False else None, "short|%s" % e.loc[0],
                   "%s: a title is drawn although the terminal may have a single row" % where, "%s: drawn only with two rows or more" % where)


def row_atom(E, s):
    for e in s.events():
        if e.kind == "aload" and "size" in str(e.args[0]):
            ev = e.args[1]
            ts = {t for c, _ in conditions_of(s) for t in atoms_of(c) if t.op == "app" and t.a[0] == "lebyte" and ev in t.a}
            return next((t for t in ts if t.a[-1] is ONE), None)
    return None


def missing(ctx, E, s, e, where):
    """A title that is there, with room and a first line, must be drawn."""
    rows = row_atom(E, s)
    if rows is None or s.weak:
        return
    if E.decide(s, LE(INT(2), rows)) is not True:
        ctx.ok()
        return
    ds = {t for c, _ in conditions_of(s) for t in atoms_of(c) if t.op == "discr" and "Option" in str((E.tyinfo(E.typeof(t.a[0])) or {}).get("path", "")) and "msg" in str((E.tyinfo(E.typeof(t.a[0])) or {}).get("s", ""))}
    if not ds or any(E.decide(s, EQ(d, ZERO)) is True for d in ds):
        ctx.ok()
        return
    # the text cut to the width is empty, or begins with a line break
    bs = {t.a[0] for c, _ in conditions_of(s) for t in atoms_of(c) if t.op in ("len", "byte", "ch") and isinstance(t.a[0], T) and title_text(t.a[0])}
    for b in bs:
        for text in (b"A", b"Title", b"A\nB", b"A longer title of some forty characters."):
            env = {b: text, rows: 24}
            if strev.consistent(s, env, E) is True:
                ctx.oblige(False, "missing|%s" % e.loc[0], "%s: the title %r is not drawn although there is room for it" % (where, text.decode()))
                return
    if not bs:
        ctx.oblige(False, "missing|%s" % e.loc[0], "%s: there is a title and room for it, but it is not drawn" % where)
        return
    ctx.ok("%s: not drawn only when its first line is empty" % where)


def broken(E, s, head):
    """A title that is painted on more than one line."""
    bases = {g.a[0] for g in head if g.op == "sub" and title_text(g.a[0])}
    if len(bases) != 1:
        return None
    b = bases.pop()
    for text in (b"A\nB", b"A\n\nB", b"\nA"):
        env = {b: text}
        if strev.consistent(s, env, E) is not True:
            continue
        try:
            out = b"".join(strev.sev(g, env, E) for g in head)
        except strev.Unknown:
            continue
        if out.count(b"\n") > 1:
            return " (for the title %r)" % text.decode()
    return None


def run(ctx):
    build.dump("all")
    t = stored(ctx)
    if not t.ok:
        return
    singles = [1 << i for i in range(8) if t.mask >> i & 1]
    extra = (t.cfg, t.body["key"], t.w.bit, (t.w.flags, t.w.done, 0))
    res = par.collect(ctx, probe, singles, extra)
    for f, (d, err) in zip(singles, res):
        if err or d["undecided"]:
            par.merge(ctx, [(f, d, err)], "")
    got = {f: d["analysed"] for f, (d, err) in zip(singles, res) if isinstance(d["analysed"], dict) and "roles" in d["analysed"]}
    draws = [f for f, a in got.items() if a["drawn"]]
    if not draws:
        ctx.undecide("drawn", "no request draws the title")
        return
    roles3 = tuple(set().union(*(a["roles"][i] for a in got.values())) for i in range(3))
    items = list(draws)
    for f in draws:
        items += [f | x for x in singles if f | x not in items]
    if ctx.thorough:
        items += [f | x for f in list(items) for x in singles if f | x not in items]
    items = sorted(set(items), key=lambda x: -bin(x).count("1"))
    items = [(f, 0) for f in items] + [(f, 2) for f in draws]
    res = par.collect(ctx, paint, items, extra + (roles3,))
    par.merge(ctx, [("%#x" % f[0], d, err) for f, (d, err) in zip(items, res)], " (requests %s)")
    ctx.floor("stores", 6)
    ctx.floor("titles", 20)
    ctx.floor("edits", 1)
    ctx.floor("absent", 1)
    ctx.assumptions = ["with_newline(false) and set_msg do what P05 establishes", "fitting a message keeps its line structure (P08)"]
