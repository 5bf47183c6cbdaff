"""Every path of the calls that list or unlist a task.  What is inserted must be a text the call built itself, one
character at a time, from the label with its escape sequences skipped (the crate's filtering iterator): each character
added was found neither control character nor white space on that path, or is a plain space.  An insertion happens only
when that text is known not to be empty, the answer is what the set said about it, and a refusal needs an empty text or
a run that is over.  A removal is followed by exactly one update of the counter, by exactly one; nothing else counts;
and a path that removes nothing has looked for the sanitised label, cut the way it was cut when it was listed."""
import unicodedata

from .. import build, strev, witness
from ..frame import *

SAMPLES = ("A", "Label", " A", "A ", "A\tB", "A\x07B", "A\nB", "A\u00a0B", "\x1b[1mA\x1b[0m", "\t", "\x07", "x" * 300)
CTRL = ("\x07", "\n", "\t", "\x1b", "\x7f", "\x9b", "\r", "\x0b", "\u00a0", "\u2028", "\u3000", "\u0085", "\x00", "\u2003")


def ok_char(c):
    return unicodedata.category(c) != "Cc" and (c == " " or c not in strev.WS)


def sanitise(t):
    """What listing a label of this kind means (only used on samples where no cut is debatable)."""
    t = t.replace("\x1b[1m", "").replace("\x1b[0m", "")
    t = t.rstrip(strev.WS)
    return "".join(" " if c in strev.WS else c for c in t if c in strev.WS or unicodedata.category(c) != "Cc")


def atoms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            out.append(x)
            todo.extend(x.a)
    return out


def arg_base(E, x):
    """The label as passed, inside a rope."""
    for y in atoms(x):
        if y.op == "app" and y.a[0] == "as_ref" or y.op == "deref" and y.a[0].op == "sym":
            return y
        if y.op == "sym" and E.tyinfo(E.typeof(y) or -1) is not None and "str" in str((E.tyinfo(E.typeof(y)) or {}).get("s", "")):
            return y
    return None


def iterators(v, d=0, wrap=()):
    """(iterator, types around it) in a value."""
    if v.op == "it":
        yield v, wrap
    elif v.op == "agg" and d < 6:
        for x in v.a[2]:
            yield from iterators(x, d + 1, wrap + (v.a[0],))


class Job:
    def __init__(self, ctx, p, b, r, E, w):
        self.ctx, self.p, self.b, self.E, self.w = ctx, p, b, E, w
        self.r = r
        self.name = b["path"]

    def built(self, s, b):
        """The loop that built the text b: (rec, root, path, source rope, types around the iterator)"""
        for rec in looprecs(s.events()):
            for h in rec.heads:
                for root, v in h.mem.items():
                    for path, x in leaves(v):
                        if x.op == "rope" and len(x.a) and any(g.op == "sub" and g.a[0] is b for g in x.a):
                            src = None
                            for r2, v2 in rec.entry.mem.items():
                                if any(bk.mem.get(r2) is not v2 for _h, bk, _e in rec.backs):
                                    for it, wrap in iterators(v2):
                                        src = src or (it, wrap)
                            return rec, root, path, src
        return None

    def label(self, s, e, rp):
        """Is the text listed free of everything but plain characters?"""
        E, ctx = self.E, self.ctx
        for g in rp.a:
            if g.op == "lit":
                t = g.a[0].decode("utf8", "replace")
                ctx.oblige(all(ok_char(c) for c in t) or (None if s.weak else False), "label|" + self.name, "%s: %r is listed" % (loc(e), t))
            elif g.op == "chr":
                self.char(s, e, g.a[0], ())
            elif g.op == "sub" and g.a[0].op == "w":
                f = self.built(s, g.a[0])
                if f is None:
                    ctx.undecide("label|" + self.name, "%s: could not find how the label listed was built: %s" % (loc(e), show(g)[:120]))
                    continue
                self.loop(s, e, g.a[0], *f)
            elif g.op == "sub":
                arg = arg_base(E, g.a[0])
                if arg is None:
                    ctx.undecide("label|" + self.name, "%s: the label listed is not understood: %s" % (loc(e), show(g)[:120]))
                    continue
                # straight from the caller: one that would be listed as it is
                for t in SAMPLES:
                    env = self.env(s, t, False)
                    if env is None:
                        continue
                    try:
                        got = strev.sev(rp, env, E).decode()
                    except (strev.Unknown, UnicodeDecodeError):
                        continue
                    if not all(ok_char(c) for c in got) and self.feasible(s, env):
                        ctx.oblige(False, "label|" + self.name, "%s: the label %r is listed as %r" % (loc(e), t, got))
                        break
                else:
                    ctx.undecide("label|" + self.name, "%s: the label is listed as it came: %s" % (loc(e), show(g)[:120]))
            else:
                ctx.undecide("label|" + self.name, "%s: the label listed is not understood: %s" % (loc(e), show(g)[:120]))

    def loop(self, s, e, b, rec, root, path, src):
        E, ctx = self.E, self.ctx
        e0 = rec.entry.mem.get(root)
        e0 = at(e0, path) if e0 is not None else None
        if e0 is None or e0.op != "rope":
            ctx.undecide("label|" + self.name, "%s: the label listed does not start out as a known text" % loc(e))
            return
        if e0.a:
            self.label(rec.entry, e, e0)
        for h, bk, _ in rec.backs:
            v = bk.mem.get(root)
            v = at(v, path) if v is not None else None
            x = h.mem.get(root)
            x = at(x, path) if x is not None else None
            if v is None or x is None or v.op != "rope" or v.a[:len(x.a)] != x.a:
                ctx.undecide("label|" + self.name, "%s: a text that is not just added to is listed" % loc(e))
                continue
            for g in v.a[len(x.a):]:
                if g.op == "lit":
                    t = g.a[0].decode("utf8", "replace")
                    ctx.oblige(True if all(ok_char(c) for c in t) else False, "label|" + self.name, "%s: %r becomes part of a label" % (loc(e), t), "%s: %r added" % (self.name, t))
                elif g.op in ("chr", "bytev"):
                    self.char(bk, e, g.a[0], (rec, h))
                else:
                    ctx.undecide("label|" + self.name, "%s: %s becomes part of a label" % (loc(e), show(g)[:100]))
        # escape sequences
        if src is None:
            ctx.undecide("escapes|" + self.name, "%s: could not find what the label is built from" % loc(e))
            return
        it, wrap = src
        ts = [str((E.tyinfo(t) or {}).get("path", "")) for t in wrap]
        own = any(t.split("::")[0] in ("ansi", "fyi_msg") or t.startswith("ansi::") for t in ts)
        if own:
            ctx.ok("%s: escape sequences are skipped (%s)" % (self.name, ts[-1]))
            ctx.count("filters")
        else:
            ctx.oblige(False if it.a[0] in ("chars", "bytes") and not ts else None, "escapes|" + self.name,
                       "%s: the label is listed without skipping its escape sequences ('\\x1b[1mA' leaves '[1mA')" % loc(e))

    def char(self, st, e, c, where):
        E, ctx = self.E, self.ctx
        if c.op == "int":
            ctx.oblige(ok_char(chr(c.a[0])) or False, "label|" + self.name, "%s: %r becomes part of a label" % (loc(e), chr(c.a[0])), "%s: %r added" % (self.name, chr(c.a[0])))
            ctx.count("characters")
            return
        ty = E.p.ty("bool")
        ctl = E.decide(st, mk("app", "is_control", ty, c))
        ws = E.decide(st, mk("app", "is_whitespace", ty, c))
        if ctl is False and (ws is False or E.decide(st, EQ(c, INT(32))) is True):
            ctx.count("characters")
            ctx.ok("%s: characters that are neither control nor white space are added" % self.name)
            return
        for k in CTRL:
            if strev.consistent(st, {c: ord(k)}, E) is True:
                ctx.oblige(False, "label|" + self.name, "%s: the character %r becomes part of a label" % (loc(e), k))
                return
        ctx.undecide("label|" + self.name, "%s: a character that may be anything becomes part of a label" % loc(e))

    # -- scenarios --
    def running(self, s):
        """Did the path find the run active (True), over (False), or not look (None)?"""
        res = None
        for e in s.events():
            if e.kind in ("aload", "armw") and e.args[0] == self.w.flags:
                d = self.E.decide(s, EQ(mk("app", "band", self.E.typeof(e.args[1]), e.args[1], INT(self.w.bit)), ZERO)) if False else self.over(s, e.args[1])
                if d is True:
                    return False
                if d is False:
                    res = True
        return res

    def over(self, s, ev):
        for t, test in witness.conditions(s):
            if any(x is ev for x in atoms(t)):
                vals = []
                for v in (0, self.w.bit):
                    try:
                        vals.append(bool(test(strev.iev(t, {ev: v}, self.E))))
                    except strev.Unknown:
                        vals.append(None)
                if vals == [True, False]:
                    return True
                if vals == [False, True]:
                    return False
        return None

    def env(self, s, t, listed, running=True):
        """Values for a call with the label t."""
        E = self.E
        ts = set()
        for c, _ in witness.conditions(s):
            ts |= set(atoms(c))
        for e in s.events():
            for a in e.args:
                if isinstance(a, T):
                    ts |= set(atoms(a))
        env = {}
        for x in ts:
            b = arg_base(E, x) if x.op == "app" and x.a[0] == "as_ref" else None
            if b is not None:
                env[b] = t.encode()
        if not env:
            return None
        for x in ts:
            if x.op == "w" and self.built(s, x):
                env[x] = sanitise(t).encode()
        # every loop over the label must be one that built a text seen later, and nothing else may be done to it
        args = set(env)
        mine = {id(self.built(s, x)[0]) for x in env if x.op == "w"}
        for rec in looprecs(s.events()):
            if id(rec) not in mine and self.over_label(rec, args):
                return None
        if any(e.kind == "unknown" for e in s.events()):
            return None
        for x in ts:
            if x.op == "app" and x.a[0] in ("set_has", "set_new"):
                try:
                    k = strev.sev(x.a[3], env, E).decode()
                except (strev.Unknown, UnicodeDecodeError):
                    return None
                has = listed and k == sanitise(t) and bool(k) and not any(y.op == "app" and y.a[0] == "set_del" for y in atoms(x.a[2]))
                env[x] = int(has if x.a[0] == "set_has" else not has)
        return env

    def over_label(self, rec, args):
        for r, v in rec.entry.mem.items():
            if any(bk.mem.get(r) is not v for _h, bk, _e in rec.backs):
                if any(x in args for x in atoms(v)):
                    return True
        for h, bk, _e in rec.backs:
            for c, _ in witness.conditions(bk):
                if any(x in args for x in atoms(c)) and not any(c is c0 for c0, _ in witness.conditions(rec.entry)):
                    return True
        return False

    def feasible(self, s, env):
        return strev.consistent(s, env, self.E) is True


def adding(j):
    ctx, E = j.ctx, j.E
    for s, v in j.r:
        evs = list(walk(s.events()))
        ins = [e for e in evs if e.kind == "set_insert"]
        for e in ins:
            ctx.count("insertions")
            rp = e.args[1]
            rp = rp.a[0] if rp.op == "sr" else rp
            if rp.op != "rope":
                ctx.undecide("label|" + j.name, "%s: the label listed is not understood: %s" % (loc(e), show(rp)[:120]))
                continue
            j.label(s, e, rp)
            n = E.simp(s, E.len_of(rp)) if hasattr(E, "len_of") else None
            full = any(g.op == "lit" and g.a[0] or g.op == "chr" for g in rp.a) or any(g.op == "sub" and E.decide(s, EQ(sub(g.a[2], g.a[1]), ZERO)) is False for g in rp.a)
            if full:
                ctx.ok("%s: listed only when not empty" % j.name)
            else:
                w = None
                for t in ("\x07", "\x1b[1m", ""):
                    env = j.env(s, t, False)
                    if env is not None and j.feasible(s, env):
                        try:
                            if strev.sev(rp, env, E) == b"":
                                w = t
                                break
                        except strev.Unknown:
                            pass
                ctx.oblige(False if w is not None else None, "empty|" + j.name, "%s: a label without text is listed%s" % (loc(e), "" if w is None else " (%r)" % w))
        got = truth(E, s, v)
        if ins:
            # the set's answer is the call's answer
            e = ins[-1]
            new = E.decide(s, e.args[2])
            same = got is e.args[2] or isinstance(got, bool) and new is not None and got == new
            bad = isinstance(got, bool) and (new is not None and got != new or new is None)
            ctx.oblige(True if same else False if bad and (not s.weak or any_feasible(j, s)) else None, "answer|" + j.name, "%s: the call answers %s although the label was %s" % (loc(e), show(v), "newly listed" if new else "listed already" if new is False else "listed or not"),
                       "%s: answers what the set said" % j.name)
            continue
        if got is True:
            ctx.oblige(False if not s.weak or any_feasible(j, s) else None, "answer|" + j.name, "%s: the call answers true although nothing was listed: %s" % (j.name, path_of(s.events(), 8)))
            continue
        run = j.running(s)
        if run is False:
            ctx.count("refused: over")
            ctx.ok("%s: refused because the run is over" % j.name)
            continue
        # refused: the label must be without text
        hit = None
        for t in SAMPLES:
            if not sanitise(t):
                continue
            env = j.env(s, t, False)
            if env and j.feasible(s, env):
                hit = t
                break
        ctx.count("refused: empty")
        ctx.oblige(False if hit is not None else True, "refused|" + j.name, "%s: the label %r is refused: %s" % (j.name, (hit or "")[:20], path_of(s.events(), 8)), "%s: refused only without text" % j.name)


def any_feasible(j, s):
    for t in SAMPLES:
        for listed in (False, True):
            env = j.env(s, t, listed)
            if env and j.feasible(s, env):
                return t
    return None


def truth(E, s, v):
    if v.op == "int":
        return bool(v.a[0])
    d = E.decide(s, v) if v.op in ("app", "eq", "le", "not", "or", "and") else None
    return v if d is None else d


def removing(j, sources):
    ctx, E, w = j.ctx, j.E, j.w
    for s, v in j.r:
        evs = list(walk(s.events()))
        rem = [e for e in evs if e.kind == "set_remove" and (e.args[2] is True or isinstance(e.args[2], T) and E.decide(s, e.args[2]) is True or str(e.args[2]) == "True")]
        ups = [e for e in evs if e.kind == "armw" and e.args[0] == w.done]
        if rem:
            i = evs.index(rem[0])
            ctx.count("removals")
            ended = any(e.kind == "armw" and e.args[0] == w.flags and "swap" in str(e.args[3:]) + str(e.args[2]) for e in evs[i:])
            tried = [e for e in evs[i:] if e.kind == "atry" and e.args[0] == w.done]
            over = any(e.kind == "aload" and e.args[0] == w.flags and j.over(s, e.args[1]) is True for e in evs[i:])
            exact = not s.weak or any_feasible(j, s)
            if len(ups) > 1:
                ctx.oblige(False if exact else None, "twice|" + j.name, "%s: one task is counted more than once: %s" % (loc(ups[1]), path_of(s.events(), 10)))
                continue
            if not ups and not ended and not tried and not over:
                ctx.oblige(False if exact else None, "uncounted|" + j.name, "%s: a task is taken off the list without being counted: %s" % (loc(rem[0]), path_of(s.events(), 10)))
                continue
            if ups:
                bad = step(j, s, ups[0])
                ctx.oblige(bad is None, "amount|" + j.name, "%s: a finished task counts as %s" % (loc(ups[0]), bad), "%s: counts as one" % j.name)
            else:
                ctx.ok("%s: the count ends the run, or it was over" % j.name)
            continue
        if ups:
            ctx.oblige(False if not s.weak or any_feasible(j, s) else None, "unlisted|" + j.name, "%s: the count changes although no task was taken off: %s" % (loc(ups[0]), path_of(s.events(), 10)))
            continue
        run = j.running(s)
        if run is False:
            ctx.ok("%s: nothing happens when the run is over" % j.name)
            continue
        # nothing removed: the label, as listed, must have been looked for
        hit = None
        for t in SAMPLES:
            if not sanitise(t):
                continue
            env = j.env(s, t, True)
            if env and j.feasible(s, env):
                hit = t
                break
        ctx.oblige(False if hit is not None else True, "missed|" + j.name, "%s: the listed task %r is not taken off: %s" % (j.name, (hit or "")[:20], path_of(s.events(), 10)),
                   "%s: looked for as it was listed" % j.name)
        ctx.count("not listed")
        # and cut the way it was cut when it was listed
        keys = [x for e in evs if e.kind == "if" for x in atoms(e.args[0]) if isinstance(x, T) and x.op == "app" and x.a[0] == "set_has"] if True else []
        ks = set()
        for x in keys:
            ks |= set(lookups(j, s, x.a[3]))
        if not ks or not sources:
            continue
        for t in ("A", " A", "A ", "A B"):
            for src in sources:
                env = j.env(s, t, False)
                arg = next(iter(env)) if env else None
                try:
                    put = strev.sev(src[1], {src[0]: t.encode()}, E)
                    got = {strev.sev(k, {arg_base(E, k): t.encode()}, E) for k in ks}
                except strev.Unknown:
                    continue
                env2 = {**env, **{x: put for x in env if x.op == "w"}} if env else None
                if put.strip() and put not in got and env2 and strev.consistent(s, {k: v for k, v in env2.items() if not (k.op == "app" and k.a[0].startswith("set_"))}, E) is not False:
                    ctx.oblige(False, "missed|" + j.name, "%s: the label %r is listed as %r but looked for as %s" % (j.name, t, put.decode(), sorted(x.decode() for x in got)))


def lookups(j, s, rp):
    """What a lookup is made from: the text itself, or what the sanitised text was built from."""
    rp = rp.a[0] if rp.op == "sr" else rp
    out = []
    for g in rp.a if rp.op == "rope" else ():
        if g.op == "sub" and g.a[0].op == "w":
            f = j.built(s, g.a[0])
            if f and f[3]:
                out.append(f[3][0].a[1])
        elif g.op == "sub" and arg_base(j.E, g.a[0]) is not None:
            out.append(rp)
    return out


def step(j, s, e):
    """How much an update adds, when not exactly one."""
    for old in ((3 << 32) | 10, (0 << 32) | 2, (7 << 32) | 0xffffffff):
        ev = e.args[1]
        if strev.consistent(s, {ev: old}, j.E) is not True:
            continue
        try:
            new = strev.iev(e.args[2], {ev: old}, j.E)
        except strev.Unknown:
            continue
        d = (new >> 32) - (old >> 32)
        if d != 1:
            return str(d)
    return None


def run(ctx):
    build.dump("all")
    w = World("all")
    if w.role is None:
        w.report_gaps(ctx)
        ctx.undecide("roles", "could not find the run state and the counter")
        return
    p = Prog("all", mergeat=100000)
    jobs = []
    for b in p.entries():
        if not b["path"].split("::")[-1] in ("add", "remove") and not any(k in str(b["path"]) for k in ("task",)):
            continue
        r, E = p.run(b, trace_if=lambda l: True)
        if r is None:
            ctx.undecide("stuck|" + b["path"], "could not analyse %s: %s" % (b["path"], list(p.stuck.values())[-1:]))
            continue
        jobs.append(Job(ctx, p, b, r, E, w))
    sources = []
    for j in jobs:
        if any(e.kind == "set_insert" for s, v in j.r for e in walk(s.events())):
            ctx.count("adders")
            adding(j)
            for s, v in j.r:
                for e in walk(s.events()):
                    if e.kind == "set_insert":
                        for k in lookups(j, s, e.args[1]):
                            a = arg_base(j.E, k)
                            if a is not None:
                                sources.append((a, k))
    for j in jobs:
        if any(e.kind == "set_remove" for s, v in j.r for e in walk(s.events())):
            ctx.count("removers")
            removing(j, sources[:1])
    for k, n in (("adders", 1), ("removers", 1), ("insertions", 2), ("characters", 2), ("filters", 1), ("removals", 2), ("not listed", 1), ("refused: over", 1), ("refused: empty", 1)):
        ctx.floor(k, n)
    ctx.trusted.append("the filtering iterator of the ansi module skips whole escape sequences; a BTreeSet holds each text once")
    ctx.assumptions.append("labels are cut only at their ends before they are sanitised")
