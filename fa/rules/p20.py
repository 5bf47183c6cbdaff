"""Publish-then-request order and request consumption.  Every change of the title, the task list or the counter on a
path of a public call (or of the ticker) is followed -- or, for data behind a lock, accompanied within the same critical
section -- by an atomic request that leaves the running bit alone, unless that path ends the run or finds it ended.
The consumer (the tick) is enumerated with all its tests of the consumed request: on every path compatible with the
request made, it reads that data after consuming and has rewritten every part of the frame that depends on it by the
time it paints; no path swallows the request without painting.  Which parts depend on which data is read off the
paths themselves."""
from .. import par
from ..prog import *


class PaintSlim(Slim):
    """Paint events carry which fields of the frame buffer differ from what they were when it was locked."""

    def __init__(self, w):
        Slim.__init__(self, bits=None)
        self.w = w

    def __call__(self, E, st, kind, args):
        r = Slim.__call__(self, E, st, kind, args)
        if kind in ("writev", "write", "write_some") and r is not None and args[0] == "stderr":
            return tuple(r) + (self.changed(E, st),)
        return r

    def changed(self, E, st):
        out = []
        last = {}
        for r, v in st.mem.items():
            if r.op == "mx" and r.a[1] in st.locks and (r.a[1] not in last or r.a[0] > last[r.a[1]][0]):
                last[r.a[1]] = (r.a[0], r, v)
        for _n, r, v in last.values():
            t = st.mem.get(mk("touched", r))
            for i in t.a[0] if t is not None else ():
                out.append(((r.a[1], i), self.low_only(E.proj(st, v, ("f", i, None)))))
        return tuple(sorted(out, key=str))

    def low_only(self, x):
        """Does the value only look at the lower (total) half of the counter?"""
        low, other = False, False
        todo = [x]
        while todo:
            t = todo.pop()
            if isinstance(t, tuple):
                todo.extend(t)
                continue
            if not isinstance(t, T):
                continue
            if t.op == "app" and t.a[0] == "band" and any(y.op == "int" and y.a[0] == M32 for y in t.a[2:] if isinstance(y, T)):
                if any(a.op == "ev" and a.a[2] == "atomic:" + self.w.done for a in atoms(t)):
                    low = True
                    continue
            if t.op == "ev" and t.a[2] == "atomic:" + self.w.done:
                other = True
            if t.op == "w":
                other = True
            if t.op not in ("ev", "sym", "w", "int", "lit"):
                todo.extend(t.a)
        return low and not other


def sequences(evs, weak):
    yield evs, weak
    for e in evs:
        if e.kind == "loop":
            for sub, wk in bodies(e):
                for x in sequences(sub, wk):
                    yield x


IDLE = {}


def idle(cfg, w, name):
    """On every path of this entry that updates the counter without a request (and without ending the run), is the new
    value the old one?"""
    if (cfg, name) not in IDLE:
        p = Prog(cfg)
        good = False
        for b in p.entries():
            if b["path"] != name:
                continue
            r, E = p.run(b, trace_if=lambda l: True)
            good = r is not None
            for s, v in r or []:
                evs = s.events()
                for i, e in enumerate(evs):
                    if e.kind not in ("armw", "astore") or e.args[0] != w.done:
                        continue
                    if any(x.kind in ("armw", "astore") and x.args[0] == w.flags for x in evs[i:]):
                        continue
                    if e.kind == "astore":
                        # (only after the run has ended)
                        writes = [x.kind == "armw" and x.args[2] is not None for x in evs[:i] if x.kind in ("armw", "astore") and x.args[0] == w.flags]
                        good = good and bool(writes) and writes[-1] and ends(E, s, w, evs[:i])
                        continue
                    x = E.resimp(s, e.args[2])
                    if x is not E.resimp(s, e.args[1]) and E.decide(s, EQ(x, E.resimp(s, e.args[1]))) is not True and not same_halves(E, s, e.args[1], e.args[2]):
                        good = False
        IDLE[(cfg, name)] = good
    return IDLE[(cfg, name)]


def ends(E, s, w, evs):
    """Is the last value given to the flags one without the running bit?"""
    e = [e for e in evs if e.kind == "armw" and e.args[0] == w.flags][-1]
    u8 = E.p.ty("u8")
    return E.decide(s, EQ(E.binop(s, "BitAnd", E.resimp(s, e.args[2]), INT(w.bit), u8, u8), INT(0))) is True


def same_halves(E, s, a, b):
    u64 = E.p.ty("u64")
    for hi in (True, False):
        x, y = [E.binop(s, "Shr", E.resimp(s, v), INT(32), u64, u64) if hi else E.binop(s, "BitAnd", E.resimp(s, v), INT(M32), u64, u64) for v in (a, b)]
        if x is not y and E.decide(s, EQ(x, y)) is not True:
            return False
    return True


def comp_of(w, e):
    """(component, index of lock needed?) written by an event."""
    if e.kind in ("astore", "armw") and e.args[0] == w.done:
        return w.done
    if e.kind in ("set_insert", "set_remove", "set_clear"):
        return e.args[0]
    if e.kind == "unlock" and e.args[2] and "msg::Msg" in e.args[0]:
        return e.args[0]
    return None


def the_tick(cfg, w):
    """The private function that consumes the requests and paints, and a way to run it."""
    p = Prog(cfg, slim=PaintSlim(w))
    p.track = True
    p.fixed = {w.flags: w.bit | 0xff}
    inner = [b for b in p.P.list if b["identity"] and b["local"] and not b.get("closure_of") and (b["impl_self"] or "").startswith("progress::")
             and not b["public"] and b["path"].split("::")[-1] not in ("fmt", "clone", "default")]
    best = None
    for b in [b for b in inner if b["path"].split("::")[-1] == "tick"] or inner:
        r, E = p.run(b)
        if r is None:
            continue
        fin = p.finals(r, E)
        evs = [e for _, s, _ in fin for e in walk(s.events())]
        got = [e for e in evs if consumes(w, e)]
        if got and any(is_paint(e) for e in evs) and (best is None or len(fin) < best[2]):
            best = (b, {~e.args[2] & 0xff for e in got if e.args[2] is not None}, len(fin))
    return (p,) + best if best else None


def consumes(w, e):
    return e.kind == "armw" and e.args[0] == w.flags and e.args[1] in ("fetch_and", "swap") and flags_write(w, e) != "set"


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    if w.role is None:
        return
    tick = the_tick(cfg, w)
    if tick is None:
        ctx.undecide("tick|" + cfg, "could not find the function that consumes repaint requests")
        return
    tp, tb, masks, _n = tick
    ctx.analysed["tick"] = tb["path"]
    # ---- the consumer's paths, for every set of requests
    paths = []
    mask = 0
    for m in masks:
        mask |= m
    mask &= ~w.bit & 0xff
    v = 0
    while True:
        v = (v - mask) & mask      # the next subset
        tp.fixed = {w.flags: w.bit | v}
        r, E = tp.run(tb)
        for s, _ in r or []:
            evs = s.events()
            idx = next((i for i, e in enumerate(evs) if consumes(w, e)), None)
            if idx is None:
                continue
            if flags_write(w, evs[idx]) != "keep":
                ctx.oblige(None if s.weak else False, "stops|" + evs[idx].loc[0], "%s: consuming the repaint requests also changes the running state" % loc(evs[idx]))
            paint = next((i for i in range(idx, len(evs)) if evs[i].kind == "loop" and any(is_paint(x) for x in walk([evs[i]])) or is_paint(evs[i])), None)
            changed = {}
            if paint is not None:
                x = next(x for x in walk([evs[paint]]) if is_paint(x))
                changed = dict(x.args[-1])
            reads = {}
            for i, e in enumerate(evs[:paint if paint is not None else len(evs)]):
                if e.kind in ("aload", "armw") and e.args[0] == w.done:
                    reads[w.done] = i
                elif e.kind == "lock":
                    reads[e.args[0]] = i
            paths.append((evs, s, idx, paint, changed, reads, v))
        if v == 0:
            break
    ctx.count("request sets", 1 << bin(mask).count("1"))
    ctx.count("tick paths", len(paths))
    comps = {}
    for name, how, evs, s, v in w.traces():
        for e in walk(evs):
            c = comp_of(w, e)
            if c:
                comps.setdefault(c, set())
    deps, lowonly = {}, {}
    for c in comps:
        yes, no = set(), set()
        for evs, s, idx, paint, changed, reads, v in paths:
            if paint is None:
                continue
            if c in reads:
                yes |= set(changed)
            else:
                no |= set(changed)
        deps[c] = yes - no
    for evs, s, idx, paint, changed, reads, v in paths:
        for f, low in changed.items():
            lowonly[f] = lowonly.get(f, True) and low
    deps[w.done] = {f for f in deps.get(w.done, ()) if not lowonly.get(f)}
    ctx.analysed["depends"] = {c: sorted(map(str, d)) for c, d in deps.items()}
    ctx.count("dependent parts", sum(len(d) for d in deps.values()))
    # ---- the publishers
    requests = {}
    for name, how, evs0, s, v in w.traces():
        kind = w.kind_of(name)
        if kind not in ("entry", "thread") or how == "panic":
            continue
        for evs, weak in sequences(evs0, s.weak):
            bad = None if weak else False
            run = {i: w.running(e) for i, e in enumerate(evs) if w.running(e) is not None}
            clears = [i for i, e in enumerate(evs) if flags_write(w, e) == "clear"]
            for i, e in enumerate(evs):
                fw = flags_write(w, e)
                if e.kind == "armw" and e.args[0] == w.flags and e.args[1] in ("fetch_or", "fetch_xor") and (fw == "set" or e.args[1] == "fetch_xor"):
                    ctx.oblige(bad, "revives|" + e.loc[0], "%s: a repaint request also switches the running state on [%s]" % (loc(e), name))
                c = comp_of(w, e)
                if c is None:
                    continue
                if e.kind == "set_remove" and not e.args[1]:
                    continue
                if e.kind == "set_insert" and not (v is not None and v.op == "int" and v.a[0] == 1):
                    continue
                lock = i
                if e.kind != "astore" and e.kind != "armw":
                    lock = max([j for j in range(i) if evs[j].kind == "lock" and evs[j].args[0] == c], default=i)
                req, stored = 0, None
                first = None
                for j in range(lock + 1, len(evs)):
                    x = evs[j]
                    if x.kind == "armw" and x.args[0] == w.flags and x.args[1] == "fetch_or":
                        if x.args[2] is None:
                            req = None
                        elif req is not None:
                            req |= x.args[2]
                        first = first if first is not None else j
                    elif x.kind == "astore" and x.args[0] == w.flags and x.args[1]:
                        req = (req or 0) | x.args[1] if req is not None else None
                        first = first if first is not None else j
                ended = any(j > i for j in clears) or (clears and clears[-1] < i and not any(flags_write(w, evs[j]) == "set" for j in range(clears[-1], len(evs))))
                stopped = any(j > lock and r is False for j, r in run.items())
                late = clears and clears[-1] < i and any(flags_write(w, evs[j]) == "set" for j in range(i, len(evs)))
                if ended or stopped:
                    ctx.count("changes that end with the run")
                    if not req:
                        continue
                if req is None:
                    ctx.undecide("request|" + e.loc[0], "%s: unknown request" % loc(e))
                    continue
                ctx.count("published changes")
                who = ("value replaced" if e.kind == "unlock" else e.kind)
                if not req and c == w.done and idle(cfg, w, name):
                    continue        # (the exact traces show that the value did not change)
                if not req:
                    before = [j for j in range(lock) if evs[j].kind == "armw" and evs[j].args[0] == w.flags and evs[j].args[1] == "fetch_or"]
                    ctx.oblige(bad, "unrequested|%s|%s" % (c, name), "%s: %s %s [%s]" % (
                        loc(e), c, "changes after its repaint was requested: a tick in between loses it" if before else "changes without requesting a repaint", name))
                    continue
                requests.setdefault((c, req & 0xff & ~w.bit, bool(weak)), (name, loc(e), who))
    # ---- do the requests suffice?
    for (c, req, weak), (name, at, who) in sorted(requests.items(), key=str):
        ctx.count("kinds of request")
        if not req & mask:
            ctx.oblige(None if weak else False, "ignored|%s|%d" % (c, req), "%s: the request (%d) made when %s changes is not one that the tick looks at [%s]" % (at, req, c, name))
            continue
        n = 0
        for evs, s, idx, paint, changed, reads, v in paths:
            if v & req != req & mask:
                continue
            n += 1
            bad = None if s.weak or weak else False
            if paint is None:
                ctx.oblige(bad, "swallowed|%s|%s" % (c, req), "%s: the repaint request (%d) made at %s [%s] is consumed without painting (%s)" % (loc(evs[idx]), req, at, name, path_of(evs[idx:], 8)))
                continue
            if c not in reads:
                ctx.oblige(bad, "unread|%s|%s" % (c, req), "the repaint request (%d) made at %s [%s] does not make %s read %s (%s)" % (req, at, name, tb["path"], c, path_of(evs[idx:], 8)))
                continue
            ctx.oblige(True if reads[c] > idx else bad, "early|%s" % c, "%s: %s is read before the requests for it are consumed: a change in between is lost" % (loc(evs[reads[c]]), c),
                       "%s: read after consuming" % c)
            miss = deps[c] - set(changed)
            ctx.oblige(True if not miss else bad, "stale|%s|%s" % (c, req), "the repaint request (%d) made at %s [%s] leaves part %s of the frame stale" % (req, at, name, sorted(map(str, miss))),
                       "request %d: %d parts refreshed" % (req, len(deps[c])))
        ctx.oblige(True if n else None, "unmatched|%s|%d" % (c, req), "no tick path matches request %d" % req)


def run(ctx):
    par.each(ctx, run_config, ["all", "progress"])
    ctx.floor("published changes", 12)
    ctx.floor("kinds of request", 6)
    ctx.floor("tick paths", 100)
    ctx.floor("dependent parts", 12)
    ctx.assumptions = ["sequentially consistent atomics", "the ticker keeps ticking while the run is active (P19)"]
