"""Typestate of the cursor over every path of the ticker thread, of every public progress call and of the SIGINT callbacks
(returns, process exits, and unwinding out of any call the ticker makes): once a path writes the hide sequence it must
write the show sequence before it ends.  A callback that ends the process must write the show sequence first, as must
one that records the first signal."""
from .. import par
from ..prog import *

HIDE, SHOW = b"\x1b[?25l", b"\x1b[?25h"


def steps(evs):
    """(event, 'hide'|'show') in order; a loop counts as what its bodies may do."""
    for e in evs:
        if e.kind == "loop":
            for sub, _weak in bodies(e):
                for x in steps(sub):
                    yield x
        elif e.kind in ("write", "write_some") and isinstance(e.args[1], bytes):
            b = e.args[1]
            i, j = b.rfind(HIDE), b.rfind(SHOW)
            if i > j:
                yield e, "hide"
            elif j >= 0 and e.kind == "write" and e.args[0] == "stderr":
                yield e, "show"


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    jobs = [(name, how, evs, s) for name, how, evs, s, v in w.traces()]
    # The ticker threads again, with unwinding out of every call they make.
    for name in list(w.res):
        if w.kind_of(name) != "thread":
            continue
        path = name.split(":", 1)[1]
        for b in w.p.P.list:
            if b["path"] == path:
                r, E = w.p.run(b, unwind=True)
                if r is None:
                    continue
                jobs += [(name, how, s.events(), s) for how, s, v in w.p.finals(r, E)]
    for name, how, evs, s in jobs:
        if how == "panic":
            continue        # covered by unwinding at the ticker's own calls
        hidden = None
        for e, what in steps(evs):
            hidden = e if what == "hide" else None
            ctx.count(what + " writes")
        if w.kind_of(name) == "thread" or any(1 for _ in steps(evs)):
            ctx.count("ways out (%s)" % how)
            ctx.oblige(True if hidden is None else (None if s.weak else False), "hidden|%s|%s" % (name, how),
                       "%s: the cursor is hidden and never shown again on a way out (%s) of %s" % (loc(hidden) if hidden else "", how, name),
                       "%s (%s): shown again" % (name, how))
    # Callbacks
    for name, how, evs, s, v in w.traces():
        if not name.startswith("signal "):
            continue
        if any(e.kind == "fderr" for e in walk(evs)):
            continue        # standard error is gone
        shown = any(what == "show" for _e, what in steps(evs))
        seen = [e for e in walk(evs) if e.kind == "test" and e.args[2] == 1]
        again = bool(seen) and all(e.args[3] for e in seen)
        ends = how == "exit"
        if ends or not again:
            ctx.count("callback paths")
            ctx.oblige(True if shown else (None if s.weak else False), "callback|%s|%s" % (name, how),
                       "%s %s without showing the cursor" % (name, "ends the process" if ends else "takes the first signal"), "%s (%s) shows it" % (name, how))
    ctx.analysed = {"entries": len(w.res)}


def run(ctx):
    par.each(ctx, run_config, ["all", "sigint"])
    ctx.floor("hide writes", 4)
    ctx.floor("ways out (return)", 4)
    ctx.floor("ways out (unwind)", 4)
    ctx.floor("callback paths", 8)
    ctx.assumptions = ["a terminal that cannot be written to (failed descriptor duplication) is out of scope"]
