"""Path enumeration of the three SIGINT policies.  From the published policy functions and the ticker the once-cell, its
initialisers and the registered callbacks are followed: one cell for all, one registration of SIGINT per initialiser and
none elsewhere, the flag handed out is the one the callback owns and starts out false.  Each callback sets the flag on
every path before anything else; default exits with status 1 on every path, two-strike exactly when the flag was already
set, keepalive never."""
from .. import par
from ..prog import *


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    cells, policy, callbacks = {}, {}, {}
    for name, how, evs, s, v in w.traces():
        E = w.res[name][1]
        kind = w.kind_of(name)
        for e in walk(evs):
            if e.kind == "once":
                cb = w.p.closure_body(E, e.args[1])
                # Only cells whose initialiser registers SIGINT matter.
                init = "init:" + cb["path"] if cb else None
                fin = w.res.get(init, (None,))[0] or []
                if not any(x.kind == "sig_register" for _h, st, _v in fin for x in walk(st.events())):
                    continue
                cells.setdefault(e.args[0], loc(e))
                who = "keepalive" if name.endswith("sigint_keepalive") else "two_strike" if name.endswith("sigint_two_strike") else "default"
                policy.setdefault(who, set()).add(init)
                ctx.count("cell uses")
            if e.kind == "sig_register" and e.args[0].op == "int" and e.args[0].a[0] == 2 and kind != "init":
                ctx.violate("stray|" + e.loc[0], "%s: registers for SIGINT outside the shared cell [%s]" % (loc(e), name))
        # What the public functions hand out is the cell's content.
        if name.endswith(("sigint_keepalive", "sigint_two_strike")) and kind == "entry" and how == "return":
            x = v
            while x is not None and x.op == "ref":
                x = E.read(s, ("mem", x.a[0], x.a[1]))
            loose = x is not None and ("new(" in show(x) or v.op == "ref")
            ctx.oblige(True if "once(" in show(x) else (False if loose and not s.weak else None), "returned|" + name, "%s does not return the registered flag: %s" % (name, show(x)),
                       "%s returns the cell's flag" % name)
    if cells:
        ctx.oblige(len(cells) == 1, "cells", "the policies use different cells: %s" % cells, "one cell: %s" % list(cells)[0])
    for who in ("default", "two_strike", "keepalive"):
        inits = policy.get(who, set())
        if len(inits) != 1:
            ctx.oblige(None if not inits else False, "init|" + who, "policy %s has %d initialisers: %s" % (who, len(inits), sorted(inits)))
            continue
        init = list(inits)[0]
        ctx.count("policies")
        for how, s, v in w.res[init][0]:
            evs = s.events()
            E = w.res[init][1]
            regs = [e for e in walk(evs) if e.kind == "sig_register" and e.args[0].op == "int" and e.args[0].a[0] == 2]
            if how == "return":
                bad = None if s.weak else False
                ctx.oblige(True if len(regs) == 1 else bad, "registrations|" + who, "policy %s registers SIGINT %d times" % (who, len(regs)), "%s: one registration" % who)
                failed = any(e.kind == "sig_fail" for e in evs)
                ctx.oblige(True if not failed else bad, "failed|" + who, "policy %s carries on although registration failed" % who, "%s: registration failure ends the process" % who)
                for e in regs[:1]:
                    own = [x for x in atoms(e.args[1])] if e.args[1].op != "agg" else list(e.args[1].a[2])
                    same = v in own
                    ctx.oblige(True if same else bad, "flag|" + who, "%s: policy %s hands out a flag its callback does not own" % (loc(e), who), "%s: %s shares %s" % (loc(e), who, show(v)))
                    if v.op == "ref":
                        x = s.mem.get(v.a[0])
                        fresh = x is not None and ("new(0)" in show(x) or x.op == "int" and x.a[0] == 0)
                        ctx.oblige(True if fresh else (False if x is not None and "new(1)" in show(x) else None), "initial|" + who, "policy %s starts with the flag set" % who, "%s: flag starts clear" % who)
            for e in regs:
                cb = w.p.closure_body(E, e.args[1])
                if cb:
                    callbacks.setdefault(who, set()).add("signal 2:" + cb["path"])
                else:
                    ctx.undecide("callback|" + who, "callback of %s not found" % who)
    for who, names in callbacks.items():
        for n in names:
            for how, s, v in (w.res.get(n) or (None,))[0] or []:
                evs = [e for e in walk(s.events())]
                bad = None if s.weak else False
                ctx.count("callback paths")
                # the flag is set first
                sets = [i for i, e in enumerate(evs) if e.kind in ("armw", "astore") and "bool" in e.args[0]]
                good = bool(sets) and all(e.kind in ("aload", "test") for e in evs[:sets[0]])
                val = evs[sets[0]].args[-1] if sets else None
                exits = [i for i, e in enumerate(evs) if e.kind == "exit"]
                if sets and exits and sets[0] > exits[0]:
                    good = False
                setall = bool(sets) and all(evs[i].args[-1] == 1 for i in sets)
                # A path that neither stores nor exits may be one where the flag is already known to be set.
                known = [e for e in evs if e.kind == "test" and "bool" in e.args[0]]
                if not sets and known and all(e.args[3] for e in known):
                    good = setall = True
                ctx.oblige(True if good and setall else bad, "record|%s" % who, "%s does not record the signal first (%s)" % (n, path_of(evs)), "%s records the signal" % n)
                code = [evs[i].args[1] for i in exits]
                if exits:
                    ctx.oblige(True if code == [1] else bad, "status|%s" % who, "%s exits with status %s" % (n, code), "%s exits with 1" % n)
                if who == "keepalive":
                    ctx.oblige(True if how == "return" and not exits else bad, "keepalive", "%s ends the process" % n, "%s returns" % n)
                elif who == "default":
                    ctx.oblige(True if how == "exit" and exits else bad, "default", "%s survives a SIGINT (%s)" % (n, path_of(evs)), "%s exits" % n)
                else:
                    rmw = [e for e in evs if e.kind == "armw" and "bool" in e.args[0]]
                    olds = {e.args[3] for e in evs if e.kind == "test" and "bool" in e.args[0]}
                    if len(olds) == 1 and rmw:
                        old = olds.pop()
                        ctx.oblige(True if (how == "exit") == old else bad, "two_strike|%s" % old,
                                   "%s %s when the flag was %s" % (n, "ends the process" if how == "exit" else "carries on", "already set" if old else "clear"),
                                   "%s: flag %s -> %s" % (n, old, how))
                        ctx.count("two-strike cases")
                    elif not olds:
                        # not even looked at: cannot distinguish first from second
                        ctx.oblige(bad, "two_strike|blind", "%s does not look at whether this is the first signal" % n)
                    else:
                        ctx.oblige(bad if not rmw else None, "two_strike|race", "%s tests and sets the flag separately" % n)
    ctx.analysed = {"policies": {k: sorted(v) for k, v in callbacks.items()}, "cells": list(cells)}


def run(ctx):
    par.each(ctx, run_config, ["all", "sigint"])
    ctx.floor("cell uses", 3)
    ctx.floor("policies", 6)
    ctx.floor("callback paths", 8)
    ctx.floor("two-strike cases", 4)
    ctx.assumptions = ["a once-cell runs at most one initialiser (std)", "the signal registry calls the closure it was given"]
