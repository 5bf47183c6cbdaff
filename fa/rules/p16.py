"""Path enumeration of how a run ends and restarts, over every public call and the ticker.  The running state is cleared
only by an atomic exchange (so exactly one caller observes it set); the path that observed it set -- and only that path --
takes standard error, sets done to the total, freezes the elapsed time, clears the task list and erases the bar.  Task
insertions (confirmed again under the task lock), removals and counter updates happen only on paths that found the run
active.  Reset ends the old run first, then stores (0, total), then restores the running state with everything due for
repaint."""
from .. import par, witness
from ..prog import *
from .p15 import M


def effects(w, evs):
    out = set()
    for e in evs:
        if e.kind == "set_clear":
            out.add("clear")
        elif is_erase(e):
            out.add("erase")
        elif e.kind == "astore" and e.args[0] not in (w.flags, w.done) and "bool" not in e.args[0]:
            out.add("elapsed")
        elif e.kind in ("astore", "armw") and e.args[0] == w.done:
            out.add("done")
    return out


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    if w.role is None:
        return
    consumed = 0
    for name, how, evs, s, v in w.traces():
        for e in walk(evs):
            if e.kind == "armw" and e.args[0] == w.flags and e.args[1] == "fetch_and" and e.args[2] is not None and e.args[2] & w.bit:
                consumed |= 0xff & ~e.args[2]
    for name, how, evs, s, v in w.traces():
        kind = w.kind_of(name)
        if kind not in ("entry", "thread") or how == "panic":
            continue
        short = name.split("::")[-1]
        bad = None if s.weak else False
        pos = positions(w, evs)
        held = dict((id(e), h) for e, h in replay(evs))
        clears = []
        for i, e in enumerate(evs):
            fw = flags_write(w, e)
            if fw is None or fw == "keep":
                continue
            if e.kind == "astore" and fw in ("clear", "unknown"):
                ctx.violate("store|" + e.loc[0], "%s: the running state is cleared by a plain store: two finishers can both believe they were first [%s]" % (loc(e), name)) if not s.weak and fw == "clear" else ctx.undecide("store|" + e.loc[0], "unknown value stored to the run state")
                continue
            if fw == "clear":
                clears.append(i)
                ctx.count("clears")
            elif fw == "set":
                # restart
                ctx.count("restarts")
                done = [j for j, x in enumerate(evs) if x.kind == "astore" and x.args[0] == w.done and j < i and (not clears or j > clears[-1])]
                last = done[-1] if done else None
                ctx.oblige(True if clears and clears[-1] < i else bad, "restart-unended|" + name, "%s: a run is started without ending the previous one [%s]" % (loc(e), name), "%s: the old run is ended before restarting" % name)
                ctx.oblige(True if last is not None else bad, "restart-count|" + name, "%s: the run is restarted before its counter is set [%s]" % (loc(e), name), "%s: counter set before restarting" % name)
                x = e.args[-1]
                ctx.oblige(True if x is not None and x & consumed == consumed else (None if x is None or s.weak else False), "restart-paint|" + name,
                           "%s: after a reset not everything is due for repaint (%s of %s)" % (loc(e), x, consumed), "%s: flags %s cover %s" % (name, x, consumed))
            elif fw == "unknown":
                ctx.undecide("flags|" + e.loc[0], "%s: unknown change of the run state" % loc(e))
        for n, i in enumerate(clears):
            end = clears[n + 1] if n + 1 < len(clears) else len(evs)
            olds = {w.running(evs[j]) for j, l in pos.items() if l == i} - {None}
            eff = effects(w, evs[i:end])
            if short in ("reset", "try_reset") and end == len(evs):
                eff_first = effects(w, evs[i:next((j for j in range(i + 1, end) if flags_write(w, evs[j]) == "set"), end)])
                eff = eff_first
            if olds == {True}:
                ctx.count("first finishers")
                for k, t in (("elapsed", "freeze the elapsed time"), ("clear", "clear the task list"), ("erase", "erase the bar")):
                    ctx.oblige(True if k in eff else bad, "end-%s|%s" % (k, name), "%s: ending the run does not %s [%s]" % (loc(evs[i]), t, name), "%s: %s" % (name, k))
            elif olds == {False}:
                ctx.count("late finishers")
                extra = eff - ({"done"} if short in ("reset", "try_reset") else set())
                ctx.oblige(True if not extra else bad, "late|" + name, "%s: a caller that did not end the run still does %s [%s]" % (loc(evs[i]), sorted(extra), name), "%s: nothing when already ended" % name)
            else:
                ctx.oblige(bad if eff & {"clear", "erase", "elapsed"} else None, "untested|" + name, "%s: the run is ended without checking whether it was active [%s]" % (loc(evs[i]), name))
        if short in ("finish", "reset") and how == "return":
            ctx.oblige(True if clears else bad, "ends|" + name, "%s does not end the run (%s)" % (name, path_of(evs)), "%s ends the run" % name)
        # the task list
        for i, e in enumerate(evs):
            if e.kind == "set_insert":
                ctx.count("insertions")
                lk = max([j for j in range(i) if evs[j].kind == "lock" and evs[j].args[0] == e.args[0]], default=None)
                conf = [j for j, l in pos.items() if j < i and lk is not None and l > lk and w.running(evs[j]) is True]
                ctx.oblige(True if conf else bad, "insert|" + name, "%s: a task is listed without confirming, under the list's lock, that the run is active [%s]" % (loc(e), name), "%s: confirmed under the lock" % loc(e))
            if e.kind == "set_remove" or (e.kind == "armw" and e.args[0] == w.done and not any(c < i for c in clears)):
                ctx.count("guarded changes")
                conf = [j for j in pos if j < i and w.running(evs[j]) is True]
                ctx.oblige(True if conf else bad, "unguarded|%s|%s" % (e.kind, name), "%s: changes a run that may have ended [%s]" % (loc(e), name), "%s: run found active first" % loc(e))
    # Values, from the exact traces of finish and reset.
    p = Prog(cfg)
    for b in w.p.entries():
        short = b["path"].split("::")[-1]
        if short not in ("finish", "reset"):
            continue
        r, E = p.run(b, trace_if=lambda l: True)
        if r is None:
            continue
        u64 = E.p.ty("u64")
        part = lambda s, x, hi: E.binop(s, "Shr", E.resimp(s, x), INT(32), u64, u64) if hi else E.binop(s, "BitAnd", E.resimp(s, x), INT(M), u64, u64)
        for s, v in r:
            evs = s.events()
            clear = None
            first = False
            for i, e in enumerate(evs):
                if clear is None and e.kind == "armw" and e.args[0] == w.flags:
                    clear = i
                    ty = E.typeof(e.args[1])
                    first = E.decide(s, EQ(E.binop(s, "BitAnd", e.args[1], INT(w.bit), ty, ty), INT(w.bit)))
            if clear is None or first is not True:
                continue
            after = evs[clear:]
            restart = next((i for i, e in enumerate(after) if e.kind == "astore" and e.args[0] == w.flags), len(after))
            loads = [e.args[1] for e in after[:restart] if e.kind in ("aload", "armw") and e.args[0] == w.done]
            stores = [e for e in after[:restart] if e.kind in ("astore",) and e.args[0] == w.done]
            if loads and (not stores or short == "reset" and len(stores) == 1):
                ctx.count("already complete")
                witness.goal(ctx, E, s, EQ(part(s, loads[-1], True), part(s, loads[-1], False)), "end-done|" + b["path"],
                             "%s: the run is ended without setting done to the total" % b["path"], "%s: done already equals the total" % b["path"])
            elif not loads and not stores:
                ctx.oblige(None if s.weak else False, "end-done|" + b["path"], "%s: the run is ended without setting done to the total" % b["path"])
            el = [e for e in after[:restart] if e.kind == "astore" and e.args[0] not in (w.flags, w.done)]
            for e in el:
                ctx.count("frozen times")
                timed = any(x.op == "ev" and "time" in str(x.a[2]) or x.op == "app" and x.a[0] == "as_secs" for x in atoms(e.args[1])) or "as_secs" in show(e.args[1])
                sat = e.args[1].op == "int" and e.args[1].a[0] == M and any("as_secs" in show(t) for t, _ in witness.conditions(s))
                ctx.oblige(True if timed or sat else (False if e.args[1].op == "int" and not s.weak else None), "frozen|" + b["path"],
                           "%s: the frozen time is %s, not the time elapsed" % (loc(e), show(e.args[1])), "%s: freezes the time elapsed" % loc(e))
            if short == "reset":
                st = [e for e in after if e.kind == "astore" and e.args[0] == w.done]
                if st:
                    ctx.count("reset values")
                    a1 = mk("sym", "a1", b["locals"][2])
                    witness.goal(ctx, E, s, EQ(part(s, st[-1].args[1], False), a1), "reset-total", "%s: reset does not store the requested total" % loc(st[-1]), "%s: reset stores the total" % loc(st[-1]))
                    witness.goal(ctx, E, s, EQ(part(s, st[-1].args[1], True), ZERO), "reset-done", "%s: reset does not start with nothing done" % loc(st[-1]), "%s: zero done" % loc(st[-1]))
    ctx.analysed = {"entries": len(w.res), "repaint bits": consumed}


def run(ctx):
    par.each(ctx, run_config, ["all", "progress"])
    for k, n in (("first finishers", 8), ("late finishers", 4), ("insertions", 2), ("guarded changes", 6), ("restarts", 4), ("frozen times", 2), ("reset values", 2)):
        ctx.floor(k, n)
    ctx.assumptions = ["sequentially consistent atomics"]
