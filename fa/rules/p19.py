"""Life cycle of the ticker thread, over every path of the public calls, destructors and the ticker itself.  The stop
request is the contents of the mutex the thread waits with; a join needs the request to be set (and, when this path set
it, signalled afterwards); a thread whose wait has a timeout or who tests the request before waiting cannot miss it; an
iteration that goes round again has found the request unset and the run active; a spawn follows the join of whatever
thread was recorded, with the request cleared under its lock, in the same section of the handle's lock; handles are
never dropped unjoined; finishing, resetting and dropping leave no handle behind."""
from .. import par
from ..prog import *


def sections(evs, key):
    """[(start, end)] index pairs of the critical sections of one lock in a straight-line trace."""
    out, start = [], None
    for i, e in enumerate(evs):
        if e.kind in ("lock", "trylock") and e.args[0] == key and start is None:
            start = i
        elif e.kind == "unlock" and e.args[0] == key and start is not None:
            out.append((start, i))
            start = None
    if start is not None:
        out.append((start, len(evs)))
    return out


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    if w.role is None:
        return
    traces = list(w.traces())
    waits = [(name, e) for name, how, evs, s, v in traces for e in walk(evs) if e.kind == "wait"]
    reqs = {e.args[1] for _, e in waits}
    conds = {e.args[0] for _, e in waits}
    if len(reqs) != 1 or len(conds) != 1:
        ctx.undecide("request", "the ticker waits with %d different mutexes" % len(reqs))
        return
    req, cond = reqs.pop(), conds.pop()
    slots = {e.args[0] for _, _, evs, _, _ in traces for e in walk(evs) if e.kind == "lock" and "JoinHandle" in e.args[0]}
    threads = {name for name, e in waits}
    for name, how, evs, s, v in traces:
        if how == "panic":
            continue
        bad = None if s.weak else False
        kind = w.kind_of(name)
        if kind == "thread":
            for e in evs:
                if e.kind != "loop":
                    continue
                for sub, weak in bodies(e):
                    i = next((i for i, x in enumerate(sub) if x.kind == "wait"), None)
                    if i is None:
                        continue
                    ctx.count("iterations")
                    bad = None if weak else False
                    # the request, as last seen by this iteration
                    seen = [x.args[4 - 1] == (x.args[2] == 1) for x in sub[i:] if x.kind == "test" and x.args[0] == req]
                    ctx.oblige(True if seen and not seen[-1] else bad, "ignored|" + name, "%s: the ticker goes round again %s" % (loc(sub[i]), "although it saw the stop request" if seen else "without looking at the stop request"),
                               "%s: goes round only with the request unset" % loc(sub[i]))
                    run = [w.running(x) for x in sub if w.running(x) is not None]
                    ctx.oblige(True if run and run[-1] else bad, "zombie|" + name, "%s: the ticker goes round again %s" % (loc(sub[i]), "although the run has ended" if run else "without looking whether the run is active"),
                               "%s: goes round only while running" % loc(sub[i]))
            # a wait without timeout must be preceded by a look at the request in the same section
            flatev = list(walk(evs))
            for i, e in enumerate(flatev):
                if e.kind == "wait" and len(e.args) > 3 and not e.args[3]:
                    before = [x for x in flatev[:i] if (x.kind in ("lock",) or x.kind == "test") and x.args[0] == req]
                    ctx.oblige(True if before and before[-1].kind == "test" else bad, "missed|" + name,
                               "%s: waits without a timeout before looking at the stop request" % loc(e))
                elif e.kind == "wait":
                    ctx.count("timed waits")
            continue
        if kind != "entry":
            continue
        short = name.split("::")[-1]
        joined = None
        for i, e in enumerate(evs):
            if e.kind == "detach":
                ctx.oblige(bad, "detached|%s" % e.loc[0], "%s: a ticker's handle is dropped without joining it [%s]" % (loc(e), name))
            elif e.kind == "join":
                ctx.count("joins")
                prev, joined = joined, i
                un = [j for j in range(i) if evs[j].kind == "unlock" and evs[j].args[0] == req]
                if not un:
                    ctx.oblige(bad, "unrequested|" + e.loc[0], "%s: joins the ticker without asking it to stop [%s]" % (loc(e), name))
                    continue
                last = evs[un[-1]]
                ctx.oblige(True if last.args[1] == 1 else (bad if last.args[1] == 0 else None), "unrequested|" + e.loc[0],
                           "%s: joins the ticker although the stop request is %s [%s]" % (loc(e), last.args[1], name), "%s: stop requested before joining" % loc(e))
                if any(evs[j].args[2] for j in un if prev is None or j > prev):
                    note = [j for j in range(un[-1], i) if evs[j].kind in ("notify_all", "notify_one") and evs[j].args[0] == cond]
                    inside = [j for a, b in sections(evs[:i], req)[-1:] for j in range(a, b) if evs[j].kind in ("notify_all", "notify_one")]
                    ctx.oblige(True if note or inside else bad, "unsignalled|" + e.loc[0], "%s: joins the ticker without waking it [%s]" % (loc(e), name), "%s: signalled" % loc(e))
            elif e.kind == "spawn":
                cb = w.p.closure_body(w.res[name][1], e.args[0])
                if cb is None or "thread:" + cb["path"] not in threads:
                    continue
                ctx.count("spawns")
                un = [j for j in range(i) if evs[j].kind == "unlock" and evs[j].args[0] == req]
                slot = [sec for sl in slots for sec in sections(evs, sl) if sec[0] < i]
                if not slot:
                    # a first ticker for a value still under construction
                    ctx.count("first spawns")
                    new = fresh_request(w.res[name][1], s, e)
                    ctx.oblige(bad if new == 1 else (True if new == 0 else None), "stillborn|" + e.loc[0],
                               "%s: a ticker is started with the stop request already set [%s]" % (loc(e), name), "%s: starts with the request unset" % loc(e))
                    continue
                ctx.count("restarts")
                ctx.oblige(True if un and evs[un[-1]].args[1] == 0 and (joined is None or joined < un[-1]) else
                           (None if un and evs[un[-1]].args[1] is None else bad), "uncleared|" + e.loc[0],
                           "%s: a ticker is started without clearing the stop request after the previous one ended [%s]" % (loc(e), name), "%s: request cleared first" % loc(e))
                # the new handle is stored in the section it was started in (a handle found there instead would be
                # taken and joined in that section, or show up as dropped unjoined)
                one = [sec for sec in slot if sec[0] < i < sec[1]]
                ctx.oblige(True if one else bad, "unguarded|" + e.loc[0],
                           "%s: a ticker is started without holding the handle's lock [%s]" % (loc(e), name),
                           "%s: swap under one section of the handle's lock" % loc(e))
                for sec in one:
                    after = evs[sec[1]].args[1] if sec[1] < len(evs) else None
                    ctx.oblige(True if after == 1 else (bad if after == 0 else None), "unrecorded|" + e.loc[0], "%s: the new ticker's handle is not recorded [%s]" % (loc(e), name), None)
        ends = short in ("finish", "reset") or (short == "try_reset" and any(e.kind == "armw" and flags_write(w, e) == "clear" for e in evs)) or \
            ("as std::ops::Drop>" in name and any(e.kind in ("join",) or (e.kind == "lock" and e.args[0] in slots) for e in walk(evs)))
        if ends:
            ctx.count("endings")
            secs = sorted(sec for sl in slots for sec in sections(evs, sl))
            if not secs:
                ctx.oblige(bad, "leaks|" + name, "%s does not stop the ticker [%s]" % (name, path_of(evs)))
            else:
                sp = next((i for i, e in enumerate(evs) if e.kind == "spawn"), None)
                firsts = [sec for sec in secs if sec[1] < len(evs)]
                x = evs[firsts[-1][1]].args[1] if firsts else None
                if sp is None:
                    ctx.oblige(True if x == 0 else (bad if x == 1 else None), "leaks|" + name, "%s: leaves a ticker recorded [%s]" % (name, path_of(evs)), "%s: no handle left" % name)
    # every destructor that can own the slot
    drops = {name for name, how, evs, s, v in traces if "as std::ops::Drop>" in name and any(e.kind == "join" for e in walk(evs))}
    ctx.oblige(True if drops else (None if w.p.stuck else False), "undropped|" + cfg, "dropping the last handle does not join the ticker", "joined by %s" % ", ".join(sorted(drops)))


def fresh_request(E, s, e):
    """The initial contents of the mutex a just-spawned thread was given, when that is known."""
    seen, todo = set(), [e.args[0]]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.a[0] == "new" and len(x.a) > 2 and isinstance(x.a[-1], T) and x.a[-1].op == "int" and "Mutex" in ((E.tyinfo(x.a[1]) or {}).get("path") or ""):
            return x.a[-1].a[0]
        if x in s.mem:
            todo.append(s.mem[x])
        todo.extend(x.a)
    return None


def run(ctx):
    par.each(ctx, run_config, ["all", "progress", "sigint", "sigwinch"])
    ctx.floor("iterations", 8)
    ctx.floor("joins", 8)
    ctx.floor("restarts", 4)
    ctx.floor("first spawns", 10)
    ctx.floor("endings", 8)
    ctx.assumptions = ["a spawned thread runs its closure; std's JoinHandle::join waits for it"]
