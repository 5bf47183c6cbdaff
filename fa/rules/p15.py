"""Every write to the shared counter, on every path of every public call and of the ticker, is classified.  Apart from
ending a run (total, total) and reset (0, new total) only read-modify-write operations are allowed (a separate load and
store loses updates); each keeps the total, leaves done below the total, and adds exactly the requested amount (sets
exactly the requested value); an update is refused only when it would reach the total, and then the run is ended.  The
arithmetic is decided symbolically over the packed counter; a failed proof is reported only with a concrete witness."""
from .. import par, witness
from ..prog import *

M = (1 << 32) - 1


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    if w.role is None:
        return
    names = []
    for name, how, evs, s, v in w.traces():
        hit = any(e.kind in ("astore", "armw") and e.args[0] == w.done for e in walk(evs))
        if hit and name not in names:
            names.append(name)
        if hit and w.kind_of(name) != "entry":
            ctx.undecide("thread-writes|" + name, "%s writes the counter" % name)
    bodies = {b["path"]: b for b in w.p.entries()}
    p = Prog(cfg)
    layout = None
    runs = {}
    for name in sorted(names, key=lambda n: not n.endswith("::increment_n")):
        if name not in bodies:
            continue
        r, E = p.run(bodies[name], trace_if=lambda l: True)
        if r is None:
            ctx.undecide("stuck|" + name, "could not analyse " + name)
            continue
        runs[name] = (r, E)
    def part(E, s, x, which, lay):
        ty = E.p.ty("u64")
        x = E.resimp(s, x)
        hi = (which == "done") == (lay == "done-high")
        return E.binop(s, "Shr", x, INT(32), ty, ty) if hi else E.binop(s, "BitAnd", x, INT(M), ty, ty)
    # Which half is which: the one increment_n adds to.
    for name, (r, E) in runs.items():
        if not name.endswith("::increment_n"):
            continue
        for s, v in r:
            for e in s.events():
                if e.kind == "armw" and e.args[0] == w.done and layout is None:
                    for lay in ("done-high", "done-low"):
                        if E.decide(s, EQ(part(E, s, e.args[2], "total", lay), part(E, s, e.args[1], "total", lay))) is True:
                            layout = lay
    if layout is None:
        # total not provably kept under either reading: assume the published constructor's layout
        layout = "done-high"
        ctx.assumptions.append("counter layout not inferred: done in the high half")

    packs = []
    for t in (1, 2, 3, 7, 1 << 31, M - 1, M):
        for d in (0, 1, 2, t // 2, t - 1, t):
            if 0 <= d <= t:
                packs.append((d << 32 | t) if layout == "done-high" else (t << 32 | d))
    packs = sorted(set(packs))

    for name, (r, E) in sorted(runs.items()):
        short = name.split("::")[-1]
        isreset = short in ("reset", "try_reset")
        def smp(x):
            if x.op == "ev" and x.a[2] == "atomic:" + w.done:
                return packs
            return None
        for s, v in r:
            evs = s.events()
            ran = None
            pos = 0
            writes = []
            ended = []          # positions of run-state clears whose old value was running
            running = None
            cleared = None
            lits = dict(s.lits)
            for i, e in enumerate(evs):
                if e.kind == "armw" and e.args[0] == w.flags and e.args[3] == "swap" and isinstance(e.args[4], T) and e.args[4].op == "int" and not e.args[4].a[0] & w.bit:
                    cleared = i
                    ty = E.typeof(e.args[1])
                    b = E.binop(s, "BitAnd", e.args[1], INT(w.bit), ty, ty)
                    if E.decide(s, EQ(b, INT(w.bit))) is True:
                        ended.append(i)
                if e.kind in ("armw", "astore") and e.args[0] == w.done:
                    writes.append((i, e))
            n1 = mk("sym", "a1", bodies[name]["locals"][2]) if bodies[name]["argc"] > 1 else None
            updates = 0
            for i, e in writes:
                ctx.count("counter writes")
                where = "%s [%s]" % (loc(e), name)
                blind = e.kind == "astore" or e.args[3] in ("swap", "store")
                new = e.args[1] if e.kind == "astore" else e.args[2]
                if blind:
                    after_end = any(j < i for j in ended)
                    if not after_end and not (isreset and cleared is not None and cleared < i):
                        ctx.oblige(None if s.weak else False, "blind|%s" % e.loc[0], "%s: the counter is overwritten without regard to concurrent updates" % where)
                        continue
                    if isreset and n1 is not None and not any(x in atoms(new) or x is new for x in atoms(new) if isinstance(x, T) and x.op == "ev"):
                        # the reset value: nothing done, the new total
                        ctx.count("reset writes")
                        witness.goal(ctx, E, s, EQ(part(E, s, new, "done", layout), ZERO), "reset-done|" + name, "%s: reset leaves something done" % where, "%s: reset to zero done" % where)
                        tot = [x for x in E_args(E, s, new)]
                        continue
                    # end of run: done = total = the old total
                    lds = [x.args[1] for x in evs[:i] if x.kind in ("aload", "armw") and x.args[0] == w.done]
                    if not lds:
                        ctx.undecide("end|" + e.loc[0], "%s: end value not understood" % where)
                        continue
                    old = lds[-1]
                    ctx.count("end writes")
                    witness.goal(ctx, E, s, EQ(part(E, s, new, "total", layout), part(E, s, old, "total", layout)), "end-total|" + e.loc[0],
                                 "%s: ending the run changes the total" % where, "%s: total kept at the end" % where, smp)
                    witness.goal(ctx, E, s, EQ(part(E, s, new, "done", layout), part(E, s, old, "total", layout)), "end-done|" + e.loc[0],
                                 "%s: ending the run does not set done to the total" % where, "%s: done set to total" % where, smp)
                    continue
                old = e.args[1]
                if e.args[3] not in ("update", "cas", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min"):
                    ctx.undecide("op|" + e.args[3], "%s: unknown read-modify-write %s" % (where, e.args[3]))
                    continue
                updates += 1
                ctx.count("updates")
                # A committed value may only be judged when this path really commits it (update/cas success).
                witness.goal(ctx, E, s, EQ(part(E, s, new, "total", layout), part(E, s, old, "total", layout)), "total|%s" % e.loc[0],
                             "%s: the update can change the total" % where, "%s: total kept" % where, smp)
                d0, d1, t1 = part(E, s, old, "done", layout), part(E, s, new, "done", layout), part(E, s, old, "total", layout)
                stops = any(j > i for j in ended) or (cleared is not None and cleared > i)
                # invariant: nothing done beyond the total while running
                if stops:
                    witness.goal(ctx, E, s, LE(d1, t1), "beyond|%s" % e.loc[0], "%s: done can exceed the total" % where, "%s: done <= total" % where, smp)
                else:
                    witness.goal(ctx, E, s, LT(d1, t1), "reach|%s" % e.loc[0], "%s: done can reach or exceed the total without ending the run" % where, "%s: done < total" % where, smp)
                want = None
                if short == "increment_n":
                    want = add(d0, n1)
                elif short in ("increment", "remove"):
                    want = add(d0, ONE)
                elif short == "set_done":
                    want = n1
                if want is not None:
                    ctx.count("exact updates")
                    witness.goal(ctx, E, s, EQ(d1, want), "exact|" + name, "%s: the done count becomes %s instead of %s" % (where, show(d1), show(want)), "%s: exactly %s" % (where, show(want)), smp)
            if short == "remove" and updates:
                # One removed task, one count: this very call took it off the list.
                took = sum(1 for e in evs if e.kind == "set_remove" and e.args[2] is True)
                ctx.count("counted removals")
                ctx.oblige(True if took else (None if s.weak else False), "uncounted|" + name,
                           "%s: a task is counted as done although this call did not take it off the list; two threads can count it twice (%s)" % (name, path_of(evs)),
                           "%s: counted only when removed" % name)
            if short in ("increment", "increment_n", "remove", "set_done"):
                ctx.oblige(True if updates <= 1 else (None if s.weak else False), "twice|" + name, "%s: counted %d times on one path" % (name, updates), None)
                started = run_known(w, E, s, evs)
                if started is True and updates == 0:
                    # Refused: only because it would reach the total, and then the run is ended.
                    if short == "remove" and not any(e.kind == "set_remove" and e.args[2] is True for e in evs):
                        continue
                    if short in ("increment_n",) and E.decide(s, EQ(n1, ZERO)) is True:
                        continue
                    if short == "remove" and run_known(w, E, s, evs, last=True) is not True:
                        continue
                    lds = [x.args[1] for x in evs if x.kind == "aload" and x.args[0] == w.done]
                    ctx.count("refusals")
                    stopped = cleared is not None
                    ctx.oblige(True if stopped else (None if s.weak else False), "dropped|" + name, "%s: an update is dropped although the run goes on (%s)" % (name, path_of(evs)), "%s: refusal ends the run" % name)
                    if lds:
                        old = lds[0]
                        d0, t0 = part(E, s, old, "done", layout), part(E, s, old, "total", layout)
                        inc = n1 if short in ("increment_n",) else ONE
                        lit = LE(t0, add(d0, inc)) if short != "set_done" else None
                        if lit is not None:
                            witness.goal(ctx, E, s, lit, "early|" + name, "%s: the run is ended although the total is not reached" % name, "%s: refused only at the total" % name, smp)
                        else:
                            # set_done: the requested value reaches the total, or the run was complete
                            v1, w1 = witness.settle(E, s, LE(t0, n1), smp)
                            v2, w2 = witness.settle(E, s, LE(t0, d0), smp)
                            ctx.oblige(True if v1 is True or v2 is True else (False if v1 is False and v2 is False and not s.weak else None),
                                       "early|" + name, "%s: the run is ended although the requested count is below the total (e.g. %s)" % (name, w1), "%s: ended only at the total" % name)
    # The total is only ever changed by reset: nothing else writes the counter.
    for name, how, evs, s, v in w.traces():
        if w.kind_of(name) in ("thread", "init") or name.startswith("signal"):
            for e in walk(evs):
                if e.kind in ("armw", "astore") and e.args[0] == w.done:
                    ctx.violate("background|" + e.loc[0], "%s: the counter is written in the background [%s]" % (loc(e), name))
    ctx.analysed = {"entries": sorted(runs), "layout": layout}


def E_args(E, s, t):
    return []


def run_known(w, E, s, evs, last=False):
    """Whether this path found the run state running at its first (last) look, before changing it."""
    loads = [e for e in evs if e.kind == "aload" and e.args[0] == w.flags]
    if not loads:
        return None
    x = loads[-1 if last else 0].args[1]
    ty = E.typeof(x)
    b = E.binop(s, "BitAnd", x, INT(w.bit), ty, ty)
    return E.decide(s, EQ(b, INT(w.bit)))


def run(ctx):
    par.each(ctx, run_config, ["all", "progress"])
    ctx.floor("updates", 4)
    ctx.floor("exact updates", 4)
    ctx.floor("refusals", 4)
    ctx.floor("end writes", 6)
    ctx.floor("reset writes", 1)
    ctx.floor("counted removals", 1)
    ctx.assumptions = ctx.assumptions or ["sequentially consistent atomics", "fetch_update commits exactly the value its closure returned for the value it replaced"]
