"""Every path of Progless::push_msg (the tick it makes included), for an active and an inactive run and with and without
pending repaint requests: the message, given its final line break, is written exactly once, to standard error, inside
one exclusive section which erases the old bar first when the run is active; the call returns the message exactly when a
write in that section failed; and afterwards the bar is drawn again on every path that looks for something to repaint,
even when nothing was requested."""
from .. import par
from ..prog import *


def run_config(ctx, cfg):
    w = World(cfg, only=())
    if w.role is None:
        ctx.undecide("roles|" + cfg, "could not identify the run state")
        return
    sl = Slim(bits=None, contents=True)
    sl.drop = sl.drop - {"ioerr"}
    p = Prog(cfg, slim=sl)
    bs = [b for b in p.entries() if b["path"].endswith("Progless::push_msg")]
    if not bs:
        ctx.undecide("anchor|" + cfg, "no Progless::push_msg")
        return
    b = bs[0]
    for fixed in (w.bit, w.bit | (0xff & ~SIGLESS(w)), 0, 0xff & ~w.bit):
        p.fixed = {w.flags: fixed}
        r, E = p.run(b)
        if r is None:
            ctx.undecide("stuck|%s" % cfg, "could not analyse push_msg: %s" % p.stuck.get(b["path"]))
            continue
        scan(ctx, w, cfg, E, r, bool(fixed & w.bit), mk("sym", "a1", b["locals"][2]))
        for q in E.panics:
            ctx.count("possible panics")


def SIGLESS(w):
    return 0


def ended_msg(x, arg):
    """True: the argument with a final line break; False: surely not; None: unknown."""
    if x is arg:
        return False
    if x.op == "app" and x.a[0].startswith("msg:"):
        n = x.a[0][4:]
        if n in ("with_newline", "set_newline") and x.a[2] is arg and len(x.a) > 3 and x.a[3].op == "int":
            return bool(x.a[3].a[0])
    return None


def scan(ctx, w, cfg, E, r, running, arg):
    painted = 0
    for s, v in r:
        evs = s.events()
        bad = None if s.weak else False
        msgs = [i for i, e in enumerate(evs) if e.kind in ("write", "write_some") and isinstance(e.args[1], str) and e.args[1].startswith("msg:")]
        fails = [i for i, e in enumerate(evs) if e.kind == "ioerr" and e.args[0] in ("stderr", "stdout")]
        ctx.count("paths")
        first = msgs[0] if msgs else None
        if first is None:
            ctx.oblige(True if fails else bad, "lost|" + cfg, "push_msg can return without writing the message: %s" % path_of(evs, 8))
            continue
        ctx.oblige(True if len(msgs) == 1 else bad, "twice|" + cfg, "%s: the message is written more than once" % loc(evs[msgs[-1]]), None)
        e = evs[first]
        ctx.oblige(True if e.args[0] == "stderr" else bad, "stream|" + cfg, "%s: the message goes to %s" % (loc(e), e.args[0]), "%s: written to stderr once" % loc(e))
        whole_msg = e.args[1]
        ctx.oblige(True if "with_newline(%a1, 1)" in whole_msg or "set_newline(%a1, 1)" in whole_msg else (bad if whole_msg.startswith("msg:«%a1") or "newline(%a1, 0)" in whole_msg else None),
                   "newline|" + cfg, "%s: what is written is not the message with its final line break (%s)" % (loc(e), whole_msg[:80]))
        held = "stderr" in e.args[2]
        ctx.oblige(True if held else bad, "unlocked|" + cfg, "%s: the message is written without holding standard error" % loc(e), None)
        lo = max([i for i in range(first) if evs[i].kind == "lock" and evs[i].args[0] == "stderr"], default=0)
        hi = next((i for i in range(first, len(evs)) if evs[i].kind == "unlock" and evs[i].args[0] == "stderr"), len(evs))
        sec = evs[lo:hi]
        secfail = any(x.kind == "ioerr" for x in sec)
        if not secfail:
            ctx.oblige(True if any(x.kind == "flush" for x in evs[first:hi]) else bad, "unflushed|" + cfg, "%s: the message is not flushed" % loc(e), None)
        if running:
            er = [i for i in range(lo, first) if is_erase(evs[i])]
            ctx.oblige(True if er else bad, "erase|" + cfg, "%s: the bar is not erased, in the same exclusive section, before the message is written" % loc(e),
                       "%s: erases, then writes the message in one section" % loc(e))
            if not secfail:
                rest = evs[first + 1:]
                use = [i for i, x in enumerate(rest) if x.kind == "armw" and x.args[0] == w.flags and x.args[1] in ("fetch_and", "swap") and flags_write(w, x) != "set"]
                pt = [i for i, x in enumerate(rest) if is_paint(x) and x.kind == "writev" or x.kind == "loop" and any(is_paint(y) for y in walk([x]))]
                tries = any(x.kind == "lock" and x.args[0] == "stderr" for x in rest) or pt
                ctx.oblige(True if tries else bad, "unpainted|" + cfg, "push_msg returns without trying to draw the bar again: %s" % path_of(rest, 8))
                if use:
                    ctx.oblige(True if pt and pt[-1] > use[0] else bad, "skipped|" + cfg, "%s: the bar is not drawn again after the message when nothing else changed" % loc(rest[use[0]]),
                               "%s: repainted" % loc(rest[use[0]]))
                if pt:
                    painted += 1
        ret = v.a[1] if v.op == "agg" else None
        if ret is None:
            ctx.undecide("result|" + cfg, "unknown result")
            continue
        if running:
            ctx.oblige(True if bool(ret) == secfail else bad, "result|%s|%s" % (cfg, secfail), "push_msg %s although writing the message %s" % ("reports failure" if ret else "reports success", "failed" if secfail else "succeeded"),
                       "write %s: %s" % ("failed" if secfail else "succeeded", "Err" if ret else "Ok"))
        elif ret:
            ctx.oblige(True if secfail else bad, "result|%s|idle" % cfg, "push_msg reports failure although the message was written")
        if ret:
            x = v.a[2][0]
            ctx.oblige(True if arg in atoms(x) else bad, "handback|" + cfg, "push_msg does not hand the message back", None)
    if running:
        ctx.oblige(True if painted else None if any(s.weak for s, _ in r) else False, "never|" + cfg, "push_msg never draws the bar again")
        ctx.count("repaints", painted)


def run(ctx):
    par.each(ctx, run_config, ["all", "progress"])
    ctx.floor("paths", 40)
    ctx.floor("repaints", 8)
