"""Every path of Msg::print and Msg::eprint, with every write and flush able to fail: on the chosen stream only, inside
one locked section, the bytes written are exactly the message's text (a prefix of it once a write failed), and they are
flushed; no path panics."""
from .. import par
from ..prog import *


def run_config(ctx, cfg):
    p = Prog(cfg)
    bodies = {b["path"].split("::")[-1]: b for b in p.P.list if b["local"] and b["identity"] and b["impl_self"] == "msg::Msg" and b["public"]}
    for b in p.P.list:
        if b["impl_self"] == "msg::Msg":
            p.over.pop(b["key"], None)
    if "as_bytes" not in bodies:
        ctx.undecide("anchor|" + cfg, "no Msg::as_bytes")
        return
    for name, stream in (("print", "stdout"), ("eprint", "stderr")):
        b = bodies.get(name)
        if b is None:
            ctx.undecide("anchor|" + name, "no Msg::" + name)
            continue
        args = p.symargs(b)
        tb = bodies["as_bytes"]
        r0, E0 = p.run(tb, [mk("sym", "a0", tb["locals"][1])], trace_if=lambda l: True)
        r, E = p.run(b, [mk("sym", "a0", tb["locals"][1])], trace_if=lambda l: True)
        if r is None or r0 is None or len(r0) != 1 or r0[0][1].op != "sr":
            ctx.undecide("stuck|" + name, "could not analyse Msg::" + name)
            continue
        text = r0[0][1].a[0]
        for q in E.panics:
            certain = len(q) > 3 and q[3] if isinstance(q, tuple) else False
            ctx.oblige(None if not certain else False, "panic|" + name, "Msg::%s may panic: %s" % (name, str(q)[:160]))
        for how, s, v in p.finals(r, E):
            ctx.count("paths")
            evs = s.events()
            bad = None if s.weak else False
            if how != "return":
                ctx.oblige(bad, "ends|" + name, "Msg::%s can end in a %s: %s" % (name, how, path_of(evs, 6)))
                continue
            io = [e for e in evs if e.kind in ("write", "write_some", "writev", "flush", "ioerr")]
            for e in io:
                ctx.oblige(True if e.args[0] == stream else bad, "stream|" + name, "%s: Msg::%s touches %s" % (loc(e), name, e.args[0]), None)
            locks = [e for e in evs if e.kind == "lock" and e.args[0] == stream]
            ctx.oblige(True if len(locks) == 1 else bad, "sections|" + name, "Msg::%s writes in %d exclusive sections" % (name, len(locks)), "Msg::%s: one locked section" % name)
            fail = any(e.kind == "ioerr" for e in io)
            wfail = any(e.kind == "ioerr" and "flush" not in str(e.args[1]) for e in io)
            done = cat(*[e.args[1] for e in io if e.kind == "write" and isinstance(e.args[1], T) and e.args[1].op == "rope"]) if not any(e.kind in ("writev", "write_some") for e in io) and not any(e.kind == "loop" for e in evs) else None
            for e in io:
                if e.kind in ("write", "flush"):
                    ctx.oblige(True if stream in e.args[-1] else bad, "unlocked|" + name, "%s: Msg::%s writes outside its exclusive section" % (loc(e), name), None)
            if done is None:
                if any(e.kind == "write_some" for e in io):
                    ctx.oblige(bad, "partial|" + name, "Msg::%s uses a write that may stop short of the whole text" % name)
                else:
                    ctx.undecide("writes|" + name, "Msg::%s writes in a loop" % name)
            elif wfail:
                n = rope_len(done)
                ctx.oblige(True if done is text or E.decide(s, LE(n, rope_len(text))) is True else bad, "excess|" + name, "Msg::%s writes more than its text" % name, None)
            else:
                ctx.oblige(True if done is text else bad, "text|" + name, "Msg::%s writes %s instead of the message's text" % (name, show(done)[:80]),
                           "Msg::%s writes exactly its text to %s" % (name, stream))
                last = max([i for i, e in enumerate(io) if e.kind == "write"], default=-1)
                ctx.oblige(True if any(e.kind == "flush" for e in io[last + 1:]) else bad, "flush|" + name, "Msg::%s does not flush" % name, "Msg::%s flushes" % name)


def run(ctx):
    par.each(ctx, run_config, ["default", "all"])
    ctx.floor("paths", 12)
