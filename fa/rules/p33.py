"""Effect analysis of everything handed to the signal registry as a SIGINT callback: executed abstractly along every
path, the only effects allowed are atomic operations, process exit, and writes made without taking a lock."""
from .. import par
from ..prog import *

PURE = {"aload", "armw", "astore", "test", "exit", "time", "discard", "drop_arc"}


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    for name, how, evs, s, v in w.traces():
        if not name.startswith("signal "):
            continue
        ctx.count("callback paths")
        for e in walk(evs):
            if e.kind in PURE:
                ctx.ok("%s: %s in %s" % (loc(e), e.kind, name))
            elif e.kind in ("write", "write_some", "writev", "flush"):
                # The lock event preceding a locked write is what is reported.
                ctx.ok("%s: %s in %s" % (loc(e), e.kind, name))
            elif e.kind in ("lock", "wait", "join", "once"):
                ctx.violate("%s|%s|%s" % (e.kind, e.args[0], name.split(" ", 1)[1].split(":", 1)[1]),
                            "%s: %s on %s inside the callback %s" % (loc(e), e.kind, e.args[0], name)) if not s.weak else \
                    ctx.undecide("%s|%s" % (e.kind, name), "%s on a path that is not understood" % e.kind)
            elif e.kind in ("unlock", "trylock"):
                ctx.ok()
            elif e.kind == "unknown":
                ctx.undecide("unknown|%s" % (e.args[0],), "effect of %s unknown" % (e.args[0],))
            else:
                ctx.ok("%s: %s in %s" % (loc(e), e.kind, name))
    ctx.analysed = {"callbacks": sorted(n for n in w.res if n.startswith("signal "))}


def run(ctx):
    par.each(ctx, run_config, ["all", "sigint"])
    ctx.floor("callback paths", 8)
    ctx.assumptions = ["the signal registry calls exactly the closure it was given"]
