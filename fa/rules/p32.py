"""Exhaustive exploration of the blank subcommand over its argument language (any options, any values, any order, any
length): what it writes is compared with what the arguments ask for, every final state at a time."""
from ..cli import *


def run(ctx):
    if not explore(ctx, None):
        # Not understood for any count: at least for some.
        for n in (1, 2, 5):
            explore(ctx, n)
    ctx.floor("outcomes", 20)
    ctx.floor("argument states", 12)
    ctx.assumptions = ["the parser crate turns words into arguments by the keyword table it is given",
                       "a count is classed as not a number, zero, or any positive number"]


def explore(ctx, count):
    c = Cli(Words([("cmd", b"blank")], full, count))
    sure = True
    if c.stuck:
        ctx.undecide("stuck|%s" % count, c.stuck)
        sure = False
    for g, s, evs, code in c.ended():
        ctx.count("outcomes")
        what = say(g)
        if s.weak or any(e.kind == "unknown" for e in evs):
            ctx.undecide("weak|" + what, "%s: %s" % (what, s.weak))
            sure = False
            continue
        out = outputs(evs)
        ok = same_int(c.E, s, code, ZERO)
        ctx.oblige(ok, "exit|" + what, "%s exits with %s" % (what, show(code)), "%s exits with 0" % what)
        if g.get("help"):
            blank = [e for es in out.values() for e in es if e.kind == "write" and not (rope_lit(e.args[1]) or b"x").strip()]
            ctx.oblige(not blank, "help|" + what, "%s prints blank lines" % what, what)
            continue
        want = g.get("count", ONE)
        to = "stderr" if g.get("stderr") else "stdout"
        other = "stdout" if to == "stderr" else "stderr"
        ctx.oblige(not out[other], "stream|" + what, "%s writes to %s" % (what, other), "%s leaves %s alone" % (what, other))
        r = EMPTY
        bad = False
        for e in out[to]:
            if e.kind != "write":
                bad = True
                continue
            r = cat(r, e.args[1])
        if bad:
            ctx.violate("kind|" + what, "%s prints a message" % what)
            continue
        w = rlit(b"\n" * want.a[0]) if want.op == "int" else rope(mk("rep", b"\n", want))
        n = mk("sym", "num:count", c.E.p.ty("usize"))
        envs = [{n: m, **({want: w} if want.op == "sym" else {})}
                for w in (2, 7, 1, 300, 70000) for m in (1, 7, 9)]
        judge.rope(ctx, c.E, s, r, w, envs, "text|" + what, "%s writes" % what, "%s writes %s line breaks to %s" % (what, show(want), to))
    panics(ctx, c)
    ctx.count("argument states", getattr(c.E, "heads", 0))
    return sure
