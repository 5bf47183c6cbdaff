"""Exhaustive exploration of the whole program: every first word (each subcommand, help, version, nothing, something
unknown, not text) and after it every sequence of arguments that matters for the outcome; the exit status, the stream of
every output and their order are judged in every final state."""
from .. import build, par
from ..cli import *
from .p11 import commands

FIRST = [("end",), ("key", "help", "-h"), ("key", "help", "--help"), ("key", "version", "-V"), ("key", "version", "--version"),
         ("text", b"bogus"), ("text", b"--bogus"), ("text", b"help"), ("sep",), ("bytes",)]


def outcome_words(cmd, g, table):
    return [w for w in full(cmd, g, table) if w[0] != "val" or w[1] in ("exit", "count")] if cmd else [("end",)]


def judge_one(ctx, c, g, s, evs, code):
    E = c.E
    what = say(g)
    if s.weak or any(e.kind == "unknown" for e in evs):
        ctx.undecide("weak|" + what, "%s: %s" % (what, s.weak))
        return
    zero = same_int(E, s, code, ZERO)
    out = outputs(evs)
    first = g.get("word0", ("end",))
    where = lambda e: "%s:%s" % e.loc

    def page(how):
        ctx.oblige(zero, "%s exit|%s" % (how, what), "%s exits with %s" % (what, show(code)), "%s exits with 0" % what)
        ctx.oblige(bool(out["stdout"]) and not out["stderr"] and all(e.kind != "prompt" for e in evs), "%s stream|%s" % (how, what),
                   "%s: the %s text goes to %s" % (what, how, "stderr" if out["stderr"] else "nowhere"), "%s: the %s goes to stdout" % (what, how))

    def usage():
        ctx.oblige({True: False, False: True}.get(zero), "usage exit|" + what, "%s exits with %s" % (what, show(code)), "%s does not exit with 0" % what)
        ctx.oblige(not out["stdout"], "usage stream|" + what, "%s: output to stdout (%s)" % (what, ", ".join(map(where, out["stdout"]))), "%s: nothing on stdout" % what)
        ctx.oblige(len(out["stderr"]) == 1, "usage errors|" + what, "%s: %d errors" % (what, len(out["stderr"])), "%s: one error on stderr" % what)
    if g["cmd"] is None:
        if first[0] == "key":
            page(first[1])
        elif zero is True:
            page("help")
        else:
            usage()
        return
    how = kind_of_outcome(g)
    ctx.count(how + " outcomes")
    loose = g.get("loose", ())
    if how == "open":
        return
    if how == "help":
        page("help")
    elif how == "usage":
        usage()
    elif how == "blank":
        ctx.oblige(zero, "exit|" + what, "%s exits with %s" % (what, show(code)), "%s exits with 0" % what)
    elif how == "confirm":
        if [e.kind for e in evs] != ["prompt"]:
            ctx.violate("confirm output|" + what, "%s: %s" % (what, ", ".join("%s at %s" % (e.kind, where(e)) for e in evs)))
            return
        yes = evs[0].args[2] is ONE
        ctx.oblige(zero if yes else {True: False, False: True}.get(zero), "answer|%s|%s" % (yes, what),
                   "%s exits with %s after %s" % (what, show(code), "yes" if yes else "no"), "%s: exit after %s" % (what, "yes" if yes else "no"))
    else:
        if loose and not out["stdout"] and zero is False and len(out["stderr"]) == 1:
            return
        n = len(evs)
        ctx.oblige(n == 1, "printed|" + what, "%s: %d outputs before exit %s" % (what, n, show(code)), "%s: printed once, then exit" % what)
        to = "stderr" if g.get("stderr") else "stdout"
        other = "stdout" if to == "stderr" else "stderr"
        ctx.oblige(not out[other], "stream|" + what, "%s prints to %s" % (what, other), "%s prints to %s" % (what, to))
        w = g.get("exit", ZERO)
        ctx.oblige(same_int(E, s, code, w), "exit|" + what, "%s exits with %s" % (what, show(code)), "%s exits with %s" % (what, show(w)))


def explore(ctx, cmd):
    if cmd == "":
        c = Cli(Words(FIRST, outcome_words))
    else:
        c = Cli(Words([("cmd", cmd.encode())], outcome_words))
    if c.stuck:
        ctx.undecide("stuck|" + cmd, c.stuck)
    for g, s, evs, code in c.ended():
        ctx.count("outcomes")
        judge_one(ctx, c, g, s, evs, code)
    panics(ctx, c)
    ctx.count("argument states", getattr(c.E, "heads", 0))


def run(ctx):
    build.dump("bin")
    cmds = commands(None)
    par.each(ctx, explore, [""] + cmds, dump=False, label="")
    ctx.analysed = {"first words": [""] + cmds}
    ctx.floor("outcomes", 1000)
    ctx.floor("help outcomes", 14)
    ctx.floor("usage outcomes", 100)
    ctx.floor("confirm outcomes", 16)
    ctx.assumptions = ["the parser crate turns words into arguments by the keyword table it is given", "writing succeeds"]
