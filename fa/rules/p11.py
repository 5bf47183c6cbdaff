"""Exhaustive exploration of the message subcommands over their argument language: every sequence of documented options
(short, long, any order, repeated), values of every class, texts and foreign words is followed until no new abstract
state appears; what is printed or asked at the end is compared, field by field, with what the words ask for."""
from ..cli import *


def prefix_ok(ctx, c, E, s, g, p, what):
    cmd = g["cmd"]
    key = "prefix|" + what
    if cmd != "print":
        if p.a[0] != "kind":
            ctx.oblige(None if s.weak else False, key, "%s has prefix %s" % (what, show(p)))
            return
        ctx.oblige(p.a[2].lower() == cmd, key, "%s prints a message of kind %s" % (what, p.a[2]), "%s is of kind %s" % (what, p.a[2]))
        return
    want = whole(g["prefix"]) if g.get("prefix") is not None else None
    if p.a[0] == "kind":
        if want is None:
            ctx.oblige(p.a[2] in ("None", "Custom"), key, "%s prints a message of kind %s" % (what, p.a[2]), what)
        else:
            ctx.violate(key, "%s ignores the prefix" % what)
        return
    if len(p.a) != 4:
        ctx.undecide(key, show(p))
        return
    r, col = p.a[2], p.a[3]
    if want is None:
        ctx.oblige(True if rope_lit(r) == b"" else (False if rope_lit(r) is not None else None), key, "%s: prefix %s" % (what, show(r)), "%s has no prefix" % what)
        return
    judge.rope(ctx, E, s, r, want, envs(g), key, "%s: prefix" % what, "%s: prefix as given" % what)
    if col.op == "app" and col.a[0] == "color":
        w = g.get("color", INT(199))
        ctx.oblige(same_int(E, s, col.a[2], w), "color|" + what, "%s: prefix colour %s" % (what, show(col.a[2])), "%s: colour %s" % (what, show(w)))
    else:
        ctx.undecide("color|" + what, show(col))


def envs(g):
    out = []
    for t, p in ((b"text", b"pre"), (b"  a b ", b" p: "), (b"", b""), ("\u00e9\n".encode(), b"x" * 40)):
        env = {}
        for k, v in g.items():
            if isinstance(v, T) and v.op == "sym":
                env[v] = t if k == "text" else p if k == "prefix" else 7
        out.append(env)
    return out


def commands(P):
    """Every command word of the parser's table."""
    c = Cli(Words([("end",)], full))
    return sorted({k.decode() for ts in c.M.tables.values() for t in ts for h, k in t if h == 0})


def explore(ctx, cmd):
    c = Cli(Words([("cmd", cmd.encode())], full))
    E = c.E
    if c.stuck:
        ctx.undecide("stuck|" + cmd, c.stuck)
    ctx.count("argument states", getattr(E, "heads", 0))
    for g, s, evs, code in c.ended():
        ctx.count("outcomes")
        what = say(g)
        if s.weak or any(e.kind == "unknown" for e in evs):
            ctx.undecide("weak|" + what, "%s: %s" % (what, s.weak))
            continue
        how = kind_of_outcome(g)
        msgs = [e for e in evs if e.kind in ("message", "prompt")]
        rest = [e for e in evs if e.kind not in ("message", "prompt")]
        loose = g.get("loose", ())
        if how == "open":
            continue
        refused = (len(msgs) == 1 and msgs[0].kind == "message" and msgs[0].args[0] == "stderr" and not rest and same_int(E, s, code, ZERO) is False)
        if loose and refused and how in ("print", "confirm"):
            continue
        if how == "help":
            ctx.oblige(not msgs and bool(rest), "help|" + what, "%s does not print the help" % what, "%s prints the help" % what)
            continue
        if how == "usage":
            out = outputs(evs)
            ctx.oblige(not out["stdout"] and len(out["stderr"]) == 1 and same_int(E, s, code, ZERO) is not True, "usage|" + what,
                       "%s is not refused" % what, "%s is refused" % what)
            continue
        if len(msgs) != 1 or rest:
            ctx.violate("messages|" + what, "%s: %d messages" % (what, len(msgs)))
            continue
        e = msgs[0]
        if how == "confirm":
            if e.kind != "prompt":
                ctx.violate("prompt|" + what, "%s does not ask" % what)
                continue
            m = e.args[0]
            d = same_int(E, s, truth(E, s, e.args[1]), ONE if g.get("yes") else ZERO)
            ctx.oblige(d, "yes|" + what, "%s: the default answer is wrong" % what, "%s: default answer" % what)
        else:
            if e.kind != "message":
                ctx.violate("prompt|" + what, "%s asks" % what)
                continue
            m = e.args[1]
            to = "stderr" if g.get("stderr") else "stdout"
            ctx.oblige(e.args[0] == to, "stream|" + what, "%s prints to %s" % (what, e.args[0]), "%s prints to %s" % (what, to))
            w = g.get("exit", ZERO)
            ctx.oblige(same_int(E, s, code, w), "exit|" + what, "%s exits with %s" % (what, show(code)), "%s exits with %s" % (what, show(w)))
        if not is_msg(m):
            # e.g. a message built in a way that is not understood
            ctx.undecide("message|" + what, show(m)[:200])
            continue
        p, text, ts, ind, nl = m.a[2]
        prefix_ok(ctx, c, E, s, g, p, what)
        t = g["text"]
        judge.rope(ctx, E, s, text, t if t.op == "rope" else whole(t), envs(g), "text|" + what, "%s: text" % what, "%s: text as given" % what)
        for name, got, want in (("timestamp", ts, ONE if g.get("timestamp") else ZERO), ("indent", ind, ONE if g.get("indent") else ZERO)) + \
                ((("newline", nl, ONE),) if how == "print" else ()):
            got = truth(E, s, got)
            ctx.oblige(same_int(E, s, got, want), "%s|%s" % (name, what), "%s: %s is %s" % (what, name, show(got)), "%s: %s is %s" % (what, name, show(want)))
    panics(ctx, c)
    return c


def run(ctx):
    cmds = [k for k in commands(None) if k != "blank"]
    ctx.count("subcommands", len(cmds))
    from .. import build, par
    todo = sorted(cmds, key=lambda k: k != "print")
    build.dump("bin")
    par.each(ctx, explore, todo, dump=False, label="")
    ctx.analysed = {"subcommands": todo}
    ctx.floor("subcommands", 10)
    ctx.floor("outcomes", 1000)
    ctx.floor("argument states", 500)
    ctx.assumptions = ["the parser crate turns words into arguments by the keyword table it is given",
                       "a value that is not a usable number leaves the setting alone or is refused"]
