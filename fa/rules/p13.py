"""The option and subcommand tables handed to the argument parser, the option names the program compares with, the help
pages as they are written and the completion / manual listings are read from the current tree and compared: everything
listed is in the table with the right arity, and everything in the table is followed, abstractly, to a handler."""
import os
import re
import tomllib

from .. import build, par
from ..cli import *
from .p11 import commands


def page(c):
    """The text written to stdout by the only outcome that prints a page."""
    for g, s, evs, code in c.ended():
        r = EMPTY
        for e in evs:
            if e.kind in ("write", "write_some") and e.args[0] == "stdout":
                r = cat(r, e.args[1])
        l = rope_lit(r)
        if l:
            return l.decode("utf-8", "replace")
    return None


def plain(t):
    return re.sub(r"\x1b\[[\d;]*m", "", t)


def options_of(text):
    """[(spellings, takes a value)] of a help page"""
    out = []
    for line in text.splitlines():
        m = re.match(r"^ +((?:-\w|--[\w-]+)(?:, (?:-\w|--[\w-]+))*)(?: (<\w+>))?(?:\s{2,}|$)", line)
        if m:
            out.append((m.group(1).split(", "), bool(m.group(2))))
    return out


def subcommands_of(text):
    m = re.search(r"^SUBCOMMANDS:\n((?:    .*\n?)+)", text, re.M)
    return [l.split()[0] for l in m.group(1).splitlines() if l.strip()] if m else []


def manifest():
    with open(os.path.join(build.REPO, "fyi", "Cargo.toml"), "rb") as f:
        return tomllib.load(f)["package"].get("metadata", {}).get("bashman", {})


def verdicts(c):
    out = set()
    if c.stuck:
        return {None}
    for g, s, evs, code in c.ended():
        o = outputs(evs)
        if s.weak:
            out.add(None)
        elif any(e.kind == "prompt" for e in evs):
            out.add("done")
        elif len(evs) == 1 and evs[0].kind == "message" and evs[0].args[0] == "stderr" and same_int(c.E, s, code, ZERO) is False \
                and is_msg(evs[0].args[1]) and "shown" in {a.a[0] for a in atoms(evs[0].args[1].a[2][1]) if a.op == "app"}:
            out.add("refused")
        elif any(e.kind == "write" for e in evs) and any((rope_lit(e.args[1]) or b"").strip() for e in evs if e.kind == "write"):
            out.add("page")
        elif o["stdout"] or o["stderr"]:
            out.add("done")
        else:
            out.add("nothing")
    return out


def one(ctx, cmd):
    w0 = ("cmd", cmd.encode())
    c = Cli(Words([w0], lambda k, g, t: [("key", "help", "--help")]))
    text = page(c)
    tabs = [t for p, ts in c.M.tables.items() if p >= 2 for t in ts]
    if text is None or not tabs:
        v = verdicts(c)
        if c.stuck or None in v:
            ctx.undecide("help|" + cmd, "fyi %s --help: %s" % (cmd, c.stuck or v))
        else:
            ctx.violate("help|" + cmd, "fyi %s --help prints no help page" % cmd)
        text = ""
    text = plain(text)
    table = dict((k.decode(), h) for h, k in (tabs[0] if tabs else ()))
    ctx.analysed = {"page": text[-4000:], "table": sorted(table)}
    ctx.count("help pages")
    ctx.oblige(("fyi %s " % cmd) in text, "usage|" + cmd, "the help page of %s does not show its usage" % cmd, "the help page of %s shows its usage" % cmd)
    wanted = [(n, v, "help page") for names, v in options_of(text) for n in names]
    m = manifest()
    for kind in ("switches", "options"):
        for o in m.get(kind, []):
            if cmd in o.get("subcommands", []):
                wanted += [(o[k], kind == "options", "manual and completions") for k in ("short", "long") if k in o]
    sw, vs = documented(cmd)
    wanted += [(f, False, "documentation") for s in sw for f in SWITCHES[s]] + [(f, True, "documentation") for s in vs for f in VALUES[s]]
    for n, v, src in wanted:
        ctx.count("documented options")
        h = table.get(n)
        ctx.oblige(h == (2 if v else 1) if tabs else None, "keyword|%s|%s" % (cmd, n),
                   "%s of `fyi %s` (%s) is %s" % (n, cmd, src, "not a keyword of the parser" if h is None else "a keyword of another kind"),
                   "fyi %s: %s is a keyword" % (cmd, n))
    words = sorted({(n, table[n]) for n in table} | {(n, 2 if v else 1) for n, v, _ in wanted})
    for n, h in words:
        if h == 0:
            continue
        opt = next((k for k, fs in list(SWITCHES.items()) + list(VALUES.items()) if n in fs and (k not in VALUES or (k == "count") == (cmd == "blank"))), None)
        w = ("other", "x", n)
        if opt in SWITCHES and h == 1:
            w = ("key", opt, n)
        elif opt in VALUES and h == 2:
            w = ("val", opt, n, "good")

        def rest(k, g, t, w=w):
            if not g.get("given"):
                return [w]
            return [("end",)] if cmd == "blank" or "text" in g else [("msg",)]
        c = Cli(Words([w0], marked(rest, w)))
        vd = verdicts(c)
        ctx.count("keywords followed")
        what = "fyi %s %s" % (cmd, n)
        if None in vd or not vd:
            ctx.undecide("handled|%s|%s" % (cmd, n), "%s: %s" % (what, c.stuck or "not understood"))
            continue
        want = {"page"} if opt == "help" else {"done"}
        ctx.oblige(vd == want, "handled|%s|%s" % (cmd, n), "%s is %s" % (what, "refused" if "refused" in vd else "not handled (%s)" % ", ".join(sorted(vd))),
                   "%s is handled" % what)
    if not any(table.get(f) == 1 for f in SWITCHES["help"]):
        ctx.undecide("help keys|" + cmd, "no help option")


def marked(rest, w):
    """The keyword once, then the rest."""
    def f(k, g, t):
        if w[0] == "key":
            given = g.get(w[1])
        elif w[0] == "val":
            given = w[1] in g
        else:
            given = g.get("odd")
        return rest(k, dict(g, given=given), t)
    return f


def run(ctx):
    build.dump("bin")
    c = Cli(Words([("key", "help", "--help")], lambda k, g, t: [("end",)]))
    main = plain(page(c) or "")
    cmds = commands(None)
    m = manifest()
    listed = [(k, "help page") for k in subcommands_of(main)] + [(s["cmd"], "manual and completions") for s in m.get("subcommands", []) if s.get("cmd")]
    for k, src in listed:
        ctx.count("listed subcommands")
        if k == "help":
            c = Cli(Words([("text", b"help")], lambda k, g, t: [("end",)]))
            v = verdicts(c)
            ctx.oblige(None if None in v else v == {"page"}, "help", "fyi help does not print the help", "fyi help prints the help")
            continue
        ctx.oblige(k in cmds, "subcommand|" + k, "`fyi %s` (%s) is not a subcommand of the parser" % (k, src), "fyi %s is a subcommand" % k)
    for k in sorted(set(cmds)):
        c = Cli(Words([("cmd", k.encode())], lambda _k, g, t: [("end",)] if "text" in g or g["cmd"] == "blank" else [("msg",)]))
        v = verdicts(c)
        ctx.oblige(None if None in v else v == {"done"}, "dispatch|" + k, "fyi %s MESSAGE: %s" % (k, ", ".join(sorted(map(str, v)))), "fyi %s MESSAGE is carried out" % k)
    for w in (("key", "help", "-h"), ("key", "help", "--help"), ("key", "version", "-V"), ("key", "version", "--version")):
        c = Cli(Words([w], lambda k, g, t: [("end",)]))
        tabs = [t for p, ts in c.M.tables.items() if p <= 1 for t in ts]
        ctx.oblige(all((1, w[2].encode()) in t for t in tabs) if tabs else None, "keyword|" + w[2], "fyi %s is not a keyword of the parser" % w[2], "fyi %s is a keyword" % w[2])
        t = page(c)
        if w[1] == "version" and t is not None:
            ctx.oblige("USAGE" not in t, "version|" + w[2], "fyi %s prints the help" % w[2], "fyi %s prints the version" % w[2])
        else:
            v = verdicts(c)
            ctx.oblige(None if None in v else v <= {"page", "done"}, "page|" + w[2], "fyi %s prints no help" % w[2], "fyi %s prints the help" % w[2])
    par.each(ctx, one, cmds, dump=False, label="")
    pages = {}
    for k in cmds:
        a = ctx.analysed.get(k) or {}
        if a.get("page"):
            pages.setdefault(a["page"], []).append(k)
    for t, ks in pages.items():
        ctx.oblige(len(ks) == 1, "own page|" + ",".join(ks), "%s share one help page" % ", ".join(ks), "fyi %s has a help page of its own" % ks[0])
    ctx.analysed = {"subcommands": cmds, "pages": len(pages), "main options": options_of(main)}
    ctx.floor("listed subcommands", 20)
    ctx.floor("documented options", 100)
    ctx.floor("keywords followed", 100)
    ctx.floor("help pages", 14)
    ctx.assumptions = ["the parser crate turns words into arguments by the keyword table it is given"]
