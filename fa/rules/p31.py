"""Executes the indentation setter and constructor, on a message of arbitrary content, for each of the 256 indentation
levels: the part that replaces the old indent must be exactly the documented run of spaces."""
from .. import par
from ..prog import *
from . import p05


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    seen = []
    for b, how, mty in p05.subjects(p):
        last = b["path"].split("::")[-1]
        if p05.TARGET.get(last[4:] if last.startswith("set_") else last[5:]) != "indent" or not last.startswith(("set_", "with_")) or b["argc"] != 2:
            continue
        seen.append(b["path"])
        for tabs in range(256):
            x = p05.symbolic(p, b, how, mty, fix={1: INT(tabs)})
            if x is None or x[5] is None:
                ctx.undecide("stuck|" + last, "could not analyse %s" % b["path"])
                return
            E, L, texts, syms, args, res = x
            want = lit_(b" " * min(32, 4 * tabs))
            i = L.parts.index("indent")
            n = 0
            for st, kind, detail, at, certain in E.panics:
                ctx.oblige(False if certain and st.weak is None else None, "panic|" + last, "%s(%d) can panic: %s %s" % (b["path"], tabs, kind, str(detail)[:120]))
            for s, v in res:
                if v is None or v.op == "never":
                    continue
                n += 1
                z = L.split(E, s, v)
                got = p05.middle(z[0], cat(*texts[:i]), cat(*texts[i + 1:])) if z else None
                if got is None:
                    ctx.undecide("shape|" + last, "%s(%d): result not understood" % (b["path"], tabs))
                    continue
                ctx.count("levels")
                known = got == want or E.decide(s, mk("same", got, want))
                if known is not True and not (all(g.op == "lit" for g in got.a)):
                    ctx.undecide("indent|" + last, "%s(%d): %s" % (b["path"], tabs, show(got)[:120]))
                    continue
                ctx.oblige(known is True or (False if s.weak is None else None), "indent|" + last,
                           "%s: level %d gives %r" % (b["path"], tabs, b"".join(g.a[0] for g in got.a)) if known is not True else None, "%s(%d)" % (last, tabs))
            if not n and not E.panics:
                ctx.undecide("none|" + last, "%s(%d) has no outcome" % (b["path"], tabs))
    ctx.analysed = {"functions": seen}


def lit_(b):
    return mk("rope", mk("lit", b)) if b else mk("rope")


def run(ctx):
    par.each(ctx, run_config, ["default", "timestamps", "all"])
    ctx.floor("levels", 3 * 2 * 256)
