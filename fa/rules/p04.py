"""Executes every implementation of the message-prefix trait: the announced length, the pushed text and the standalone
rendering, for each kind, and for an arbitrary label of every supported text type, plain or with each of the 256 colours
(given as colour or number).  The pushed text must be exactly the documented one, the announced length its length, and
the destination's earlier content untouched."""
from .. import judge, par
from ..prog import *
from . import p02, p03, p05

TRAIT = "IntoMsgPrefix"


def impls(p):
    out = {}
    for b in p.P.list:
        if b["identity"] and b["local"] and not b.get("closure_of") and TRAIT in (b["impl_trait"] or "") and b["path"].split("::")[-1] in ("prefix_len", "prefix_push", "prefix_str"):
            out.setdefault(b["impl_trait"], {})[b["path"].split("::")[-1]] = b
    return out


def cases(E, ty, color):
    """(description, make(ref root) -> value, label or None, sequence) for every value shape of a prefix type."""
    t = E.tyinfo(ty) or {}
    if t.get("k") == "adt" and t.get("adt") == "enum" and t["path"].endswith("MsgKind"):
        return [("kind", n) for n in range(len(t["vars"]))]
    if t.get("k") == "tuple" or t.get("tuple"):
        return [("color", n) for n in range(256)]
    return [("plain", 0)]


def fields(E, ty):
    return list(E.field_types(ty, 0) or ())


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    base = p.engine()
    color = p02.color_type(base)
    kind = p03.kind_type(base)
    disc = {v[1]: i for i, v in enumerate(base.types[color]["vars"])} if color is not None else {}
    seen = []
    for name, fs in sorted(impls(p).items()):
        if not {"prefix_len", "prefix_push"} <= set(fs):
            ctx.undecide("anchor|" + name, "%s lacks a method" % name)
            continue
        E = p.engine(trace_if=lambda l: True)
        b = fs["prefix_len"]
        ty = E.tyinfo(b["locals"][1])["e"]
        sym = mk("deref", p.symargs(b)[0], ty) if False else None
        t = E.tyinfo(ty) or {}
        seen.append(name)
        if ty == kind:
            todo = [("kind", n) for n in range(len(t["vars"]))]
        elif t.get("k") == "tuple":
            todo = [("color", n) for n in range(256)]
        else:
            todo = [("plain", 0)]
        for what, n in todo:
            ctx.count("values")
            st = State()
            root = mk("l", -1, 0)
            label = None
            if what == "kind":
                val = mk("agg", ty, n, ())
            elif what == "color":
                ft = fields(E, ty)
                lab = mk("sym", "label", ft[0])
                val = mk("agg", ty, 0, (lab, mk("agg", color, disc[n], ()) if ft[1] == color else INT(n)))
                label = text(E, st, lab)
            else:
                lab = mk("sym", "label", ty)
                val = lab
                label = text(E, st, lab)
            if what != "kind" and label is None:
                ctx.undecide("label|" + name, "the label's text is not understood")
                break
            st.mem[root] = val
            one(ctx, p, E, fs, name, st, mk("ref", root, ()), what, n, label, kind)
        for s, k, detail, at, certain in E.panics:
            ctx.oblige(False if certain and s.weak is None else None, "panic|" + name, "%s can panic: %s %s" % (name, k, str(detail)[:100]))
    default(ctx, p)
    ctx.analysed = {"implementations": seen}


def text(E, st, v):
    try:
        r = E.as_rope(st, v)
    except Exception:
        return None
    return r if r is not None and r.op == "rope" else None


def envs(label):
    base = label.a[0].a[0] if label is not None and label.a else None
    if base is None:
        return [{}]
    return [{base: x} for x in (b"Label", b"", b"x", b" ", b"\xc3\xa9\xe4\xb8\x96", b"a" * 300, b"Label:", b"L\n", b"\x1b[1mL\x1b[0m", b" pad ")]


def want(what, n, label, kindtext):
    """(rope when the label is not empty, rope when it is)."""
    if what == "plain":
        return cat(label, rlit(b": "))
    if what == "color":
        return cat(rlit(b"\x1b[1;%sm" % p02.color_code(n).encode()), label, rlit(b":\x1b[0m "))
    return None


def one(ctx, p, E, fs, name, st0, ref, what, n, label, kind):
    key = name
    where = "%s%s" % (name, "" if what == "plain" else " #%d" % n)
    dst = mk("l", -2, 0)
    old = whole(mk("sym", "earlier", E.p.ty("str")))
    try:
        for s, ln in E.run(fs["prefix_len"]["key"], [ref], st=st0.clone()):
            if ln.op == "never":
                continue
            s = s.clone()
            s.mem[dst] = old
            s2 = s
            for s, r in E.run(fs["prefix_push"]["key"], [ref, mk("ref", dst, ())], st=s):
                if r.op == "never":
                    continue
                ctx.count("paths")
                ev = envs(label)
                for e in ev:
                    e[old.a[0].a[0]] = b"Earlier"
                now = text(E, s, s.mem[dst])
                mid = p05.middle(now, old, mk("rope")) if now is not None else None
                if mid is None:
                    ok = judge.rope(ctx, E, s, now, old, ev, key + "|dst", where + ": the destination's content") if now is not None else ctx.undecide(key + "|dst", where + ": destination not understood")
                    continue
                judge.number(ctx, E, s, ln, rope_len(mid), ev, key + "|length", where + ": announced length against pushed text")
                expect(ctx, E, s, mid, what, n, label, ev, key + "|text", where)
        if "prefix_str" in fs:
            for s, r in E.run(fs["prefix_str"]["key"], [ref], st=st0.clone()):
                if r.op == "never":
                    continue
                ev = envs(label)
                x = text(E, s, r)
                if x is None:
                    ctx.undecide(key + "|str", where + ": standalone rendering not understood")
                    continue
                expect(ctx, E, s, x, what, n, label, ev, key + "|str", where)
    except Stuck as e:
        ctx.undecide("stuck|" + name, "could not analyse %s: %s" % (name, e))


KINDS = {}


def expect(ctx, E, s, got, what, n, label, ev, key, where):
    if what == "kind":
        w = KINDS[n]
        g = rope_lit(got)
        ctx.oblige(None if g is None or w is None or (s.weak is not None and g != w) else g == w, key, "%s renders as %r instead of %r" % (where, g, w))
        return
    empty = E.decide(s, EQ(rope_len(label), ZERO))
    full = want(what, n, label, None)
    if empty is True:
        judge.rope(ctx, E, s, got, mk("rope"), ev, key, where + ": an empty label")
    elif empty is False:
        judge.rope(ctx, E, s, got, full, ev, key, where + ": the rendering")
    else:
        # the label's emptiness was not looked at
        for l, w in ((EQ(rope_len(label), ZERO), mk("rope")), (LT(ZERO, rope_len(label)), full)):
            t = s.clone()
            if E.assume(t, l, True) is False:
                continue
            judge.rope(ctx, E, t, got, w, ev, key, where + ": the rendering")


def default(ctx, p):
    """The trait's own standalone rendering, for an implementation it knows nothing about, is what that one pushes."""
    bs = [b for b in p.P.list if b["identity"] and b["local"] and b["path"].endswith(TRAIT + "::prefix_str") and not b["impl_trait"]]
    for b in bs:
        E = p.engine(trace_if=lambda l: True)
        args = p.symargs(b)
        for s, r in E.run(b["key"], args):
            if r.op == "never":
                continue
            x = text(E, s, r)
            ctx.count("default renderings")
            good = x is not None and len(x.a) == 1 and x.a[0].op == "sub" and x.a[0].a[0].op == "app" and x.a[0].a[0].a[0] == "prefix" and x.a[0].a[1] == ZERO and x.a[0].a[2] == mk("len", x.a[0].a[0])
            ctx.oblige(True if good else None, "default", "the default standalone rendering gives %s" % (show(x)[:120] if x is not None else show(r)[:120]))


def kinds(ctx, p):
    """The rendered prefix of each kind, from its name and colour."""
    E = p.engine(trace_if=lambda l: True)
    ty = p03.kind_type(E)
    for n, (name, _, f) in enumerate(E.types[ty]["vars"]):
        v = p03.views(report_stub(), p, E, ty, n)
        c = v.get("prefix_color")
        if c is None or v.get("as_str") is None:
            KINDS[n] = None
        elif c[0] is None:
            KINDS[n] = b""
        else:
            KINDS[n] = b"\x1b[1;%sm%s:\x1b[0m " % (p02.color_code(c[0]).encode(), v["as_str"])


class report_stub:
    def count(self, *a):
        pass


def job(ctx, cfg):
    KINDS.clear()
    p = Prog(cfg)
    p.over = {}
    kinds(ctx, p)
    run_config(ctx, cfg)


def run(ctx):
    par.each(ctx, job, ["default", "bin"] + (["all"] if ctx.thorough else []))
    ctx.floor("values", 2 * (10 * 256 + 5 + 15))
    ctx.floor("paths", 2 * 10 * 256)
    ctx.floor("default renderings", 2)
