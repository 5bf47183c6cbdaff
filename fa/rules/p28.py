"""Builds a before/after pair in every way there is (from a tuple, started, started and stopped once or twice) from
unknown sizes, then executes each query on it: the saving is the exact difference on exactly the paths where both sizes
are non-zero and after is smaller, the growth mirrored, and a percentage is the ratio of that difference to the before
size.  The bytes-saved suffix is executed on a message of arbitrary content with such a pair: on the paths with a saving
it holds the rendering of exactly that difference, otherwise it says there were no savings."""
from .. import judge, par, strev
from ..prog import *
from . import p05

GRID = [0, 1, 2, 3, 5, 97, 255, 1 << 32, (1 << 64) - 2, (1 << 64) - 1]


def pairs(p, E):
    """(how, state, value, before, after) for every way of making a pair; sizes are symbols, 0 for 'not given'."""
    B = {b["path"].split("::")[-1]: b for b in p.P.list if b["identity"] and b["local"] and not b.get("closure_of") and ty_ba(E, b)}
    u64 = E.p.ty("u64")
    x, y, z = (mk("sym", n, u64) for n in ("before", "after", "later"))
    if not {"from", "start", "stop"} <= set(B):
        return None
    out = []
    st = State()
    for s, v in E.run(B["from"]["key"], [mk("agg", B["from"]["locals"][1], 0, (x, y))], st=st.clone()):
        out.append(("from((before, after))", s, v, x, y))
    ref = B["stop"]["locals"][1]
    root = mk("l", -7, 0)
    def stop(s, v, val):
        s.mem[root] = v
        return [(t, t.mem[root]) for t, w in E.run(B["stop"]["key"], [mk("ref", root, ()), val], st=s) if w.op != "never"]
    for s, v in E.run(B["start"]["key"], [x], st=st.clone()):
        out.append(("start(before)", s.clone(), v, x, ZERO))
        for t, w in stop(s, v, y):
            out.append(("start(before).stop(after)", t.clone(), w, x, y))
            for t2, w2 in stop(t, w, z):
                out.append(("start(before).stop(after).stop(later)", t2, w2, x, z))
    return out


def ty_ba(E, b):
    t = lambda i: (E.tyinfo(i) or {})
    for i in b["locals"][:b["argc"] + 1]:
        u = t(i)
        if u.get("k") == "ref":
            u = t(u["e"])
        if u.get("path", "").endswith("::BeforeAfter") and not (t(b["locals"][0]).get("path") == "msg::Msg"):
            return b["impl_trait"] is None or "std::convert::From<(u64, u64)>" in b["impl_trait"]
    return False


def payload(v):
    """The number in Some(NonZero(number)), None for None, False when not understood."""
    if v.op != "agg":
        return False
    if v.a[1] == 0:
        return None
    x = v.a[2][0]
    while x.op == "agg" and len(x.a[2]) == 1:
        x = x.a[2][0]
    return x


def envs(*syms):
    import itertools
    return [dict(zip(syms, c)) for c in itertools.product(GRID, repeat=len(syms))]


def sources(x, y):
    return [t for t in dict.fromkeys((x, y)) if t.op == "sym"]


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    E = p.engine(trace_if=lambda l: True)
    made = pairs(p, E)
    if made is None:
        ctx.undecide("anchor", "the before/after type or its constructors are not found")
        return
    B = {b["path"].split("::")[-1]: b for b in p.P.list if b["identity"] and b["local"] and not b.get("closure_of") and ty_ba(E, b)}
    u64 = E.p.ty("u64")
    seen = set()
    allsyms = [mk("sym", n, u64) for n in ("before", "after", "later")]
    for q in ("before", "after", "less", "more", "less_percent", "more_percent"):
        if q not in B:
            ctx.undecide("anchor|" + q, "no query " + q)
            continue
        for how, st, v, x, y in made:
            used = [t for t in allsyms if t in (x, y)] + ([allsyms[1]] if how.endswith("stop(later)") else [])
            ev = envs(*dict.fromkeys(used))
            s0 = st.clone()
            root = mk("l", -9, 0)
            s0.mem[root] = v
            try:
                res = E.run(B[q]["key"], [mk("ref", root, ())], st=s0)
            except Stuck as e:
                ctx.undecide("stuck|" + q, "could not analyse %s: %s" % (q, e))
                continue
            where = "%s.%s()" % (how, q)
            if q in ("before", "after"):
                want, some = (x if q == "before" else y), [LT(ZERO, x if q == "before" else y)]
            else:
                big, small = (x, y) if q.startswith("less") else (y, x)
                want, some = sub(big, small), [LT(ZERO, x), LT(ZERO, y), LT(small, big)]
            for s, r in res:
                if r.op == "never":
                    continue
                ctx.count("query paths")
                n = payload(E.simp(s, r))
                key = "query|" + q
                if n is False:
                    ctx.undecide(key, "%s: %s" % (where, show(r)[:200]))
                    continue
                if n is None:
                    if not q.endswith("percent"):
                        judge.excluded(ctx, E, s, some, ev, key + "|missing", where + " gives nothing for sizes that have an answer")
                    continue
                for l in some:
                    judge.excluded(ctx, E, s, [NOT(l)], ev, key + "|extra", where + " gives an answer for sizes that have none")
                if q.endswith("percent"):
                    ratio(ctx, E, s, n, want, x, ev, key, where)
                else:
                    judge.number(ctx, E, s, n, want, ev, key, where)
            seen.add(q)
    for st, kind, detail, at, certain in E.panics:
        ctx.oblige(False if certain and st.weak is None else None, "panic|" + at[0], "%s can panic: %s %s" % (at[0], kind, str(detail)[:120]))
    ctx.analysed = {"queries": sorted(seen), "ways of making a pair": sorted({m[0] for m in made})}
    suffix(ctx, p, made)


def ratio(ctx, E, s, n, want, whole_, ev, key, where):
    n = E.resimp(s, n)
    ctx.count("ratios")
    if n.op != "app" or n.a[0] != "fdiv" or len(n.a) != 4:
        ctx.undecide(key, "%s: the ratio is not a plain division: %s" % (where, show(n)[:160]))
        return
    judge.number(ctx, E, s, n.a[2], want, ev, key + "|numerator", where + ": the amount divided")
    judge.number(ctx, E, s, n.a[3], whole_, ev, key + "|denominator", where + ": the amount divided by")


def nices(rope_):
    """The rendered numbers in a rope, and its fixed text."""
    out, text = [], b""
    for g in rope_.a:
        if g.op == "lit":
            text += g.a[0]
        elif g.op == "sub" and g.a[0].op == "app" and g.a[0].a[0] in ("nice", "fmt") and g.a[1] == ZERO:
            out.append(g.a[0])
        else:
            return None
    return out, text


def suffix(ctx, p, made):
    E = p.engine()
    for b, how, mty in p05.subjects(p):
        if b["path"].split("::")[-1] not in ("with_bytes_saved", "set_bytes_saved"):
            continue
        for w, st, v, x, y in made:
            if w.startswith("start(before)."):
                continue
            x_ = p05.symbolic(p, b, how, mty, fix={1: v}, base=st)
            if x_ is None or x_[5] is None:
                ctx.undecide("stuck|suffix", "could not analyse " + b["path"])
                return
            E, L, texts, syms, args, res = x_
            i = L.parts.index("suffix")
            syms_ = sources(x, y)
            ev = []
            for e in envs(*syms_):
                for k in (0, 1, 22, 40, 300):
                    d = dict(e)
                    for t in texts:
                        base = t.a[0].a[0]
                        d[base] = b" " * (4 * (k > 0)) if base.a[0] == "part:indent" else b"\n"[:k] if base.a[0] == "part:newline" else b"x" * k
                    ev.append(d)
            where = "with_bytes_saved(%s)" % w
            saved = [LT(ZERO, x), LT(ZERO, y), LT(y, x)]
            for s, r in res:
                if r is None or r.op == "never":
                    continue
                ctx.count("suffix paths")
                z = L.split(E, s, r)
                mid = p05.middle(z[0], cat(*texts[:i]), cat(*texts[i + 1:])) if z else None
                ns = nices(mid) if mid is not None else None
                key = "suffix"
                if ns is None:
                    ctx.undecide(key, "%s: suffix not understood: %s" % (where, show(mid if mid is not None else r)[:200]))
                    continue
                nums, text = ns
                amounts = [n for n in nums if not is_ratio(E, s, n.a[2])]
                ratios = [n for n in nums if n not in amounts]
                if amounts:
                    for l in saved:
                        judge.excluded(ctx, E, s, [NOT(l)], ev, key + "|extra", where + " announces a saving when there is none")
                    if len(amounts) > 1:
                        ctx.undecide(key + "|twice", where + ": more than one amount")
                    for n in amounts:
                        ctx.count("amounts")
                        judge.number(ctx, E, s, inner(n.a[2]), sub(x, y), ev, key + "|amount", where + ": the amount shown")
                    for n in ratios:
                        ratio(ctx, E, s, E.resimp(s, n.a[2]), sub(x, y), x, ev, key + "|ratio", where)
                else:
                    judge.excluded(ctx, E, s, saved, ev, key + "|missing", "%s gives %r for sizes with a saving" % (where, text))
                    ctx.oblige(True if b"No savings" in text else (False if s.weak is None else None), key + "|none", "%s says %r when nothing was saved" % (where, text))
                    if ratios:
                        ctx.undecide(key + "|lone", where + ": a percentage without an amount")


def inner(v):
    while v.op == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def is_ratio(E, s, v):
    return v.op == "app" and v.a[0] == "fdiv"


def run(ctx):
    par.each(ctx, run_config, ["progress"] + (["all", "default"] if ctx.thorough else ["all"]))
    ctx.floor("query paths", 60)
    ctx.floor("suffix paths", 10)
    ctx.floor("amounts", 2)
    ctx.floor("ratios", 4)
    ctx.assumptions = ["dactyl's NiceU64, NicePercent and div_float render and divide the numbers they are given"]
