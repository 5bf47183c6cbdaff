"""Executes every comparison, ordering, hash, borrow and text view of a message, on two messages of arbitrary content
(each part an unknown text) or a message and an arbitrary text: the result must be exactly the comparison, ordering, hash
or contents of the whole text, on every path."""
from .. import judge, par, strev, symmsg
from ..prog import *
from . import p05


def subjects(p):
    E = p.engine()
    out = []
    for b in p.P.list:
        if not b["identity"] or not b["local"] or b.get("closure_of") or not (b["public"] or b["impl_trait"]):
            continue
        last = b["path"].split("::")[-1]
        args = [strip(E, b["locals"][1 + i]) for i in range(b["argc"])]
        if "msg::Msg" not in [a[0] for a in args]:
            continue
        if b["impl_trait"] and last in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash", "borrow", "as_ref", "deref"):
            out.append((b, last, args))
        elif b["argc"] == 1 and args[0][1] <= 1 and last in ("as_str", "as_bytes", "into_string", "into_bytes", "len", "is_empty", "from"):
            out.append((b, last, args))
    return out


def strip(E, ty):
    n = 0
    t = E.tyinfo(ty) or {}
    while t.get("k") == "ref":
        ty, n = t["e"], n + 1
        t = E.tyinfo(ty) or {}
    return t.get("path") or t.get("k"), n, ty


def other_text(E, s, arg, seen, boxed):
    """The whole text of a string-like operand: as it appears in the result."""
    found = set()
    bases(seen, arg, found)
    if len(found) == 1:
        return whole(found.pop())
    if found or boxed:
        return None
    try:
        r = E.as_rope(s, arg)
    except Exception:
        return None
    return r if r is not None and r.op == "rope" else None


def bases(t, arg, out):
    """What the text segments in a term are taken from, when that is the operand itself."""
    if t.op in ("sub", "len") and mentions(t.a[0], arg):
        if t.a[0].op in ("app",) and any(isinstance(y, T) and y.op in ("rope", "sr") for y in t.a[0].a[2:]):
            bases(t.a[0], arg, out)
        else:
            out.add(t.a[0])
        return
    for y in t.a:
        if isinstance(y, T):
            bases(y, arg, out)
        elif isinstance(y, tuple):
            for z in y:
                for w in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(w, T):
                        bases(w, arg, out)


def mentions(t, x):
    return t is x or isinstance(t, T) and any(mentions(y, x) for y in t.a if isinstance(y, T))


def three(r, env, E):
    """-1, 0 or 1."""
    if r.op == "app" and r.a[0] == "strcmp":
        x, y = strev.sev(r.a[2], env, E), strev.sev(r.a[3], env, E)
        return (x > y) - (x < y)
    if r.op == "app" and r.a[0] == "cmp":
        x, y = strev.iev(r.a[2], env, E), strev.iev(r.a[3], env, E)
        return (x > y) - (x < y)
    if r.op == "agg" and not r.a[2]:
        return r.a[1] - 1
    raise strev.Unknown()


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    seen = []
    for b, last, kinds in subjects(p):
        E = p.engine(trace_if=lambda l: True)
        args = p.symargs(b)
        st, msgs, parts = State(), {}, []
        name = b["impl_trait"] or b["path"]
        for i, (path, depth, ty) in enumerate(kinds):
            if path != "msg::Msg":
                continue
            L = symmsg.Layout(E, ty)
            if not L.ok:
                ctx.undecide("layout", "the message type is not a text with offsets")
                return
            texts = [whole(mk("sym", "%d:%s" % (i, n), E.p.ty("str"))) for n in L.parts]
            st = L.state(E, texts, st)
            msgs[i] = cat(*texts)
            parts += [t.a[0].a[0] for t in texts]
            v = L.build(E, texts)
            for d in range(depth):
                r = mk("l", -1 - d, i)
                st.mem[r] = v
                v = mk("ref", r, ())
            args[i] = v
        try:
            res = E.run(b["key"], args, st=st)
        except Stuck as e:
            ctx.undecide("stuck|" + name, "could not analyse %s: %s" % (name, e))
            continue
        seen.append(name)
        ctx.count("functions")
        key = "%s|%s" % (last, name)
        for s_, kind, detail, at, certain in E.panics:
            ctx.oblige(False if certain and s_.weak is None else None, "panic|" + key, "%s can panic: %s %s" % (name, kind, str(detail)[:100]))
        for s, r in res:
            if r.op == "never":
                continue
            r = E.resimp(s, r)
            ctx.count("paths")
            if last == "hash":
                judge_hash(ctx, E, s, msgs[0], parts, key, name)
                continue
            if last in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
                t = []
                for i in (0, 1):
                    t.append(msgs[i] if i in msgs else other_text(E, s, args[i], r, "Box" in kinds[i][0]))
                if None in t:
                    ctx.undecide(key, "%s: the other operand's text is not recognised in %s" % (name, show(r)[:200]))
                    continue
                compare(ctx, E, s, last, r, t, parts, key, name)
                continue
            if last == "len":
                judge.number(ctx, E, s, r, rope_len(msgs[0]), envs(E, parts, [r, msgs[0]], s), key, name)
                continue
            if last == "is_empty":
                z = EQ(rope_len(msgs[0]), ZERO)
                truth(ctx, E, s, r, z, envs(E, parts, [r, msgs[0]], s), key, name)
                continue
            try:
                x = E.as_rope(s, r)
            except Exception:
                x = None
            if x is None or x.op != "rope":
                ctx.undecide(key, "%s: %s is not a text" % (name, show(r)[:200]))
                continue
            judge.rope(ctx, E, s, x, msgs[0], envs(E, parts, [x, msgs[0]], s), key, name)
    ctx.analysed = {"functions": seen}


def envs(E, parts, terms, s):
    conds = list(s.lits) + list(s.ineq) + list(s.rng) + list(s.ne)
    for env in p05.assignments(E, parts, terms + conds, s, 14):
        yield env
    # the same text in the other operand: with the same parts, or all in one part, or as a plain text with small changes
    n = len(parts) // 2 if parts and parts[-1].a[0].startswith("1:") and parts[0].a[0].startswith("0:") else len(parts)
    for env in p05.assignments(E, parts, terms + conds, s, 14):
        if not all(q in env for q in parts):
            continue
        text = b"".join(env[q] for q in parts[:n])
        for i in range(n, len(parts)):
            env[parts[i]] = env[parts[i - n]]
        others = [k for k in env if isinstance(env[k], bytes) and k not in parts]
        for f in (lambda x: x, lambda x: x + b"!", lambda x: x.upper(), lambda x: x + b" ", lambda x: x + b"\n", lambda x: b" " + x, lambda x: x[:-1]):
            yield env | {k: f(text) for k in others}
            if not others:
                break
        if n < len(parts):
            for i in range(n, len(parts)):
                e = dict(env)
                for k in range(n, len(parts)):
                    e[parts[k]] = text if k == i else b""
                yield e


def truth(ctx, E, s, r, want, ev, key, name):
    """The boolean result is exactly the condition."""
    ev = list(ev)
    judge.excluded(ctx, E, s, [r, NOT(want)], ev, key, name + " is true although " + show_not(want))
    judge.excluded(ctx, E, s, [NOT(r), want], ev, key, name + " is false although the condition holds")


def show_not(w):
    return "the condition does not hold"


def compare(ctx, E, s, last, r, t, parts, key, name):
    ev = lambda: envs(E, parts, [r, t[0], t[1]], s)
    if last in ("eq", "ne"):
        want = mk("same", *sorted(t, key=lambda x: x.id)) if False else E.resimp(s, mk("same", t[0], t[1]))
        if r in (want, mk("same", t[1], t[0])) and last == "eq":
            ctx.oblige(True, key, None, name)
            return
        if last == "ne":
            want = NOT(want)
        truth(ctx, E, s, r, want, ev(), key, name)
        return
    if last == "partial_cmp":
        if r.op != "agg" or r.a[1] != 1:
            ctx.oblige(False if r.op == "agg" and s.weak is None else None, key, "%s can give no ordering: %s" % (name, show(r)[:120]))
            return
        r = r.a[2][0]
    if last not in ("cmp", "partial_cmp"):
        ctx.undecide(key, name + ": not a known comparison")
        return
    if r.op == "app" and r.a[0] == "strcmp" and judge.same_rope(E, s, r.a[2], t[0]) and judge.same_rope(E, s, r.a[3], t[1]):
        ctx.oblige(True, key, None, name)
        return
    if s.weak is None:
        for env in ev():
            try:
                if strev.consistent(s, env, E) is not True:
                    continue
                x, y = strev.sev(t[0], env, E), strev.sev(t[1], env, E)
                g, w = three(r, env, E), (x > y) - (x < y)
            except strev.Unknown:
                continue
            if g != w:
                ctx.violate(key, "%s orders %r against %r as %d" % (name, x[:60], y[:60], g))
                return
    ctx.undecide(key, "%s: %s" % (name, show(r)[:200]))


def judge_hash(ctx, E, s, text, parts, key, name):
    hs = [e for e in walk(s.events()) if e.kind == "hash"]
    if len(hs) == 1 and hs[0].args[0] == "str" and judge.same_rope(E, s, hs[0].args[1], text):
        ctx.oblige(True, key, None, name + ": hashes the text as a str")
        return
    if s.weak is not None or not all(h.args[0] in ("str", "bytes", "hash") or h.args[0].startswith("write") for h in hs):
        ctx.undecide(key, "%s hashes %s" % (name, [(h.args[0], show(h.args[1])[:80]) for h in hs]))
        return
    shape = [h.args[0] for h in hs]
    if any(x.startswith("write") for x in shape):
        ctx.undecide(key, "%s feeds the hasher by hand: %s" % (name, shape))
        return
    if shape != ["str"]:
        ctx.violate(key, "%s hashes %s, not the text alone as a str does" % (name, shape))
        return
    judge.rope(ctx, E, s, hs[0].args[1], text, envs(E, parts, [hs[0].args[1], text], s), key, name + ": the text hashed")


def run(ctx):
    par.each(ctx, run_config, ["default", "timestamps"] + (["all"] if ctx.thorough else []))
    ctx.floor("functions", 60)
    ctx.floor("paths", 60)
