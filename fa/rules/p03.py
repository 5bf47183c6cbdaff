"""Executes every view of a message kind for each variant: display name, subcommand, colour, emptiness and rendered prefix
must describe the same kind.  The subcommand parser is executed on an arbitrary byte string: every path that gives a kind
has pinned the trimmed input to one of that kind's words, and no word takes a path that gives another kind.  The one-shot
message constructors must use the prefix of the kind they are named after."""
from .. import par, strev
from ..prog import *
from . import p02, p05

ALIASES = {"confirm": ["prompt"]}
PAD = [b"", b" ", b"\n", b"\t ", b" \r\n"]


def kind_type(E):
    c = [i for i in range(len(E.types)) if (E.types[i] or {}).get("path", "").endswith("::MsgKind") and E.types[i].get("adt") == "enum"]
    return c[0] if c else None


def word(name):
    return {"Custom": "print", "None": ""}.get(name, name.lower())


def text(E, s, v):
    try:
        return rope_lit(E.as_rope(s, E.simp(s, v)))
    except Exception:
        return None


def views(ctx, p, E, ty, n):
    """{view: value} of one variant, None where it has no single known value."""
    out = {}
    names = E.types[ty]["vars"]
    for b in p.P.list:
        if not b["identity"] or not b["local"] or b.get("closure_of") or b["argc"] not in (1, 2) or not (b["public"] or b["impl_trait"]):
            continue
        d = p02.strip(E, b["locals"][1], ty)
        last = b["path"].split("::")[-1]
        if d is None or last not in ("as_str", "command", "is_empty", "prefix_color", "prefix_str", "fmt") or (b["impl_trait"] or "").endswith("Debug>"):
            continue
        st = State()
        args = p.symargs(b)
        v = mk("agg", ty, n, ())
        if d == 1:
            root = mk("l", -1, 0)
            st.mem[root] = v
            v = mk("ref", root, ())
        args[0] = v
        rs = [(s, r) for s, r in E.run(b["key"], args, st=st) if r.op != "never"]
        ctx.count("views")
        if last == "fmt":
            got = set()
            for s, r in rs:
                ev = [e for e in walk(s.events()) if e.kind == "fmt"]
                got.add(rope_lit(ev[0].args[1]) if len(ev) == 1 and s.weak is None else None)
            out["display"] = got.pop() if len(got) == 1 else None
            continue
        if len(rs) != 1 or rs[0][0].weak is not None:
            out[last] = None
            continue
        s, r = rs[0]
        if last == "is_empty":
            out[last] = bool(r.a[0]) if r.op == "int" else None
        elif last == "prefix_color":
            if r.op == "agg" and r.a[1] == 0:
                out[last] = (None,)
            elif r.op == "agg" and r.a[2][0].op == "agg":
                c = r.a[2][0]
                out[last] = (E.tyinfo(c.a[0])["vars"][c.a[1]][1],)
            else:
                out[last] = None
        else:
            out[last] = text(E, s, r)
    return out


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    E = p.engine(trace_if=lambda l: True)
    ty = kind_type(E)
    if ty is None:
        ctx.undecide("anchor", "no kind type")
        return
    kinds = E.types[ty]["vars"]
    seen, used, pre = {}, {}, {}
    for n, (name, _, fields) in enumerate(kinds):
        ctx.count("kinds")
        v = views(ctx, p, E, ty, n)
        for k in ("as_str", "is_empty", "prefix_color", "prefix_str", "display"):
            if v.get(k) is None:
                ctx.undecide("view|%s|%s" % (k, name), "%s of %s is not understood" % (k, name))
        if any(v.get(k) is None for k in ("as_str", "is_empty", "prefix_color", "prefix_str", "display")):
            continue
        col = v["prefix_color"][0]
        ctx.oblige(v["display"] == v["as_str"], "display|" + name, "%s displays as %r, named %r" % (name, v["display"], v["as_str"]))
        ctx.oblige(v["is_empty"] == (v["prefix_str"] == b"") == (col is None), "empty|" + name,
                   "%s: reports empty %s, prefix %r, colour %s" % (name, v["is_empty"], v["prefix_str"], col))
        if col is not None:
            want = b"\x1b[1;%sm%s:\x1b[0m " % (p02.color_code(col).encode(), v["as_str"])
            ctx.oblige(v["prefix_str"] == want, "prefix|" + name, "%s renders as %r instead of %r" % (name, v["prefix_str"], want))
            ctx.oblige(v["as_str"] == name.encode() and seen.setdefault(v["as_str"], name) == name, "name|" + name, "%s is named %r" % (name, v["as_str"]))
        else:
            ctx.oblige(v["as_str"] == b"", "name|" + name, "%s has no prefix but is named %r" % (name, v["as_str"]))
        pre[name] = v["prefix_str"]
        if "command" in v:
            c = v["command"]
            ctx.oblige(None if c is None else c == word(name).encode() and used.setdefault(c, name) == name, "command|" + name, "%s has the subcommand %r" % (name, c))
    parse(ctx, p, E, ty, kinds)
    makers(ctx, p, E, ty, kinds, pre)
    ctx.analysed = {"kinds": [k[0] for k in kinds]}


def parse(ctx, p, E, ty, kinds):
    bs = [b for b in p.P.list if b["identity"] and b["local"] and b["argc"] == 1 and b["locals"][0] == ty and "std::convert::From<&[u8]>" in (b["impl_trait"] or "")]
    if not bs:
        return
    words = {}
    for n, (name, _, f) in enumerate(kinds):
        w = word(name)
        for x in [w] + ALIASES.get(w, []):
            if x:
                words[x.encode()] = n
    none = [n for n, k in enumerate(kinds) if k[0] == "None"][0]
    for b in bs:
        args = p.symargs(b)
        res = E.run(b["key"], args)
        x = args[0]
        for s, r in res:
            if r.op == "never":
                continue
            ctx.count("parser paths")
            if r.op != "agg":
                ctx.undecide("parse", "result %s" % show(r)[:80])
                continue
            if r.a[1] != none:
                pins = pinned(s)
                good = [w for w in pins if words.get(w) == r.a[1]]
                if good:
                    ctx.oblige(True, "parse|" + kinds[r.a[1]][0], None, "%s from %r" % (kinds[r.a[1]][0], good[0]))
                    continue
            # which words, near misses and other texts take this path?
            hit = None
            opaque = False
            for t in [w for w in pinned(s)] + list(trials(words)):
                c = strev.consistent(s, {x: t}, E)
                if c is None:
                    opaque = True
                elif c and words.get(t.strip(b" \t\n\r\x0c"), none) != r.a[1]:
                    hit = t
                    break
            key = "parse|" + kinds[r.a[1]][0]
            if hit is not None and s.weak is None:
                ctx.violate(key, "%r is taken for %s" % (hit, kinds[r.a[1]][0]))
            elif r.a[1] == none and not opaque and s.weak is None:
                ctx.oblige(True, key, None, "no known word gives the empty kind on this path")
            else:
                ctx.undecide(key, "a path that gives %s is not tied to one word" % kinds[r.a[1]][0])


def pinned(s):
    """Texts a trimmed text is known to equal on this path."""
    out, seqs = [], {}
    for l, v in s.lits.items():
        if v and l.op == "same":
            out += [rope_lit(y) for y in l.a if rope_lit(y) is not None]
    for t, (lo, hi) in s.rng.items():
        if lo != hi:
            continue
        if t.op == "byte" and t.a[1].op == "int":
            seqs.setdefault(t.a[0], {})[t.a[1].a[0]] = lo
        elif t.op == "len":
            seqs.setdefault(t.a[0], {})["n"] = lo
    for base, d in seqs.items():
        n = d.get("n")
        if n is not None and base.op == "app" and base.a[0] in ("trim_ascii", "trim") and all(i in d for i in range(n)):
            out.append(bytes(d[i] for i in range(n)))
    return out


def trials(words):
    for w in words:
        for a in PAD:
            for b in PAD:
                yield a + w + b
        yield w.upper()
        yield w[:-1]
        yield w + b"s"
        yield w[:-1] + b"_"
        yield b"_" + w[1:]
        yield w[:2] + b" " + w[2:]
        for i in range(len(w)):
            yield w[:i] + b"*" + w[i + 1:]
    yield from (b"", b" ", b"none", b"custom", b"help", b"x", b"\xff", b"None", b"Blank")


def makers(ctx, p, E, ty, kinds, pre):
    for b, how, mty in p05.subjects(p):
        last = b["path"].split("::")[-1]
        k = [n for n in pre if n.lower() == last]
        if how != "new" or b["impl_trait"] or b["argc"] != 1 or not k:
            continue
        x = p05.symbolic(p, b, how, mty)
        if x is None or x[5] is None:
            ctx.undecide("stuck|" + last, "could not analyse " + b["path"])
            continue
        E2, L, texts, syms, args, res = x
        for s, v in res:
            if v is None or v.op == "never":
                continue
            z = L.split(E2, s, v)
            if z is None:
                ctx.undecide("maker|" + last, "result not understood")
                continue
            t = p05.as_text(E2, s, args[0], z[0])
            h = p05.head(z[0], t)
            got = rope_lit(h) if h is not None else None
            ctx.count("constructors")
            ctx.oblige(None if got is None or s.weak is not None and got != pre[k[0]] else got == pre[k[0]], "maker|" + last, "Msg::%s starts with %r instead of %r" % (last, got, pre[k[0]]))


def run(ctx):
    par.each(ctx, run_config, ["default", "bin", "all"])
    ctx.floor("kinds", 15 + 17 + 15)
    ctx.floor("views", 200)
    ctx.floor("parser paths", 17)
    ctx.floor("constructors", 14)
