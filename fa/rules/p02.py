"""Executes every conversion and view of the colour type for each of the 256 colours: number to colour, colour to plain
and bold sequence, displayed text, hash and comparison with a number must all denote that number, and the variant must
carry the published name."""
import json
import os

from .. import build, par, strev
from ..prog import *


def color_code(n):
    return "3%d" % n if n < 8 else "9%d" % (n - 8) if n < 16 else "38;5;%d" % n


def color_type(E):
    c = [i for i in range(len(E.types)) if (E.types[i] or {}).get("path", "").endswith("::AnsiColor") and E.types[i].get("adt") == "enum"]
    return c[0] if c else None


def one(rs):
    """The single outcome of a run."""
    rs = [(s, v) for s, v in rs if v.op != "never"]
    return rs[0] if len(rs) == 1 else (None, None)


def run_config(ctx, cfg):
    names = json.load(open(os.path.join(build.VERIF, "spec", "color_names.json")))
    p = Prog(cfg)
    p.over = {}
    E = p.engine(trace_if=lambda l: True)
    ty = color_type(E)
    if ty is None:
        ctx.undecide("anchor", "no colour type")
        return
    vs = E.types[ty]["vars"]
    ctx.oblige(len(vs) == 256 and sorted(v[1] for v in vs) == list(range(256)), "variants", "the colour type has %d variants" % len(vs), "256 variants")
    idx = {v[1]: i for i, v in enumerate(vs)}
    for n in sorted(idx):
        ctx.oblige(n < 256 and vs[idx[n]][0] == names[n], "name|%d" % n, "colour %d is named %s, published as %s" % (n, vs[idx[n]][0], names[n] if n < 256 else None))
    seen = []
    for b in p.P.list:
        if not b["identity"] or not b["local"] or b.get("closure_of") or not (b["public"] or b["impl_trait"]):
            continue
        t = [strip(E, l, ty) for l in b["locals"][:b["argc"] + 1]]
        last = b["path"].split("::")[-1]
        u8 = lambda i: (E.tyinfo(b["locals"][i]) or {}).get("k") == "uint" and E.tyinfo(b["locals"][i])["bits"] == 8
        name = b["impl_trait"] or b["path"]
        if b["argc"] == 1 and t[0] == 0 and u8(1):
            job = "from"
        elif b["argc"] == 1 and t[1] is not None and text_type(E, b["locals"][0]) and last in ("as_str", "as_str_bold"):
            job = last
        elif b["argc"] == 2 and t[1] is not None and b["impl_trait"] and last in ("fmt", "hash", "eq") and "Debug" not in name:
            job = last
        elif b["argc"] == 2 and t[2] is not None and b["impl_trait"] and last == "eq":
            job = "eq"
        elif b["argc"] == 1 and t[1] is not None and u8(0):
            job = "number"
        else:
            continue
        seen.append(name)
        ctx.count("functions")
        for n in range(256):
            col = mk("agg", ty, idx.get(n, 0), ())
            st = State()
            args = p.symargs(b)
            for i in range(b["argc"]):
                if t[1 + i] == 0:
                    args[i] = col
                elif t[1 + i] == 1 and (i == 0 or t[1] is None):
                    root = mk("l", -1, i)
                    st.mem[root] = col
                    args[i] = mk("ref", root, ())
            if job == "from":
                args[0] = INT(n)
            try:
                res = E.run(b["key"], args, st=st)
            except Stuck as e:
                ctx.undecide("stuck|" + name, "could not analyse %s: %s" % (name, e))
                break
            ctx.count("cases")
            check(ctx, E, job, name, n, res, vs, idx, args)
    for s, kind, detail, at, certain in E.panics:
        ctx.oblige(False if certain and s.weak is None else None, "panic|" + at[0], "%s can panic: %s %s" % (at[0], kind, str(detail)[:120]))
    ctx.analysed = {"functions": seen}


def strip(E, l, ty):
    if l == ty:
        return 0
    x = E.tyinfo(l) or {}
    return 1 if x.get("k") == "ref" and x["e"] == ty else None


def text_type(E, l):
    x = E.tyinfo(l) or {}
    return x.get("k") == "ref" and (E.tyinfo(x["e"]) or {}).get("k") == "str"


def check(ctx, E, job, name, n, res, vs, idx, args):
    key = "%s|%s" % (job, name)
    seq = b"\x1b[%sm" % color_code(n).encode()
    bold = b"\x1b[1;%sm" % color_code(n).encode()
    if job == "fmt":
        for s, v in res:
            ev = [e for e in walk(s.events()) if e.kind == "fmt"]
            got = rope_lit(ev[0].args[1]) if len(ev) == 1 else None
            ctx.oblige(None if got is None or s.weak is not None and got != seq else got == seq, key, "%s displays colour %d as %r" % (name, n, got))
        return
    if job == "hash":
        for s, v in res:
            hs = [e for e in walk(s.events()) if e.kind == "hash"]
            known = all(len(h.args) > 1 and isinstance(h.args[1], T) and h.args[1].op == "int" for h in hs)
            good = len(hs) == 1 and hs[0].args[0] in ("write_u8", "hash") and hs[0].args[1] == INT(n)
            ctx.oblige(True if good else False if known and s.weak is None else None, key, "%s hashes colour %d as %s" % (name, n, [(h.args[0], show(h.args[1])) for h in hs]))
        return
    if job == "eq":
        for s, r in res:
            r = E.resimp(s, r)
            other = [a for a in args if a.op != "agg" and not (a.op == "ref" and a.a[0].op == "l")]
            x = number_of(E, s, r, other)
            if x is None:
                ctx.undecide(key, "%s for colour %d: %s" % (name, n, show(r)[:120]))
                continue
            bad = None
            for k in range(256):
                env = {x: k}
                live = strev.consistent(s, env, E)
                if live is False:
                    continue
                try:
                    d = bool(strev.iev(r, env, E))
                except strev.Unknown:
                    d = None
                if live is None or d is None:
                    bad = "?"
                    break
                if d != (k == n):
                    bad = k
                    break
            ctx.oblige(True if bad is None else None if bad == "?" or s.weak is not None else False, key, "%s: colour %d against %s" % (name, n, bad))
        return
    s, v = one(res)
    if s is None or s.weak is not None:
        ctx.undecide(key, "%s has %d outcomes for colour %d" % (name, len(res), n))
        return
    if job == "from":
        good = v.op == "agg" and v.a[1] == idx.get(n)
        ctx.oblige(good if v.op == "agg" else None, key, "%s turns %d into %s" % (name, n, vs[v.a[1]][0] if v.op == "agg" else show(v)[:80]))
    elif job == "number":
        v = E.resimp(s, v)
        ctx.oblige(v == INT(n) if v.op == "int" else None, key, "%s gives %s for colour %d" % (name, show(v)[:60], n))
    else:
        try:
            got = rope_lit(E.as_rope(s, v))
        except Exception:
            got = None
        want = seq if job == "as_str" else bold
        ctx.oblige(None if got is None else got == want, key, "%s gives %r for colour %d" % (name, got, n))


def number_of(E, s, r, other):
    """The number (or discriminant) the comparison looks at."""
    if not other:
        return None
    found = set()
    tops(r, found)
    for l in list(s.lits) + list(s.ineq) + list(s.rng) + list(s.ne):
        tops(l, found)
    return found.pop() if len(found) == 1 else None


def tops(t, out):
    if t.op in ("deref", "sym") or t.op == "discr" and t.a[0].op != "app":
        out.add(t)
        return
    for y in t.a:
        if isinstance(y, T):
            tops(y, out)
        elif isinstance(y, tuple):
            for z in y:
                for w in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(w, T):
                        tops(w, out)


def run(ctx):
    par.each(ctx, run_config, ["default", "all"])
    ctx.floor("functions", 2 * 8)
    ctx.floor("cases", 2 * 8 * 256)
    ctx.trusted = ["spec/color_names.json (published colour names)"]
